From b8a9336f10bd57620f2a98abc23446787f96ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 001/130] fix: decoding an undefined Enumerated value raises
 ValueError instead of KeyError

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a07cd97..442aa3c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3300,7 +3300,16 @@ class Enumerated(Integer):
             return None
 
         if self._native is None:
-            self._native = self._map[self.__int__()]
+            value = self.__int__()
+            if self._map is None or value not in self._map:
+                raise ValueError(unwrap(
+                    '''
+                    %s value %s is not a valid value
+                    ''',
+                    type_name(self),
+                    value
+                ))
+            self._native = self._map[value]
         return self._native
 
 
-- 
2.43.0


From beea130aca13b4b6f0c2e2d73650d832c9d3f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 002/130] fix: ObjectIdentifier.set() validates before changing
 state, refuses values it can not encode and drops the cached dotted form

---
 asn1crypto/core.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 442aa3c..a3b1a62 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3103,15 +3103,24 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        self._native = value
-
+        dotted = value
         if self._map is not None:
             if value in self._reverse_map:
-                value = self._reverse_map[value]
+                dotted = self._reverse_map[value]
 
-        self.contents = b''
+        if not _OID_RE.match(dotted) or '.' not in dotted:
+            raise ValueError(unwrap(
+                '''
+                %s value must be a dotted integer string with at least two
+                arcs, not %s
+                ''',
+                type_name(self),
+                repr(value)
+            ))
+
+        contents = b''
         first = None
-        for index, part in enumerate(value.split('.')):
+        for index, part in enumerate(dotted.split('.')):
             part = int(part)
 
             # The first two parts are merged into a single byte
@@ -3141,8 +3150,11 @@ class ObjectIdentifier(Primitive, ValueMap):
             while part > 0:
                 encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
                 part = part >> 7
-            self.contents += encoded_part
+            contents += encoded_part
 
+        self.contents = contents
+        self._native = None
+        self._dotted = None
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From fbbdbf09a5e38122b3a44222fb7823dc921aaff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:03 +0000
Subject: [PATCH 003/130] fix: RelativeOid encodes and decodes each arc on its
 own, it has no merged first pair of arcs

---
 asn1crypto/core.py | 77 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a3b1a62..7ec0ce3 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3342,6 +3342,83 @@ class RelativeOid(ObjectIdentifier):
 
     tag = 13
 
+    def set(self, value):
+        """
+        Sets the value of the object
+
+        :param value:
+            A unicode string of dotted integers. Unlike an ObjectIdentifier,
+            each arc is encoded on its own.
+
+        :raises:
+            ValueError - when an invalid value is passed
+        """
+
+        if not isinstance(value, str_cls):
+            raise TypeError(unwrap(
+                '''
+                %s value must be a unicode string, not %s
+                ''',
+                type_name(self),
+                type_name(value)
+            ))
+
+        dotted = value
+        if self._map is not None:
+            if value in self._reverse_map:
+                dotted = self._reverse_map[value]
+
+        if not _OID_RE.match(dotted):
+            raise ValueError(unwrap(
+                '''
+                %s value must be a dotted integer string, not %s
+                ''',
+                type_name(self),
+                repr(value)
+            ))
+
+        contents = b''
+        for part in dotted.split('.'):
+            part = int(part)
+            encoded_part = chr_cls(0x7F & part)
+            part = part >> 7
+            while part > 0:
+                encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
+                part = part >> 7
+            contents += encoded_part
+
+        self.contents = contents
+        self._native = None
+        self._dotted = None
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
+
+    @property
+    def dotted(self):
+        """
+        :return:
+            A unicode string of the relative object identifier in dotted
+            notation, thus ignoring any mapped value
+        """
+
+        if self._dotted is None:
+            output = []
+
+            part = 0
+            for byte in self.contents:
+                if _PY2:
+                    byte = ord(byte)
+                part = part * 128
+                part += byte & 127
+                # Last byte in subidentifier has the eighth bit set to 0
+                if byte & 0x80 == 0:
+                    output.append(str_cls(part))
+                    part = 0
+
+            self._dotted = '.'.join(output)
+        return self._dotted
+
 
 class Sequence(Asn1Value):
     """
-- 
2.43.0


From caa25c039d207c176ef9f437a9c7feae82c0325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 004/130] fix: a bit string without content octets raises
 ValueError instead of IndexError

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7ec0ce3..6a8944e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2019,6 +2019,10 @@ class _IntegerBitString(object):
             # return an empty chunk, for cases like \x23\x80\x00\x00
             return []
 
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string has no unused bits octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         value = int_from_bytes(self.contents[1:])
         bits = (len(self.contents) - 1) * 8
@@ -2450,6 +2454,10 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string has no unused bits octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if not unused_bits_len:
             return [(self.contents[1:], ())]
@@ -2949,6 +2957,10 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string has no unused bits octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if unused_bits_len:
             raise ValueError('ParsableOctetBitString should have no unused bits')
-- 
2.43.0


From 616d73576e5572bcdff025765b78536dba4ec357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 005/130] fix: Null.set() drops the decoded header, so it is
 never paired with different contents

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6a8944e..ad25e81 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2986,6 +2986,9 @@ class Null(Primitive):
         """
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
-- 
2.43.0


From c32a02d70b1c704f70e20fdee52b0128d98bebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 006/130] fix: Castable.cast() keeps the tag number of an
 implicitly tagged value

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ad25e81..249bf2a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -723,6 +723,7 @@ class Castable(object):
 
         new_obj = other_class()
         new_obj.class_ = self.class_
+        new_obj.tag = self.tag
         new_obj.implicit = self.implicit
         new_obj.explicit = self.explicit
         new_obj._header = self._header
-- 
2.43.0


From 63a4e3c707f2e93ee489308ca07ff98cbe6691dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 007/130] fix: BitString.set() keeps bits that have no name,
 refuses unknown names and leaves the value alone when it refuses

---
 asn1crypto/core.py | 50 ++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 249bf2a..eebba47 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2146,26 +2146,46 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                     type_name(self)
                 ))
 
-            bits = [0] * self._size
-            self._native = value
-            for index in range(0, self._size):
-                key = self._map.get(index)
-                if key is None:
-                    continue
-                if key in value:
+            # Bits that are not named in the map are represented by their index
+            native = set(self._map.get(key, key) for key in value)
+            size = self._size
+            for key in native:
+                if isinstance(key, int_types) and key >= 0:
+                    size = max(size, key + 1)
+                elif key not in self._reverse_map:
+                    raise ValueError(unwrap(
+                        '''
+                        %s._map does not contain an entry for "%s"
+                        ''',
+                        type_name(self),
+                        key
+                    ))
+
+            bits = [0] * size
+            for index in range(0, size):
+                if self._map.get(index, index) in native:
                     bits[index] = 1
 
             value = ''.join(map(str_cls, bits))
 
         elif value.__class__ == tuple:
             if self._map is None:
-                self._native = value
+                native = value
             else:
-                self._native = set()
+                if len(value) > self._size:
+                    raise ValueError(unwrap(
+                        '''
+                        %s value must be at most %s bits long, specified was %s long
+                        ''',
+                        type_name(self),
+                        self._size,
+                        len(value)
+                    ))
+                native = set()
                 for index, bit in enumerate(value):
                     if bit:
                         name = self._map.get(index, index)
-                        self._native.add(name)
+                        native.add(name)
             value = ''.join(map(str_cls, value))
 
         else:
@@ -2179,15 +2199,6 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             ))
 
         if self._map is not None:
-            if len(value) > self._size:
-                raise ValueError(unwrap(
-                    '''
-                    %s value must be at most %s bits long, specified was %s long
-                    ''',
-                    type_name(self),
-                    self._size,
-                    len(value)
-                ))
             # A NamedBitList must have trailing zero bit truncated. See
             # https://www.itu.int/ITU-T/studygroups/com17/languages/X.690-0207.pdf
             # section 11.2,
@@ -2216,6 +2227,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
         if len(value_bytes) != size_in_bytes:
             value_bytes = (b'\x00' * (size_in_bytes - len(value_bytes))) + value_bytes
 
+        self._native = native
         self.contents = extra_bits_byte + value_bytes
         self._unused_bits = (0,) * extra_bits
         self._header = None
-- 
2.43.0


From d69fc7232782e75f4856ca3fb781fa5e84e7676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 008/130] fix: ParsableOctetString.set() drops the value that
 was parsed from the previous contents

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index eebba47..6bbe45d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2798,6 +2798,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             ))
 
         self._bytes = value
+        self._parsed = None
         self.contents = value
         self._header = None
         if self._indefinite:
@@ -2915,12 +2916,14 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             force = True
 
         if force:
-            if self._parsed is not None:
-                native = self.parsed.dump(force=force)
+            parsed = self._parsed
+            if parsed is not None:
+                native = parsed[0].dump(force=force)
             else:
                 native = self.native
             self.contents = None
             self.set(native)
+            self._parsed = parsed
 
         return Asn1Value.dump(self)
 
@@ -2950,6 +2953,7 @@ class ParsableOctetBitString(ParsableOctetString):
             ))
 
         self._bytes = value
+        self._parsed = None
         # Set the unused bits to 0
         self.contents = b'\x00' + value
         self._header = None
-- 
2.43.0


From 196605f879d21e7765094e7bdcf6aea8cc5b113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 009/130] fix: an empty constructed bit string decodes through
 OctetBitString and ParsableOctetBitString as it does through BitString

---
 asn1crypto/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6bbe45d..3bc5865 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2467,6 +2467,10 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return []
+
         if not self.contents:
             # Disallowed by X.690 §8.6.2.1
             raise ValueError('Bit string has no unused bits octet')
@@ -2974,6 +2978,10 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return b''
+
         if not self.contents:
             # Disallowed by X.690 §8.6.2.1
             raise ValueError('Bit string has no unused bits octet')
-- 
2.43.0


From 5469d2e92c914f339f066cbf0f6c98c7f99c78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 010/130] fix: a string value that can not be encoded is
 refused without changing the object

---
 asn1crypto/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 3bc5865..c8e0903 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1809,8 +1809,8 @@ class AbstractString(Constructable, Primitive):
                 type_name(value)
             ))
 
-        self._unicode = value
         self.contents = value.encode(self._encoding)
+        self._unicode = value
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From d9a5df89bbcbcc1918e0823e1faee1529d948528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 011/130] fix: a forced dump() that can not re-encode the value
 keeps the existing contents

---
 asn1crypto/core.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c8e0903..4f4406e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1733,7 +1733,6 @@ class Primitive(Asn1Value):
 
         if force:
             native = self.native
-            self.contents = None
             self.set(native)
 
         return Asn1Value.dump(self)
@@ -2925,7 +2924,6 @@ class ParsableOctetString(Constructable, Castable, Primitive):
                 native = parsed[0].dump(force=force)
             else:
                 native = self.native
-            self.contents = None
             self.set(native)
             self._parsed = parsed
 
-- 
2.43.0


From 1e5d91f91493cf7093eda1c2801ee2e2e42c4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 012/130] fix: the header of a definite-length value is not
 mistaken for an indefinite length when its length octets end in 0x80

---
 asn1crypto/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4f4406e..d0644ae 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -644,7 +644,7 @@ class Asn1Value(object):
         contents = self.contents
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if self._header is None or force:
@@ -1351,7 +1351,7 @@ class Choice(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         self._contents = self.chosen.dump(force=force)
@@ -1728,7 +1728,7 @@ class Primitive(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
@@ -4273,7 +4273,7 @@ class Sequence(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         # We can't force encoding if we don't have a spec
@@ -4746,7 +4746,7 @@ class SequenceOf(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
-- 
2.43.0


From 6ac8fc3cc696b41531e9c77ec5f414465f88d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 013/130] fix: a Choice recomputes its explicit tag header when
 the chosen value has changed

---
 asn1crypto/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d0644ae..91413a5 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1354,12 +1354,13 @@ class Choice(Asn1Value):
         if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
-        self._contents = self.chosen.dump(force=force)
-        if self._header is None or force:
+        contents = self.chosen.dump(force=force)
+        if self._header is None or force or contents != self._contents:
             self._header = b''
             if self.explicit is not None:
                 for class_, tag in self.explicit:
-                    self._header = _dump_header(class_, 1, tag, self._header + self._contents) + self._header
+                    self._header = _dump_header(class_, 1, tag, self._header + contents) + self._header
+        self._contents = contents
         return self._header + self._contents
 
 
-- 
2.43.0


From 2b45c28835af81708bd61912cad17b136be74689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 014/130] fix: a Choice whose chosen alternative uses the
 indefinite length can be decoded

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 91413a5..c1d8a82 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5695,8 +5695,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value.validate(class_, tag, contents)
                 try:
                     # Force parsing the Choice now
-                    value.contents = header + value.contents
+                    value.contents = header + value.contents + (trailer or b'')
                     header = b''
+                    trailer = b''
                     value.parse()
                 except (ValueError, TypeError) as e:
                     args = e.args[1:]
-- 
2.43.0


From c956ee7b5b0962365ecb872b95deb6cfe64ec1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 015/130] fix: a forced dump() of a TeletexString from a
 certificate keeps its octets, which are decoded with another charset than
 they are encoded with

---
 asn1crypto/x509.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 38aa770..d292ed4 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -479,6 +479,30 @@ class NotReallyTeletexString(TeletexString):
             self._unicode = self._merge_chunks().decode(self._decoding_encoding)
         return self._unicode
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # Since different encodings are used for encoding and decoding, the
+        # unicode value can not be used to regenerate the contents
+        if (force or self._indefinite) and self.contents is not None:
+            self.contents = self._merge_chunks()
+            self._header = None
+            self._trailer = b''
+            if self._indefinite:
+                self._indefinite = False
+                self.method = 0
+
+        return super(NotReallyTeletexString, self).dump()
+
 
 @contextmanager
 def strict_teletex():
-- 
2.43.0


From d3b115273713b8b34cb53aadbfe80d14af17da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 016/130] fix: GeneralizedTime pads years before 1000 to four
 digits when encoding a datetime

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c1d8a82..c530d88 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5283,7 +5283,8 @@ class GeneralizedTime(AbstractTime):
             else:
                 fraction = ''
 
-            value = value.strftime('%Y%m%d%H%M%S') + fraction + 'Z'
+            # Not every platform pads %Y to four digits
+            value = '%04d' % value.year + value.strftime('%m%d%H%M%S') + fraction + 'Z'
             if _PY2:
                 value = value.decode('ascii')
 
-- 
2.43.0


From 508157675b7ea753737cc7f80a598d7d937635df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 017/130] fix: UTCTime and GeneralizedTime refuse a trailing
 newline

---
 asn1crypto/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c530d88..432d108 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5160,7 +5160,7 @@ class UTCTime(AbstractTime):
                 (?P<dminute>\d{2})
             )
         )
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
@@ -5256,7 +5256,7 @@ class GeneralizedTime(AbstractTime):
                 (?P<dminute>\d{2})?
             )
         )?
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
-- 
2.43.0


From f2beb7405f1714e14f684bab0b029d93eb63a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 018/130] fix: a time whose fraction rounds past the year 9999
 raises ValueError instead of OverflowError

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 432d108..8ef07d8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5120,7 +5120,16 @@ class AbstractTime(AbstractString):
             value = self._get_datetime(parsed)
 
             if fraction:
-                value += timedelta(microseconds=fraction)
+                try:
+                    value += timedelta(microseconds=fraction)
+                except (OverflowError):
+                    raise ValueError(unwrap(
+                        '''
+                        Error parsing %s to a %s
+                        ''',
+                        str_cls(self),
+                        type_name(self),
+                    ))
 
             self._native = value
 
-- 
2.43.0


From 43ba7b9ce9e3c73da00ff632aef88404c48b9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 019/130] fix: copying a chunked string or time keeps its
 octets, so str(), .native and the contents of the copy agree

---
 asn1crypto/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 8ef07d8..4f50de4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1842,7 +1842,14 @@ class AbstractString(Constructable, Primitive):
             lists, dicts and objects
         """
 
-        super(AbstractString, self)._copy(other, copy_func)
+        if other._indefinite:
+            # The octets of the chunks are merged as they are, since the native
+            # value may not encode to the same octets, or not at all
+            super(Constructable, self)._copy(other, copy_func)
+            self.contents = other._merge_chunks()
+            self.method = 0
+        else:
+            super(AbstractString, self)._copy(other, copy_func)
         self._unicode = other._unicode
 
     @property
-- 
2.43.0


From 688a0e8d45303e37b11f98467140cbfe0588288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 020/130] fix: the default of a SEQUENCE field is not merged
 into a value that is present

---
 asn1crypto/core.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4f50de4..addd531 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3537,14 +3537,9 @@ class Sequence(Asn1Value):
 
         Asn1Value.__init__(self, **kwargs)
 
-        check_existing = False
-        if value is None and default is not None:
-            check_existing = True
-            if self.children is None:
-                if self.contents is None:
-                    check_existing = False
-                else:
-                    self._parse_children()
+        # A default is for an absent value, it must not be merged into one that
+        # was decoded
+        if value is None and default is not None and self._contents is None:
             value = default
 
         if value is not None:
@@ -3560,15 +3555,6 @@ class Sequence(Asn1Value):
                     unused_keys = set(keys)
 
                 for key in keys:
-                    # If we are setting defaults, but a real value has already
-                    # been set for the field, then skip it
-                    if check_existing:
-                        index = self._field_map[key]
-                        if index < len(self.children) and self.children[index] is not VOID:
-                            if key in unused_keys:
-                                unused_keys.remove(key)
-                            continue
-
                     if key in value:
                         self.__setitem__(key, value[key])
                         unused_keys.remove(key)
-- 
2.43.0


From 4d4b37b288febb2e9cb6f031368239adcf525018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 021/130] fix: a change of a nested value is encoded even if
 the nested value was read or encoded first

---
 asn1crypto/core.py | 115 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 100 insertions(+), 15 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index addd531..3133be9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3487,6 +3487,14 @@ class Sequence(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # An object that is replaced each time a child is set, added or removed
+    _revision = None
+
+    # The revisions of this object and its (recursive) children that _contents
+    # was encoded from. These are compared since a child may be encoded on its
+    # own, which resets _mutated, before the object that contains it.
+    _encoded_revisions = []
+
     # A list of tuples in one of the following forms.
     #
     # Option 1, a unicode string field name and a value class
@@ -3541,6 +3549,9 @@ class Sequence(Asn1Value):
         # was decoded
         if value is None and default is not None and self._contents is None:
             value = default
+            is_default = True
+        else:
+            is_default = False
 
         if value is not None:
             try:
@@ -3580,6 +3591,9 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                if is_default:
+                    _settle_revisions(self)
+
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
@@ -3616,13 +3630,7 @@ class Sequence(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
-
-        return mutated
+        return self._mutated or _revisions(self) != self._encoded_revisions
 
     def _lazy_child(self, index):
         """
@@ -3745,6 +3753,7 @@ class Sequence(Asn1Value):
         if self._native is not None:
             self._native[self._fields[key][0]] = self.children[key].native
         self._mutated = True
+        self._revision = object()
 
     def __delitem__(self, key):
         """
@@ -3790,6 +3799,7 @@ class Sequence(Asn1Value):
         else:
             self.__setitem__(key, None)
         self._mutated = True
+        self._revision = object()
 
     def __iter__(self):
         """
@@ -3833,6 +3843,7 @@ class Sequence(Asn1Value):
             contents.write(child_dump)
         self._contents = contents.getvalue()
         self._mutated = False
+        self._encoded_revisions = _revisions(self)
 
         self._header = None
         if self._trailer != b'':
@@ -4314,6 +4325,14 @@ class SequenceOf(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # An object that is replaced each time a child is set, added or removed
+    _revision = None
+
+    # The revisions of this object and its (recursive) children that _contents
+    # was encoded from. These are compared since a child may be encoded on its
+    # own, which resets _mutated, before the object that contains it.
+    _encoded_revisions = []
+
     # An Asn1Value class to use when parsing children
     _child_spec = None
 
@@ -4344,7 +4363,8 @@ class SequenceOf(Asn1Value):
             if contents is not None:
                 self.contents = contents
             else:
-                if value is None and default is not None:
+                is_default = value is None and default is not None
+                if is_default:
                     value = default
 
                 if value is not None:
@@ -4355,6 +4375,9 @@ class SequenceOf(Asn1Value):
                     if self.contents is None:
                         self._set_contents()
 
+                if is_default:
+                    _settle_revisions(self)
+
         except (ValueError, TypeError) as e:
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
@@ -4391,13 +4414,7 @@ class SequenceOf(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
-
-        return mutated
+        return self._mutated or _revisions(self) != self._encoded_revisions
 
     def _lazy_child(self, index):
         """
@@ -4520,6 +4537,7 @@ class SequenceOf(Asn1Value):
             self._native[key] = self.children[key].native
 
         self._mutated = True
+        self._revision = object()
 
     def __delitem__(self, key):
         """
@@ -4538,6 +4556,7 @@ class SequenceOf(Asn1Value):
             self._native.pop(key)
 
         self._mutated = True
+        self._revision = object()
 
     def __iter__(self):
         """
@@ -4600,6 +4619,7 @@ class SequenceOf(Asn1Value):
             self._native.append(self.children[-1].native)
 
         self._mutated = True
+        self._revision = object()
 
     def _set_contents(self, force=False):
         """
@@ -4618,6 +4638,7 @@ class SequenceOf(Asn1Value):
             contents.write(child.dump(force=force))
         self._contents = contents.getvalue()
         self._mutated = False
+        self._encoded_revisions = _revisions(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4931,6 +4952,7 @@ class Set(Sequence):
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
         self._mutated = False
+        self._encoded_revisions = _revisions(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4965,6 +4987,7 @@ class SetOf(SequenceOf):
 
         self._contents = b''.join(sorted(child_encodings))
         self._mutated = False
+        self._encoded_revisions = _revisions(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -5434,6 +5457,68 @@ def _tag_type_to_explicit_implicit(params):
             del params['class']
 
 
+def _nested_container(value):
+    """
+    Finds the Sequence, Set, SequenceOf or SetOf that a value is, or wraps
+
+    :param value:
+        An Asn1Value object, or a tuple of a value that has not been parsed yet
+
+    :return:
+        None or a Sequence or SequenceOf object
+    """
+
+    while isinstance(value, (Choice, Any)):
+        value = value._parsed
+        if isinstance(value, tuple):
+            value = value[0]
+    if isinstance(value, (Sequence, SequenceOf)):
+        return value
+    return None
+
+
+def _revisions(value):
+    """
+    Lists the revisions of a container, and of all the containers inside of it,
+    that have been mutated
+
+    :param value:
+        A Sequence or SequenceOf object
+
+    :return:
+        A list of objects
+    """
+
+    output = []
+    if value._revision is not None:
+        output.append(value._revision)
+    for child in value.children or ():
+        child = _nested_container(child)
+        if child is not None:
+            output.extend(_revisions(child))
+    return output
+
+
+def _settle_revisions(value):
+    """
+    Makes a container that was constructed from a default indistinguishable
+    from one that was decoded, since the object that contains it has not been
+    mutated by using a default
+
+    :param value:
+        A Sequence or SequenceOf object
+    """
+
+    if value.contents is None:
+        return
+    value._revision = None
+    for child in value.children or ():
+        child = _nested_container(child)
+        if child is not None:
+            _settle_revisions(child)
+    value._encoded_revisions = []
+
+
 def _fix_tagging(value, params):
     """
     Checks if a value is properly tagged based on the spec, and re/untags as
-- 
2.43.0


From a672f6c0366d4faa2437d2605b6c7708e5e0e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 022/130] fix: a SET re-encodes after decoding, with absent
 optional fields, and in the order of the encoded tags

---
 asn1crypto/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 3133be9..fab2601 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4938,7 +4938,13 @@ class Set(Sequence):
             self._parse_children()
 
         child_tag_encodings = []
-        for index, child in enumerate(self.children):
+        for index in range(0, len(self.children)):
+            child = self._lazy_child(index)
+
+            # Skip absent optional fields
+            if child is VOID:
+                continue
+
             child_encoding = child.dump(force=force)
 
             # Skip encoding defaulted children
@@ -4947,7 +4953,10 @@ class Set(Sequence):
                 if spec(**field_params).dump() == child_encoding:
                     continue
 
-            child_tag_encodings.append((child.tag, child_encoding))
+            # The order is that of the outermost tags, which are different from
+            # those of the child if it is a Choice or explicitly tagged
+            (class_, _, tag, _, _, _), _ = _parse(child_encoding, len(child_encoding))
+            child_tag_encodings.append(((class_, tag), child_encoding))
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-- 
2.43.0


From 3e1b960475f28df28e7feda35b461f1d8b6901c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 023/130] fix: a SET without a definition of its fields is
 decoded like such a SEQUENCE, instead of being refused

---
 asn1crypto/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fab2601..0bf6768 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4282,7 +4282,7 @@ class Sequence(Asn1Value):
             force = True
 
         # We can't force encoding if we don't have a spec
-        if force and self._fields == [] and self.__class__ is Sequence:
+        if force and self._fields == [] and self.__class__ in (Sequence, Set):
             force = False
 
         if force:
@@ -4837,6 +4837,11 @@ class Set(Sequence):
                         self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
             return
 
+        # Without any fields, there is nothing to match the children to
+        if not self._fields:
+            super(Set, self)._parse_children(recurse=recurse)
+            return
+
         try:
             child_map = {}
             contents_length = len(self.contents)
-- 
2.43.0


From 99b94b1940b527796286bc4e833b31d8b2b6fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 024/130] fix: a SET with two values for the same field is
 refused, instead of one of them being dropped

---
 asn1crypto/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0bf6768..02f14b1 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4882,6 +4882,14 @@ class Set(Sequence):
                     if isinstance(child, (Sequence, SequenceOf)):
                         child._parse_children(recurse=True)
 
+                if field in child_map:
+                    raise ValueError(unwrap(
+                        '''
+                        Data for field "%s" is present more than once
+                        ''',
+                        self._fields[field][0]
+                    ))
+
                 child_map[field] = child
                 seen_field += 1
 
-- 
2.43.0


From b81f70efc68990fb8ae54deda78d80293adfd195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 025/130] fix: values that follow the last defined field of a
 SEQUENCE are kept when it is re-encoded

---
 asn1crypto/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 02f14b1..a150fa6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3841,6 +3841,16 @@ class Sequence(Asn1Value):
                 if default_value.dump() == child_dump:
                     continue
             contents.write(child_dump)
+
+        # Values that follow the last field, e.g. those of a newer version of
+        # the structure. The existing encoding of these is preserved, since
+        # their type is not known.
+        for child in self.children[len(self._fields):]:
+            if child.__class__ == tuple:
+                contents.write(child[3] + child[4] + child[5])
+            else:
+                contents.write(child.dump())
+
         self._contents = contents.getvalue()
         self._mutated = False
         self._encoded_revisions = _revisions(self)
-- 
2.43.0


From 732c4ec0e5411cd1b54dc8ab47b5c0c02477990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 026/130] fix: an explicit tag that contains more than one
 value is refused, instead of being re-encoded with a wrong length

---
 asn1crypto/core.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a150fa6..c67db02 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5790,7 +5790,17 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                         expected_tag,
                         parsed_tag
                     ))
-                info, _ = _parse(to_parse, len(to_parse))
+                to_parse_len = len(to_parse)
+                info, parsed_len = _parse(to_parse, to_parse_len)
+                if parsed_len != to_parse_len:
+                    raise ValueError(unwrap(
+                        '''
+                        Error parsing %s - %d bytes of extra data inside of an
+                        explicit tag
+                        ''',
+                        type_name(value),
+                        to_parse_len - parsed_len
+                    ))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
                 if not isinstance(value, Choice):
@@ -5877,7 +5887,15 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         explicit_header = header
         explicit_trailer = trailer or b''
         for expected_class, expected_tag in reversed(original_explicit):
-            info, _ = _parse(to_parse, len(to_parse))
+            to_parse_len = len(to_parse)
+            info, parsed_len = _parse(to_parse, to_parse_len)
+            if parsed_len != to_parse_len:
+                raise ValueError(unwrap(
+                    '''
+                    %d bytes of extra data inside of an explicit tag
+                    ''',
+                    to_parse_len - parsed_len
+                ))
             _, _, _, parsed_header, to_parse, parsed_trailer = info
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
-- 
2.43.0


From acce113d600804488c07b5caeb927efd373694b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 027/130] fix: setting a child whose native value is invalid
 does not leave a half-updated container

---
 asn1crypto/core.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c67db02..568b5e8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3748,10 +3748,13 @@ class Sequence(Asn1Value):
                 type_name(self)
             ))
 
+        # Obtained first, so that nothing is changed if there is an error
+        new_native = None if self._native is None else new_value.native
+
         self.children[key] = new_value
 
         if self._native is not None:
-            self._native[self._fields[key][0]] = self.children[key].native
+            self._native[self._fields[key][0]] = new_native
         self._mutated = True
         self._revision = object()
 
@@ -4535,6 +4538,9 @@ class SequenceOf(Asn1Value):
 
         new_value = self._make_value(value)
 
+        # Obtained first, so that nothing is changed if there is an error
+        new_native = None if self._native is None else new_value.native
+
         # If adding at the end, create a space for the new value
         if key == len(self.children):
             self.children.append(None)
@@ -4544,7 +4550,7 @@ class SequenceOf(Asn1Value):
         self.children[key] = new_value
 
         if self._native is not None:
-            self._native[key] = self.children[key].native
+            self._native[key] = new_native
 
         self._mutated = True
         self._revision = object()
@@ -4623,10 +4629,15 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
-        self.children.append(self._make_value(value))
+        new_value = self._make_value(value)
+
+        # Obtained first, so that nothing is changed if there is an error
+        new_native = None if self._native is None else new_value.native
+
+        self.children.append(new_value)
 
         if self._native is not None:
-            self._native.append(self.children[-1].native)
+            self._native.append(new_native)
 
         self._mutated = True
         self._revision = object()
-- 
2.43.0


From fc873c9a76fe2aff951e18257e6a5f8c4c3210ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 028/130] fix: debug() of an octet or bit string whose contents
 are not an encoded value does not raise

---
 asn1crypto/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 568b5e8..ec83d08 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -616,11 +616,14 @@ class Asn1Value(object):
 
         # This interacts with Any and moves the tag, implicit, explicit, _header,
         # contents, _footer to the parsed value so duplicate data isn't present
-        has_parsed = hasattr(self, 'parsed')
+        try:
+            parsed = getattr(self, 'parsed', None)
+        except (ValueError, TypeError):
+            parsed = None
 
         _basic_debug(prefix, self)
-        if has_parsed:
-            self.parsed.debug(nest_level + 2)
+        if parsed is not None:
+            parsed.debug(nest_level + 2)
         elif hasattr(self, 'chosen'):
             self.chosen.debug(nest_level + 2)
         else:
-- 
2.43.0


From 834cf038d5ae84f162aff1f0df5d80e20d95ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 029/130] fix: the native value of a copy follows later changes
 of the values nested in it

---
 asn1crypto/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ec83d08..ab59eb9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4257,6 +4257,9 @@ class Sequence(Asn1Value):
         """
 
         super(Sequence, self)._copy(other, copy_func)
+        # The children are parsed from the contents when needed, and a native
+        # value that is not made from these would not follow their changes
+        self._native = None
         if self.children is not None:
             self.children = []
             for child in other.children:
@@ -4751,6 +4754,9 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
+        # The children are parsed from the contents when needed, and a native
+        # value that is not made from these would not follow their changes
+        self._native = None
         if self.children is not None:
             self.children = []
             for child in other.children:
-- 
2.43.0


From 9caacf72a2b4d9f69e3c31e556a072a90a16100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 030/130] fix: a SEQUENCE or SET constructed from an empty dict
 is encoded, if all of its fields may be absent

---
 asn1crypto/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ab59eb9..721b8e8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3594,6 +3594,11 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                # Make sure a value that has no fields present is serialized
+                if not value and self._fields and self.children is None:
+                    if all('optional' in info[2] or 'default' in info[2] for info in self._fields):
+                        self._set_contents()
+
                 if is_default:
                     _settle_revisions(self)
 
-- 
2.43.0


From ee5deeb9a91ff35fcad8729552b3bc71d0276cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 031/130] fix: a SEQUENCE OF or SET OF refuses a child without
 a value, since it could not be encoded any more

---
 asn1crypto/core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 721b8e8..bd85ca4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4497,7 +4497,18 @@ class SequenceOf(Asn1Value):
             new_value = value
 
         else:
-            return self._child_spec(value=value)
+            new_value = self._child_spec(value=value)
+
+        if not isinstance(new_value, Any) and new_value.contents is None:
+            raise ValueError(unwrap(
+                '''
+                Value for child of %s is not set
+                ''',
+                type_name(self)
+            ))
+
+        if not isinstance(value, Asn1Value):
+            return new_value
 
         params = {}
         if self._child_spec.explicit:
-- 
2.43.0


From bb24c7045783baaa0f11b7927f04cf139e7d47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 032/130] fix: an explicitly tagged value of any type is only
 decoded from exactly these tags, and keeps all of their headers

---
 asn1crypto/core.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bd85ca4..778844c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5923,6 +5923,20 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         explicit_header = header
         explicit_trailer = trailer or b''
         for expected_class, expected_tag in reversed(original_explicit):
+            if (class_, method, tag) != (expected_class, 1, expected_tag):
+                raise ValueError(unwrap(
+                    '''
+                    Error parsing an explicitly-tagged value - should have been
+                    %s class, %s method, tag %s, but %s class, %s method, tag %s
+                    was found
+                    ''',
+                    CLASS_NUM_TO_NAME_MAP.get(expected_class),
+                    METHOD_NUM_TO_NAME_MAP.get(1),
+                    expected_tag,
+                    CLASS_NUM_TO_NAME_MAP.get(class_, class_),
+                    METHOD_NUM_TO_NAME_MAP.get(method, method),
+                    tag
+                ))
             to_parse_len = len(to_parse)
             info, parsed_len = _parse(to_parse, to_parse_len)
             if parsed_len != to_parse_len:
@@ -5932,12 +5946,12 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                     ''',
                     to_parse_len - parsed_len
                 ))
-            _, _, _, parsed_header, to_parse, parsed_trailer = info
+            class_, method, tag, parsed_header, to_parse, parsed_trailer = info
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
         value = _build(*info, spec=spec, spec_params={'no_explicit': True})
-        value._header = header + value._header
-        value._trailer += trailer or b''
+        value._header = explicit_header
+        value._trailer = explicit_trailer
         value.explicit = original_explicit
         header_set = True
 
-- 
2.43.0


From 8bbc1b50cd5ce87090a7abcfb9a2d8ff9fae390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 033/130] fix: values of the types without a Python
 implementation (REAL and others) have a native value, instead of raising
 AttributeError

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 778844c..38063d7 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1719,6 +1719,18 @@ class Primitive(Asn1Value):
         if self._trailer != b'':
             self._trailer = b''
 
+    @property
+    def native(self):
+        """
+        The native Python datatype representation of this value. Classes that
+        implement a type override this.
+
+        :return:
+            A byte string of the contents or None
+        """
+
+        return self.contents
+
     def dump(self, force=False):
         """
         Encodes the value using DER
-- 
2.43.0


From b8074c1cff1a0c1d24fd474be15099be22f6cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 034/130] fix: an Any whose value can not be decoded without a
 spec is dumped as it was encoded, and can be copied

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 38063d7..bd4eb04 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1007,6 +1007,9 @@ class Any(Asn1Value):
 
         super(Any, self)._copy(other, copy_func)
         self._parsed = copy_func(other._parsed)
+        # Until it is parsed, the encoded value is made up of all of these
+        self._header = other._header
+        self._trailer = other._trailer
 
     def dump(self, force=False):
         """
@@ -1021,7 +1024,13 @@ class Any(Asn1Value):
         """
 
         if self._parsed is None:
-            self.parse()
+            try:
+                self.parse()
+            except (ValueError, TypeError):
+                # Without a spec it is not possible to decode every value
+                if self._header is None or self.contents is None:
+                    raise
+                return self._header + self.contents + self._trailer
 
         return self._parsed[0].dump(force=force)
 
-- 
2.43.0


From be129c1b6083f53ba8a99b6a1a1aca4ee4e5eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 035/130] fix: the explicit tag of an Any is encoded, can be
 changed, and survives parsing with another spec

---
 asn1crypto/core.py | 53 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bd4eb04..b83b6d3 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -907,7 +907,13 @@ class Any(Asn1Value):
                         type_name(value)
                     ))
 
+                # The tags are part of the parsed value, same as in .parse()
+                if self.explicit is not None:
+                    value = value.copy()
+                    value.explicit = (value.explicit or ()) + self.explicit
+
                 self._parsed = (value, value.__class__, None)
+                self._header = b''
                 self.contents = value.dump()
 
         except (ValueError, TypeError) as e:
@@ -915,6 +921,39 @@ class Any(Asn1Value):
             e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
             raise e
 
+    def retag(self, tagging, tag=None):
+        """
+        Copies the object, applying a new tagging to it
+
+        :param tagging:
+            A dict containing the keys "explicit" and "implicit". Legacy
+            API allows a unicode string of "implicit" or "explicit".
+
+        :param tag:
+            A integer tag number. Only used when tagging is a unicode string.
+
+        :return:
+            An Any object
+        """
+
+        if not isinstance(tagging, dict):
+            tagging = {tagging: tag}
+
+        value = self.parsed.copy()
+        if self.explicit is not None:
+            value.explicit = value.explicit[:-len(self.explicit)] or None
+        return self.__class__(value, explicit=tagging.get('explicit'), implicit=tagging.get('implicit'))
+
+    def untag(self):
+        """
+        Copies the object, removing any special tagging from it
+
+        :return:
+            An Any object
+        """
+
+        return self.retag({})
+
     @property
     def native(self):
         """
@@ -963,14 +1002,18 @@ class Any(Asn1Value):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             try:
-                passed_params = spec_params or {}
+                passed_params = dict(spec_params or {})
                 _tag_type_to_explicit_implicit(passed_params)
                 if self.explicit is not None:
                     if 'explicit' in passed_params:
-                        passed_params['explicit'] = self.explicit + passed_params['explicit']
+                        inner = Asn1Value(explicit=passed_params['explicit'])
+                        passed_params['explicit'] = inner.explicit + self.explicit
                     else:
                         passed_params['explicit'] = self.explicit
-                contents = self._header + self.contents + self._trailer
+                if self._parsed is not None:
+                    contents = self._parsed[0].dump()
+                else:
+                    contents = self._header + self.contents + self._trailer
                 parsed_value, _ = _parse_build(
                     contents,
                     spec=spec,
@@ -979,9 +1022,9 @@ class Any(Asn1Value):
                 self._parsed = (parsed_value, spec, spec_params)
 
                 # Once we've parsed the Any value, clear any attributes from this object
-                # since they are now duplicate
+                # since they are now duplicate. The explicit tags are necessary to
+                # parse the value again, or to change them.
                 self.tag = None
-                self.explicit = None
                 self.implicit = False
                 self._header = b''
                 self.contents = contents
-- 
2.43.0


From 9e9c3c17adb55fe4a017d3b506817d88d51857d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 036/130] fix: an absent optional field of any type with an
 explicit tag is recognised by the missing tag

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b83b6d3..b735188 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4149,7 +4149,8 @@ class Sequence(Asn1Value):
 
                     # If the next value is optional or default, allow it to be absent
                     if field_params and ('optional' in field_params or 'default' in field_params):
-                        if self._field_ids[field] != (parts[0], parts[2]) and field_spec != Any:
+                        is_any = field_spec == Any and 'explicit' not in field_params
+                        if self._field_ids[field] != (parts[0], parts[2]) and not is_any:
 
                             # See if the value is a valid choice before assuming
                             # that we have a missing optional or default value
-- 
2.43.0


From 98eed6f00358d42c988e0c612401ed3b18512cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 037/130] fix: a Choice with more than one explicit tag keeps
 the headers of all of them

---
 asn1crypto/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b735188..9fe9c25 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5853,14 +5853,14 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             else:
                 value = spec()
             original_explicit = value.explicit
-            explicit_info = reversed(original_explicit)
+            explicit_info = list(reversed(original_explicit))
             parsed_class = class_
             parsed_method = method
             parsed_tag = tag
             to_parse = contents
             explicit_header = header
             explicit_trailer = trailer or b''
-            for expected_class, expected_tag in explicit_info:
+            for index, (expected_class, expected_tag) in enumerate(explicit_info):
                 if parsed_class != expected_class:
                     raise ValueError(unwrap(
                         '''
@@ -5904,7 +5904,8 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                     ))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
-                if not isinstance(value, Choice):
+                # The innermost header is part of the alternative of a Choice
+                if not isinstance(value, Choice) or index < len(explicit_info) - 1:
                     explicit_header += parsed_header
                     explicit_trailer = parsed_trailer + explicit_trailer
 
-- 
2.43.0


From 9c406effe9fad93afc9cd9edfb702a02d445f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 038/130] fix: a field with more than one explicit tag, or of a
 class that is explicitly tagged, is recognised by its outermost tag

---
 asn1crypto/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9fe9c25..ac21c54 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5716,12 +5716,19 @@ def _build_id_tuple(params, spec):
 
     _tag_type_to_explicit_implicit(params)
 
-    if 'explicit' in params:
-        if isinstance(params['explicit'], tuple):
-            required_class, required_tag = params['explicit']
-        else:
+    explicit = params.get('explicit')
+    if explicit is None and 'implicit' not in params:
+        explicit = spec.explicit
+
+    if explicit is not None:
+        if not isinstance(explicit, tuple):
             required_class = 2
-            required_tag = params['explicit']
+            required_tag = explicit
+        elif isinstance(explicit[-1], int_types):
+            required_class, required_tag = explicit
+        else:
+            # The outermost tag of more than one
+            required_class, required_tag = explicit[-1]
     elif 'implicit' in params:
         if isinstance(params['implicit'], tuple):
             required_class, required_tag = params['implicit']
-- 
2.43.0


From 01e19aefd9e7bc751305f2d12673bd3e4fd63a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 039/130] fix: the chunks of a string are decoded with their
 universal tag if the class of the string has a tag of its own

---
 asn1crypto/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ac21c54..8a88674 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -761,9 +761,15 @@ class Constructable(object):
         contents_len = len(self.contents)
         output = None
 
+        # We pass the current class as the spec so content semantics are preserved,
+        # unless it has a tag of its own, which the chunks do not have
+        spec = self.__class__
+        for spec in self.__class__.__mro__:
+            if getattr(spec, 'class_', None) == 0 and spec.explicit is None:
+                break
+
         while pointer < contents_len:
-            # We pass the current class as the spec so content semantics are preserved
-            sub_value, pointer = _parse_build(self.contents, pointer, spec=self.__class__)
+            sub_value, pointer = _parse_build(self.contents, pointer, spec=spec)
             if output is None:
                 output = sub_value._merge_chunks()
             else:
-- 
2.43.0


From a7ef66a7db21df20e002369f3857c152106d7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 040/130] fix: a Choice keeps the end of an explicit tag with
 an indefinite length that contains another explicit tag

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 8a88674..a28043d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1421,8 +1421,9 @@ class Choice(Asn1Value):
             if self.explicit is not None:
                 for class_, tag in self.explicit:
                     self._header = _dump_header(class_, 1, tag, self._header + contents) + self._header
+            self._trailer = b''
         self._contents = contents
-        return self._header + self._contents
+        return self._header + self._contents + self._trailer
 
 
 class Concat(object):
-- 
2.43.0


From 737d86fa8629f7b46f6931b2fc14a4cf0005dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 041/130] fix: a value with tags of its own can be unpickled

---
 asn1crypto/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a28043d..324eebe 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -166,13 +166,13 @@ def load(encoded_data, strict=False):
     return Asn1Value.load(encoded_data, strict=strict)
 
 
-def unpickle_helper(asn1crypto_cls, der_bytes):
+def unpickle_helper(asn1crypto_cls, der_bytes, tagging=None):
     """
     Helper function to integrate with pickle.
 
     Note that this must be an importable top-level function.
     """
-    return asn1crypto_cls.load(der_bytes)
+    return asn1crypto_cls.load(der_bytes, **(tagging or {}))
 
 
 class Asn1Value(object):
@@ -494,7 +494,16 @@ class Asn1Value(object):
         """
         Permits pickling Asn1Value objects using their DER representation.
         """
-        return unpickle_helper, (self.__class__, self.dump())
+        cls = self.__class__
+        tagging = {}
+        if self.implicit:
+            tagging['implicit'] = (CLASS_NUM_TO_NAME_MAP[self.class_], self.tag)
+        elif self.explicit != cls.explicit:
+            # The tags of the class are not part of the tagging of the value
+            tagging['explicit'] = self.explicit[len(cls.explicit or ()):]
+        if tagging:
+            return unpickle_helper, (cls, self.dump(), tagging)
+        return unpickle_helper, (cls, self.dump())
 
     def _new_instance(self):
         """
-- 
2.43.0


From 633768477b366e839d717ef87d122a0a737635a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:08 +0000
Subject: [PATCH 042/130] fix: a copy of an IntegerOctetString keeps the
 encoded width

---
 asn1crypto/core.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 324eebe..b041413 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2840,6 +2840,21 @@ class IntegerOctetString(Constructable, Castable, Primitive):
         if self.contents is not None and len(self.contents) != width:
             self.set(self.native)
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IntegerOctetString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        self._encoded_width = other._encoded_width
+        super(IntegerOctetString, self)._copy(other, copy_func)
+
 
 class ParsableOctetString(Constructable, Castable, Primitive):
 
-- 
2.43.0


From 869d6231dd29d6ddd797bfa081f97f898a8ece11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 043/130] fix: a forced dump() of an IntegerOctetString or
 IntegerBitString does not change the octets or bits of the string

---
 asn1crypto/core.py | 61 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b041413..70c08a0 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1816,11 +1816,20 @@ class Primitive(Asn1Value):
             force = True
 
         if force:
-            native = self.native
-            self.set(native)
+            self._reencode(self)
 
         return Asn1Value.dump(self)
 
+    def _reencode(self, other):
+        """
+        Sets the value to the DER encoding of the value of another object
+
+        :param other:
+            self, or another instance of the same class
+        """
+
+        self.set(other.native)
+
     def __ne__(self, other):
         return not self == other
 
@@ -2681,6 +2690,37 @@ class IntegerBitString(_IntegerBitString, Constructable, Castable, Primitive):
 
         return self._native
 
+    def _reencode(self, other):
+        """
+        Sets the value to the DER encoding of the value of another object. The
+        leading zero bits are part of the bit string, but not of the integer.
+
+        :param other:
+            self, or another instance of the same class
+        """
+
+        value, bits, _ = other._chunks_to_int()
+        self.set(value)
+        unused = -bits % 8
+        self._unused_bits = (0,) * unused
+        self.contents = chr_cls(unused) + int_to_bytes(value << unused, width=(bits + unused) // 8)
+
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IntegerBitString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        super(IntegerBitString, self)._copy(other, copy_func)
+        if other._indefinite:
+            self._reencode(other)
+
 
 class OctetString(Constructable, Castable, Primitive):
     """
@@ -2854,6 +2894,23 @@ class IntegerOctetString(Constructable, Castable, Primitive):
 
         self._encoded_width = other._encoded_width
         super(IntegerOctetString, self)._copy(other, copy_func)
+        if other._indefinite:
+            self._reencode(other)
+
+    def _reencode(self, other):
+        """
+        Sets the value to the DER encoding of the value of another object. The
+        leading zero octets are part of the octet string, but not of the
+        integer.
+
+        :param other:
+            self, or another instance of the same class
+        """
+
+        octets = other._merge_chunks()
+        self.set(other.native)
+        if self._encoded_width is None:
+            self.contents = octets
 
 
 class ParsableOctetString(Constructable, Castable, Primitive):
-- 
2.43.0


From 0088a4f796cd89c511324e18d0a3749c8c32d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:46 +0000
Subject: [PATCH 044/130] fix: a forced dump() or copy of an OctetBitString
 with unused bits keeps their number

---
 asn1crypto/core.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 70c08a0..364dce9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2554,6 +2554,23 @@ class OctetBitString(Constructable, Castable, Primitive):
         super(OctetBitString, self)._copy(other, copy_func)
         self._bytes = other._bytes
         self._unused_bits = other._unused_bits
+        if other._indefinite:
+            self._reencode(other)
+
+    def _reencode(self, other):
+        """
+        Sets the value to the DER encoding of the value of another object. The
+        unused bits are not part of the bit string.
+
+        :param other:
+            self, or another instance of the same class
+        """
+
+        unused = len(other.unused_bits)
+        self.set(other.native)
+        if unused:
+            self._unused_bits = (0,) * unused
+            self.contents = chr_cls(unused) + self.contents[1:]
 
     def _as_chunk(self):
         """
-- 
2.43.0


From 404e06039ed4cf4d1fdb08abda6e92ff45c9e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 045/130] fix: a copy of a SEQUENCE OF or SET OF keeps the type
 of the elements it was constructed with

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 364dce9..40cb3bd 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4940,6 +4940,7 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
+        self._child_spec = other._child_spec
         # The children are parsed from the contents when needed, and a native
         # value that is not made from these would not follow their changes
         self._native = None
-- 
2.43.0


From b9d5a4089bb7b0298596055aff5bb9e8699c80be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 046/130] fix: the names that asn1crypto.tsp and asn1crypto.pdf
 define can be used if other names were used before their import

---
 asn1crypto/core.py | 16 ++++++++++++++++
 asn1crypto/pdf.py  | 10 +++++-----
 asn1crypto/tsp.py  |  8 ++++----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 40cb3bd..7eb5e0a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -701,6 +701,22 @@ class ValueMap():
         for key, value in cls._map.items():
             cls._reverse_map[value] = key
 
+    @classmethod
+    def _add_to_map(cls, key, value):
+        """
+        Adds an entry to _map, which may have been used already
+
+        :param key:
+            The int or OID
+
+        :param value:
+            A unicode string
+        """
+
+        cls._map[key] = value
+        if cls._reverse_map is not None:
+            cls._reverse_map[value] = key
+
 
 class Castable(object):
     """
diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index b72c886..51caedc 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -73,12 +73,12 @@ class SetOfRevocationInfoArchival(SetOf):
     _child_spec = RevocationInfoArchival
 
 
-ExtensionId._map['1.2.840.113583.1.1.9.2'] = 'adobe_archive_rev_info'
-ExtensionId._map['1.2.840.113583.1.1.9.1'] = 'adobe_timestamp'
-ExtensionId._map['1.2.840.113583.1.1.10'] = 'adobe_ppklite_credential'
+ExtensionId._add_to_map('1.2.840.113583.1.1.9.2', 'adobe_archive_rev_info')
+ExtensionId._add_to_map('1.2.840.113583.1.1.9.1', 'adobe_timestamp')
+ExtensionId._add_to_map('1.2.840.113583.1.1.10', 'adobe_ppklite_credential')
 Extension._oid_specs['adobe_archive_rev_info'] = AdobeArchiveRevInfo
 Extension._oid_specs['adobe_timestamp'] = AdobeTimestamp
 Extension._oid_specs['adobe_ppklite_credential'] = Null
-KeyPurposeId._map['1.2.840.113583.1.1.5'] = 'pdf_signing'
-CMSAttributeType._map['1.2.840.113583.1.1.8'] = 'adobe_revocation_info_archival'
+KeyPurposeId._add_to_map('1.2.840.113583.1.1.5', 'pdf_signing')
+CMSAttributeType._add_to_map('1.2.840.113583.1.1.8', 'adobe_revocation_info_archival')
 CMSAttribute._oid_specs['adobe_revocation_info_archival'] = SetOfRevocationInfoArchival
diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index f006da9..6984e79 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -302,9 +302,9 @@ class SetOfSigningCertificatesV2(SetOf):
 EncapsulatedContentInfo._oid_specs['tst_info'] = TSTInfo
 EncapsulatedContentInfo._oid_specs['timestamped_data'] = TimeStampedData
 ContentInfo._oid_specs['timestamped_data'] = TimeStampedData
-ContentType._map['1.2.840.113549.1.9.16.1.4'] = 'tst_info'
-ContentType._map['1.2.840.113549.1.9.16.1.31'] = 'timestamped_data'
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.12'] = 'signing_certificate'
+ContentType._add_to_map('1.2.840.113549.1.9.16.1.4', 'tst_info')
+ContentType._add_to_map('1.2.840.113549.1.9.16.1.31', 'timestamped_data')
+CMSAttributeType._add_to_map('1.2.840.113549.1.9.16.2.12', 'signing_certificate')
 CMSAttribute._oid_specs['signing_certificate'] = SetOfSigningCertificates
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.47'] = 'signing_certificate_v2'
+CMSAttributeType._add_to_map('1.2.840.113549.1.9.16.2.47', 'signing_certificate_v2')
 CMSAttribute._oid_specs['signing_certificate_v2'] = SetOfSigningCertificatesV2
-- 
2.43.0


From 5bd0f80bb582c4214d8105562ae2817bab0378bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 047/130] fix: AnyAlgorithmId can be set by name

---
 asn1crypto/algos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3a4b18f..55518cf 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1322,6 +1322,7 @@ class AnyAlgorithmId(ObjectIdentifier):
         for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
             for oid, name in other_cls._map.items():
                 _map[oid] = name
+        super(AnyAlgorithmId, self)._setup()
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
-- 
2.43.0


From a622490e98c2890792aee98c64194c56e941f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 048/130] fix: threads that use a type for the first time at
 once do not see its lookup tables partially filled

---
 asn1crypto/core.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7eb5e0a..162f343 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -55,6 +55,7 @@ import copy
 import math
 import re
 import sys
+import threading
 
 from . import _teletex_codec
 from ._errors import unwrap
@@ -111,6 +112,10 @@ _OID_RE = re.compile(r'^\d+(\.\d+)*$')
 # would just see the parent class attributes and would use them.
 _SETUP_CLASSES = {}
 
+# Held while the attributes of a class are generated. It is re-entrant since
+# creating the value of a class may require that another class is set up.
+_SETUP_LOCK = threading.RLock()
+
 
 def load(encoded_data, strict=False):
     """
@@ -297,14 +302,17 @@ class Asn1Value(object):
 
         try:
             if self.__class__ not in _SETUP_CLASSES:
-                cls = self.__class__
-                # Allow explicit to be specified as a simple 2-element tuple
-                # instead of requiring the user make a nested tuple
-                if cls.explicit is not None and isinstance(cls.explicit[0], int_types):
-                    cls.explicit = (cls.explicit, )
-                if hasattr(cls, '_setup'):
-                    self._setup()
-                _SETUP_CLASSES[cls] = True
+                with _SETUP_LOCK:
+                    cls = self.__class__
+                    # Another thread may have finished while this one waited
+                    if cls not in _SETUP_CLASSES:
+                        # Allow explicit to be specified as a simple 2-element tuple
+                        # instead of requiring the user make a nested tuple
+                        if cls.explicit is not None and isinstance(cls.explicit[0], int_types):
+                            cls.explicit = (cls.explicit, )
+                        if hasattr(cls, '_setup'):
+                            self._setup()
+                        _SETUP_CLASSES[cls] = True
 
             # Normalize tagging values
             if explicit is not None:
@@ -3283,8 +3291,8 @@ class ObjectIdentifier(Primitive, ValueMap):
         """
 
         if cls not in _SETUP_CLASSES:
-            cls()._setup()
-            _SETUP_CLASSES[cls] = True
+            # The class is set up when the first instance is created
+            cls()
 
         if cls._map is None:
             raise ValueError(unwrap(
-- 
2.43.0


From 7a6fe64dab0cd5d5e888e6e0d430143e2bf78bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 049/130] fix: extended_date and extended_datetime can be
 hashed, in accordance with their equality

---
 asn1crypto/util.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/asn1crypto/util.py b/asn1crypto/util.py
index 918b330..641290a 100644
--- a/asn1crypto/util.py
+++ b/asn1crypto/util.py
@@ -457,6 +457,14 @@ class extended_date(object):
 
         return not self.__eq__(other)
 
+    def __hash__(self):
+        """
+        :return:
+            An integer, the same for equal objects
+        """
+
+        return hash(self._y2k)
+
     def _comparison_error(self, other):
         raise TypeError(unwrap(
             '''
@@ -754,6 +762,25 @@ class extended_datetime(object):
 
         return not self.__eq__(other)
 
+    def __hash__(self):
+        """
+        :return:
+            An integer, the same for equal objects
+        """
+
+        offset = self.utcoffset()
+        if offset is None:
+            return hash(self._y2k)
+
+        # Near the end of the year 0, and depending on the time zone, a
+        # datetime.datetime object may be equal. This is how those are hashed.
+        since = timedelta(
+            self._y2k.toordinal() - self.DAYS_IN_2000_YEARS,
+            self.hour * 3600 + self.minute * 60 + self.second,
+            self.microsecond
+        )
+        return hash(since - offset)
+
     def _comparison_error(self, other):
         """
         Raises a TypeError about the other object not being suitable for
-- 
2.43.0


From d0f265a303b35f3870b6e3a715ac5eb9167c0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 050/130] fix: a timedelta and an extended_datetime can be
 added in either order

---
 asn1crypto/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crypto/util.py b/asn1crypto/util.py
index 641290a..1e33dbe 100644
--- a/asn1crypto/util.py
+++ b/asn1crypto/util.py
@@ -849,6 +849,8 @@ class extended_datetime(object):
 
         return extended_datetime.from_y2k(self._y2k + other)
 
+    __radd__ = __add__
+
     def __sub__(self, other):
         """
         Subtracts a timedelta or another datetime.
-- 
2.43.0


From 4a446e53a8da9f88c6ab07b4b13dd3249d4ef1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 051/130] fix: the sum of an extended_datetime and a timedelta
 may be any datetime up to the year 9999

---
 asn1crypto/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/util.py b/asn1crypto/util.py
index 1e33dbe..e5ac652 100644
--- a/asn1crypto/util.py
+++ b/asn1crypto/util.py
@@ -847,6 +847,11 @@ class extended_datetime(object):
             A new extended_datetime or datetime.datetime object.
         """
 
+        if isinstance(other, timedelta) and other.days > 366:
+            # The result is after the year 0. It is not calculated by way of
+            # the year 2000, which could exceed the range of datetime.datetime.
+            return self._y2k + (other - timedelta(days=self.DAYS_IN_2000_YEARS))
+
         return extended_datetime.from_y2k(self._y2k + other)
 
     __radd__ = __add__
@@ -864,7 +869,7 @@ class extended_datetime(object):
         """
 
         if isinstance(other, timedelta):
-            return extended_datetime.from_y2k(self._y2k - other)
+            return self + -other
 
         if isinstance(other, extended_datetime):
             return self._y2k - other._y2k
-- 
2.43.0


From a2f7a31b891d21f7bba3eb4b192e1c00cf2f5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 052/130] fix: a change of the value that is contained in a
 ParsableOctetString or ParsableOctetBitString is part of its encoding

---
 asn1crypto/core.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 162f343..30ec625 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2963,6 +2963,9 @@ class ParsableOctetString(Constructable, Castable, Primitive):
     # Instance attribute of (possibly-merged) byte string
     _bytes = None
 
+    # The revisions of the parsed value that the byte string is the encoding of
+    _parsed_revisions = []
+
     def __init__(self, value=None, parsed=None, **kwargs):
         """
         Allows providing a parsed object that will be serialized to get the
@@ -2986,6 +2989,31 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         if set_parsed:
             self._parsed = (parsed, parsed.__class__, None)
+            self._parsed_revisions = self._current_revisions()
+
+    def _current_revisions(self):
+        """
+        :return:
+            A list of the revisions of the parsed value
+        """
+
+        container = _nested_container(self)
+        return [] if container is None else _revisions(container)
+
+    def _update_bytes(self):
+        """
+        Encodes the parsed value again, if it has been mutated
+        """
+
+        if self._parsed is None:
+            return
+
+        revisions = self._current_revisions()
+        if revisions != self._parsed_revisions:
+            parsed = self._parsed
+            self.set(parsed[0].dump())
+            self._parsed = parsed
+            self._parsed_revisions = revisions
 
     def set(self, value):
         """
@@ -3035,6 +3063,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             parsed_value, _ = _parse_build(self.__bytes__(), spec=spec, spec_params=spec_params)
             self._parsed = (parsed_value, spec, spec_params)
+            self._parsed_revisions = self._current_revisions()
         return self._parsed[0]
 
     def __bytes__(self):
@@ -3045,6 +3074,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         if self.contents is None:
             return b''
+        self._update_bytes()
         if self._bytes is None:
             self._bytes = self._merge_chunks()
         return self._bytes
@@ -3071,9 +3101,11 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             lists, dicts and objects
         """
 
+        other._update_bytes()
         super(ParsableOctetString, self)._copy(other, copy_func)
         self._bytes = other._bytes
         self._parsed = copy_func(other._parsed)
+        self._parsed_revisions = self._current_revisions()
 
     @property
     def native(self):
@@ -3130,6 +3162,9 @@ class ParsableOctetString(Constructable, Castable, Primitive):
                 native = self.native
             self.set(native)
             self._parsed = parsed
+            self._parsed_revisions = self._current_revisions()
+        else:
+            self._update_bytes()
 
         return Asn1Value.dump(self)
 
@@ -5731,7 +5766,7 @@ def _nested_container(value):
         None or a Sequence or SequenceOf object
     """
 
-    while isinstance(value, (Choice, Any)):
+    while isinstance(value, (Choice, Any, ParsableOctetString)):
         value = value._parsed
         if isinstance(value, tuple):
             value = value[0]
-- 
2.43.0


From 8c87e693a500c51ed3a33d89e34842e985ff9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:27 +0000
Subject: [PATCH 053/130] fix: a change of the value in an Any,
 ParsableOctetString or ParsableOctetBitString is not lost when the value is
 parsed with another spec

---
 asn1crypto/core.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 30ec625..43aed1e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -926,6 +926,9 @@ class Any(Asn1Value):
     # The parsed value object
     _parsed = None
 
+    # Identifies the mutations of values that were parsed with another spec
+    _revision = None
+
     def __init__(self, value=None, **kwargs):
         """
         Sets the value of the object before passing to Asn1Value.__init__()
@@ -1058,6 +1061,8 @@ class Any(Asn1Value):
                     spec=spec,
                     spec_params=passed_params
                 )
+                if self._parsed is not None and _revisions(self._parsed[0]):
+                    self._revision = object()
                 self._parsed = (parsed_value, spec, spec_params)
 
                 # Once we've parsed the Any value, clear any attributes from this object
@@ -2966,6 +2971,9 @@ class ParsableOctetString(Constructable, Castable, Primitive):
     # The revisions of the parsed value that the byte string is the encoding of
     _parsed_revisions = []
 
+    # Identifies the mutations of values that were parsed with another spec
+    _revision = None
+
     def __init__(self, value=None, parsed=None, **kwargs):
         """
         Allows providing a parsed object that will be serialized to get the
@@ -2997,8 +3005,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             A list of the revisions of the parsed value
         """
 
-        container = _nested_container(self)
-        return [] if container is None else _revisions(container)
+        return [] if self._parsed is None else _revisions(self._parsed[0])
 
     def _update_bytes(self):
         """
@@ -3062,6 +3069,8 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             parsed_value, _ = _parse_build(self.__bytes__(), spec=spec, spec_params=spec_params)
+            if self._current_revisions():
+                self._revision = object()
             self._parsed = (parsed_value, spec, spec_params)
             self._parsed_revisions = self._current_revisions()
         return self._parsed[0]
@@ -5781,18 +5790,23 @@ def _revisions(value):
     that have been mutated
 
     :param value:
-        A Sequence or SequenceOf object
+        An Asn1Value object, or a tuple of a value that has not been parsed yet
 
     :return:
         A list of objects
     """
 
     output = []
-    if value._revision is not None:
-        output.append(value._revision)
-    for child in value.children or ():
-        child = _nested_container(child)
-        if child is not None:
+    while isinstance(value, (Choice, Any, ParsableOctetString)):
+        if not isinstance(value, Choice) and value._revision is not None:
+            output.append(value._revision)
+        value = value._parsed
+        if isinstance(value, tuple):
+            value = value[0]
+    if isinstance(value, (Sequence, SequenceOf)):
+        if value._revision is not None:
+            output.append(value._revision)
+        for child in value.children or ():
             output.extend(_revisions(child))
     return output
 
-- 
2.43.0


From 7a464780890adfd760f90172d26db041909901c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 054/130] fix: setting an IPAddress to text that is not an
 address raises a ValueError and changes nothing

---
 asn1crypto/x509.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index d292ed4..51b0ab9 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -367,8 +367,19 @@ class IPAddress(OctetString):
             cidr_bytes = int_to_bytes(int(cidr_mask, 2))
             cidr_bytes = (b'\x00' * ((cidr_size // 8) - len(cidr_bytes))) + cidr_bytes
 
+        try:
+            address_bytes = inet_pton(family, value)
+        except (socket.error):
+            raise ValueError(unwrap(
+                '''
+                %s value must be an IP address, not %s
+                ''',
+                type_name(self),
+                repr(value)
+            ))
+
         self._native = original_value
-        self.contents = inet_pton(family, value) + cidr_bytes
+        self.contents = address_bytes + cidr_bytes
         self._bytes = self.contents
         self._header = None
         if self._trailer != b'':
-- 
2.43.0


From 981abe6f38a1252a9e07621f56271f6338489362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 055/130] fix: dump() of a SEQUENCE or SET without a value
 raises a ValueError for the missing field and changes nothing

---
 asn1crypto/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 43aed1e..9e066db 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4547,8 +4547,8 @@ class Sequence(Asn1Value):
         if force and self._fields == [] and self.__class__ in (Sequence, Set):
             force = False
 
-        if force:
-            self._set_contents(force=force)
+        if self.children is None and self._contents is None:
+            self._parse_children()
 
         if self._fields and self.children is not None:
             for index, (field_name, _, params) in enumerate(self._fields):
@@ -4563,6 +4563,9 @@ class Sequence(Asn1Value):
                     field_name
                 ))
 
+        if force:
+            self._set_contents(force=force)
+
         return Asn1Value.dump(self)
 
 
-- 
2.43.0


From 6bd2648808d6fc7e4012be45e6d4aa1d4890d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 056/130] fix: the extensions and the response data of an
 OCSPResponse without a basic response are absent

---
 asn1crypto/ocsp.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 91c7fbf..2ca068d 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -28,6 +28,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .crl import AuthorityInfoAccessSyntax, CRLReason
 from .keys import PublicKeyAlgorithm
@@ -628,13 +629,15 @@ class OCSPResponse(Sequence):
 
         self._critical_extensions = set()
 
-        for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
-            name = extension['extn_id'].native
-            attribute_name = '_%s_value' % name
-            if hasattr(self, attribute_name):
-                setattr(self, attribute_name, extension['extn_value'].parsed)
-            if extension['critical'].native:
-                self._critical_extensions.add(name)
+        response_data = self.response_data
+        if response_data is not None:
+            for extension in response_data['response_extensions']:
+                name = extension['extn_id'].native
+                attribute_name = '_%s_value' % name
+                if hasattr(self, attribute_name):
+                    setattr(self, attribute_name, extension['extn_value'].parsed)
+                if extension['critical'].native:
+                    self._critical_extensions.add(name)
 
         self._processed_extensions = True
 
@@ -689,7 +692,11 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.BasicOCSPResponse object
         """
 
-        return self['response_bytes']['response'].parsed
+        response_bytes = self['response_bytes']
+        if response_bytes is VOID or response_bytes['response_type'].native != 'basic_ocsp_response':
+            return None
+
+        return response_bytes['response'].parsed
 
     @property
     def response_data(self):
@@ -700,4 +707,8 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        return self['response_bytes']['response'].parsed['tbs_response_data']
+        basic_ocsp_response = self.basic_ocsp_response
+        if basic_ocsp_response is None:
+            return None
+
+        return basic_ocsp_response['tbs_response_data']
-- 
2.43.0


From 2fac220a986c3552f94b5eb3fee7084753052dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 057/130] fix: the delta CRL distribution points of a CRL may
 have a distribution point without a name

---
 asn1crypto/crl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bf30196..bc014d2 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -24,6 +24,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .x509 import (
     AuthorityInfoAccessSyntax,
@@ -493,6 +494,8 @@ class CertificateList(Sequence):
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
                     distribution_point_name = distribution_point['distribution_point']
+                    if distribution_point_name is VOID:
+                        continue
                     # RFC 5280 indicates conforming CA should not use the relative form
                     if distribution_point_name.name == 'name_relative_to_crl_issuer':
                         continue
-- 
2.43.0


From 3bd9c807a3b7d7bb580dc16a68fdef285e3b106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 058/130] fix: a DistributionPoint without a name has no URL

---
 asn1crypto/x509.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 51b0ab9..0d8261b 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1606,6 +1606,8 @@ class DistributionPoint(Sequence):
         if self._url is False:
             self._url = None
             name = self['distribution_point']
+            if name is VOID:
+                return None
             if name.name != 'full_name':
                 raise ValueError(unwrap(
                     '''
-- 
2.43.0


From 5c06f48bb96bd45ab5fc3f34689e365305b0ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 059/130] fix: a distribution point with more than one URI is
 listed once

---
 asn1crypto/crl.py  | 1 +
 asn1crypto/x509.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bc014d2..a5da57d 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -503,6 +503,7 @@ class CertificateList(Sequence):
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
                             self._delta_crl_distribution_points.append(distribution_point)
+                            break
 
         return self._delta_crl_distribution_points
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0d8261b..bac4fbc 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2750,6 +2750,7 @@ class Certificate(Sequence):
             for general_name in distribution_point_name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     output.append(distribution_point)
+                    break
 
         return output
 
-- 
2.43.0


From 9c6ac7f4e372e61eb72daf52a46817cdfa49805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 060/130] fix: the authority issuer and serial number of a
 certificate come from the directory name among the names of the issuer

---
 asn1crypto/x509.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index bac4fbc..3c2697f 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2686,14 +2686,16 @@ class Certificate(Sequence):
 
         if self._authority_issuer_serial is False:
             akiv = self.authority_key_identifier_value
+            self._authority_issuer_serial = None
             if akiv and akiv['authority_cert_issuer'].native:
-                issuer = self.authority_key_identifier_value['authority_cert_issuer'][0].chosen
-                # We untag the element since it is tagged via being a choice from GeneralName
-                issuer = issuer.untag()
-                authority_serial = self.authority_key_identifier_value['authority_cert_serial_number'].native
-                self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
-            else:
-                self._authority_issuer_serial = None
+                for general_name in akiv['authority_cert_issuer']:
+                    if general_name.name != 'directory_name':
+                        continue
+                    # We untag the element since it is tagged via being a choice from GeneralName
+                    issuer = general_name.chosen.untag()
+                    authority_serial = akiv['authority_cert_serial_number'].native
+                    self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                    break
         return self._authority_issuer_serial
 
     @property
-- 
2.43.0


From fcbf7e95751d0ca99c52371d9bfda7f657656ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:04 +0000
Subject: [PATCH 061/130] fix: the URL of a distribution point that is relative
 to the issuer is refused every time it is read

---
 asn1crypto/x509.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 3c2697f..ed44973 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1604,9 +1604,9 @@ class DistributionPoint(Sequence):
         """
 
         if self._url is False:
-            self._url = None
             name = self['distribution_point']
             if name is VOID:
+                self._url = None
                 return None
             if name.name != 'full_name':
                 raise ValueError(unwrap(
@@ -1616,6 +1616,7 @@ class DistributionPoint(Sequence):
                     '''
                 ))
 
+            self._url = None
             for general_name in name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
-- 
2.43.0


From 0401f76e82c9c5b586c8b883bf72953af36d8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:15 +0000
Subject: [PATCH 062/130] fix: a name in a certificate that is not a domain
 name does not keep the other names from being matched

---
 asn1crypto/x509.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index ed44973..b84d260 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2966,7 +2966,11 @@ class Certificate(Sequence):
             domain_labels = encoded_domain_ip.split('.')
 
             for valid_domain in self.valid_domains:
-                encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                try:
+                    encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                except (UnicodeError):
+                    # Not a domain name, so no domain can match it
+                    continue
                 valid_domain_labels = encoded_valid_domain.split('.')
 
                 # The domain must be equal in label length to match
-- 
2.43.0


From 76a8150c5e38ef70570cf170ff5f27496e0403ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:15 +0000
Subject: [PATCH 063/130] fix: the label of a wildcard domain is compared
 literally, except for the wildcard

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b84d260..c636ca5 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3066,7 +3066,7 @@ class Certificate(Sequence):
         if wildcard_label == '*':
             return True
 
-        wildcard_regex = re.compile('^' + wildcard_label.replace('*', '.*') + '$')
+        wildcard_regex = re.compile('^' + '.*'.join(re.escape(part) for part in wildcard_label.split('*')) + '$')
         if wildcard_regex.match(first_domain_label):
             return True
 
-- 
2.43.0


From 8c7c48ec6cbb3eab81196ef2a9f782fd57bfac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:15 +0000
Subject: [PATCH 064/130] fix: an IP name in a certificate that is not one
 address does not keep the other names from being matched

---
 asn1crypto/x509.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index c636ca5..0d138b6 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2994,7 +2994,11 @@ class Certificate(Sequence):
         normalized_ip = inet_pton(family, encoded_domain_ip)
 
         for valid_ip in self.valid_ips:
-            valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
+            # Octets that are not an address, or an address with a mask
+            if valid_ip is None or valid_ip.find('/') != -1:
+                continue
+
+            valid_family = socket.AF_INET6 if valid_ip.find(':') != -1 else socket.AF_INET
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
             if normalized_valid_ip == normalized_ip:
-- 
2.43.0


From b02a59cb38d3ef7d8ac8bb4b43f7e1d4b86156a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:15 +0000
Subject: [PATCH 065/130] fix: text that is neither a domain name nor an IP
 address is not valid for a certificate

---
 asn1crypto/x509.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0d138b6..0f00103 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2991,7 +2991,11 @@ class Certificate(Sequence):
             return False
 
         family = socket.AF_INET if is_ipv4 else socket.AF_INET6
-        normalized_ip = inet_pton(family, encoded_domain_ip)
+        try:
+            normalized_ip = inet_pton(family, encoded_domain_ip)
+        except (ValueError, socket.error):
+            # Looks like an IP address, but is not
+            return False
 
         for valid_ip in self.valid_ips:
             # Octets that are not an address, or an address with a mask
-- 
2.43.0


From 9f0cbffc2c4651e0bfec3eaa1a14563ace3c2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:59 +0000
Subject: [PATCH 066/130] fix: a label of a domain name that is no IDNA 2003
 label does not prevent the name from being read

---
 asn1crypto/_iri.py | 27 ++++++++++++++++++++++++++-
 asn1crypto/x509.py | 16 ++++++++++++++--
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 7394b4d..370d7f8 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -4,6 +4,7 @@
 Functions to convert unicode IRIs into ASCII byte string URIs and back. Exports
 the following items:
 
+ - hostname_to_unicode()
  - iri_to_uri()
  - uri_to_iri()
 """
@@ -34,6 +35,30 @@ else:
     )
 
 
+def hostname_to_unicode(value):
+    """
+    Decodes an ASCII hostname, converting A-labels into U-labels
+
+    :param value:
+        An ASCII-encoded byte string of the hostname
+
+    :return:
+        A unicode string of the hostname
+    """
+
+    try:
+        return value.decode('idna')
+    except (UnicodeError):
+        # RFC 3490 section 4.2 - a label that can not be converted is left as is
+        output = []
+        for label in value.decode('ascii').split('.'):
+            try:
+                output.append(label.encode('ascii').decode('idna'))
+            except (UnicodeError):
+                output.append(label)
+        return '.'.join(output)
+
+
 def iri_to_uri(value, normalize=False):
     """
     Encodes a unicode IRI into an ASCII byte string URI
@@ -146,7 +171,7 @@ def uri_to_iri(value):
     password = _urlunquote(parsed.password, remap=[':', '@'])
     hostname = parsed.hostname
     if hostname:
-        hostname = hostname.decode('idna')
+        hostname = hostname_to_unicode(hostname)
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0f00103..25a2e07 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -25,7 +25,7 @@ import sys
 import unicodedata
 
 from ._errors import unwrap
-from ._iri import iri_to_uri, uri_to_iri
+from ._iri import hostname_to_unicode, iri_to_uri, uri_to_iri
 from ._ordereddict import OrderedDict
 from ._types import type_name, str_cls, byte_cls, bytes_to_list
 from .algos import AlgorithmIdentifier, AnyAlgorithmIdentifier, DigestAlgorithm, SignedDigestAlgorithm
@@ -73,6 +73,18 @@ class DNSName(IA5String):
     _encoding = 'idna'
     _bad_tag = (12, 19)
 
+    def __unicode__(self):
+        """
+        :return:
+            A unicode string
+        """
+
+        if self.contents is None:
+            return ''
+        if self._unicode is None:
+            self._unicode = hostname_to_unicode(self._merge_chunks())
+        return self._unicode
+
     def __ne__(self, other):
         return not self == other
 
@@ -251,7 +263,7 @@ class EmailAddress(IA5String):
                 self._unicode = contents.decode('cp1252')
             else:
                 mailbox, hostname = contents.rsplit(b'@', 1)
-                self._unicode = mailbox.decode('cp1252') + '@' + hostname.decode('idna')
+                self._unicode = mailbox.decode('cp1252') + '@' + hostname_to_unicode(hostname)
         return self._unicode
 
     def __ne__(self, other):
-- 
2.43.0


From 20dd79b2e32d2ad56aeb8ed8b43419953e91c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 067/130] fix: a URI with an empty authority, such as an LDAP
 URI without a host, keeps it

---
 asn1crypto/_iri.py | 50 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 370d7f8..ec877e4 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -20,7 +20,7 @@ from ._errors import unwrap
 from ._types import byte_cls, str_cls, type_name, bytes_to_list, int_types
 
 if sys.version_info < (3,):
-    from urlparse import urlsplit, urlunsplit
+    from urlparse import urlsplit
     from urllib import (
         quote as urlquote,
         unquote as unquote_to_bytes,
@@ -31,7 +31,6 @@ else:
         quote as urlquote,
         unquote_to_bytes,
         urlsplit,
-        urlunsplit,
     )
 
 
@@ -129,16 +128,19 @@ def iri_to_uri(value, normalize=False):
     # RFC 3986 allows the fragment to contain sub-delims, plus "@", ":" , "/" and "?"
     fragment = _urlquote(parsed.fragment, safe='/?!$&\'()*+,;=@:')
 
-    if normalize and query is None and fragment is None and path == b'/':
-        path = None
-
-    # Python 2.7 compat
-    if path is None:
-        path = ''
-
-    output = urlunsplit((scheme, netloc, path, query, fragment))
-    if isinstance(output, str_cls):
-        output = output.encode('latin1')
+    if path is None or (normalize and query is None and fragment is None and path == b'/'):
+        path = b''
+
+    output = b''
+    if scheme:
+        output += scheme + b':'
+    if netloc or _has_authority(value):
+        output += b'//' + netloc
+    output += path
+    if query:
+        output += b'?' + query
+    if fragment:
+        output += b'#' + fragment
     return output
 
 
@@ -191,7 +193,29 @@ def uri_to_iri(value):
     query = _urlunquote(parsed.query, remap=['&', '='], preserve=True)
     fragment = _urlunquote(parsed.fragment)
 
-    return urlunsplit((scheme, netloc, path, query, fragment))
+    output = ''
+    if scheme:
+        output += scheme + ':'
+    if netloc or _has_authority(value.decode('ascii')):
+        output += '//' + netloc
+    output += path
+    if query:
+        output += '?' + query
+    if fragment:
+        output += '#' + fragment
+    return output
+
+
+def _has_authority(value):
+    """
+    :param value:
+        A unicode string of a URI or an IRI
+
+    :return:
+        A bool - if there is an authority component, which may be empty
+    """
+
+    return re.match('(?:[^:/?#]*:)?//', value) is not None
 
 
 def _iri_utf8_errors_handler(exc):
-- 
2.43.0


From 25cee7567998c2c2027af0e4e97dfdc18f7a4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 068/130] fix: the host of a URI that is an IPv6 address keeps
 its brackets

---
 asn1crypto/_iri.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index ec877e4..3d4f166 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -99,7 +99,10 @@ def iri_to_uri(value, normalize=False):
         scheme = _urlquote(parsed.scheme)
     hostname = parsed.hostname
     if hostname is not None:
-        hostname = hostname.encode('idna')
+        if hostname.find(':') != -1:
+            hostname = b'[' + hostname.encode('ascii') + b']'
+        else:
+            hostname = hostname.encode('idna')
     # RFC 3986 allows userinfo to contain sub-delims
     username = _urlquote(parsed.username, safe='!$&\'()*+,;=')
     password = _urlquote(parsed.password, safe='!$&\'()*+,;=')
@@ -173,7 +176,10 @@ def uri_to_iri(value):
     password = _urlunquote(parsed.password, remap=[':', '@'])
     hostname = parsed.hostname
     if hostname:
-        hostname = hostname_to_unicode(hostname)
+        if hostname.find(b':') != -1:
+            hostname = '[' + hostname.decode('ascii') + ']'
+        else:
+            hostname = hostname_to_unicode(hostname)
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
-- 
2.43.0


From 4b8c5835aa4a6a87ce68ee8eb5789867e22598e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 069/130] fix: an empty user name or password in a URI is kept

---
 asn1crypto/_iri.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 3d4f166..069d233 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -111,10 +111,10 @@ def iri_to_uri(value, normalize=False):
         port = str_cls(port).encode('ascii')
 
     netloc = b''
-    if username is not None:
-        netloc += username
-        if password:
-            netloc += b':' + password
+    if parsed.username is not None:
+        netloc += username or b''
+        if parsed.password is not None:
+            netloc += b':' + (password or b'')
         netloc += b'@'
     if hostname is not None:
         netloc += hostname
@@ -187,7 +187,7 @@ def uri_to_iri(value):
     netloc = ''
     if username is not None:
         netloc += username
-        if password:
+        if password is not None:
             netloc += ':' + password
         netloc += '@'
     if hostname is not None:
-- 
2.43.0


From bef3a98128a145da7ecd6f1afd1bd836ed152d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 070/130] fix: percent-encoded octets of an IRI are never
 joined to other percent-encoded octets or decoded twice

---
 asn1crypto/_iri.py | 58 +++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 069d233..e63d172 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -262,37 +262,33 @@ def _urlquote(string, safe=''):
     if string is None or string == '':
         return None
 
-    # Anything already hex quoted is pulled out of the URL and unquoted if
-    # possible
-    escapes = []
-    if re.search('%[0-9a-fA-F]{2}', string):
-        # Try to unquote any percent values, restoring them if they are not
-        # valid UTF-8. Also, requote any safe chars since encoded versions of
-        # those are functionally different than the unquoted ones.
-        def _try_unescape(match):
-            byte_string = unquote_to_bytes(match.group(0))
-            unicode_string = byte_string.decode('utf-8', 'iriutf8')
-            for safe_char in list(safe):
-                unicode_string = unicode_string.replace(safe_char, '%%%02x' % ord(safe_char))
-            return unicode_string
-        string = re.sub('(?:%[0-9a-fA-F]{2})+', _try_unescape, string)
-
-        # Once we have the minimal set of hex quoted values, removed them from
-        # the string so that they are not double quoted
-        def _extract_escape(match):
-            escapes.append(match.group(0).encode('ascii'))
-            return '\x00'
-        string = re.sub('%[0-9a-fA-F]{2}', _extract_escape, string)
-
-    output = urlquote(string.encode('utf-8'), safe=safe.encode('utf-8'))
-    if not isinstance(output, byte_cls):
-        output = output.encode('ascii')
-
-    # Restore the existing quoted values that we extracted
-    if len(escapes) > 0:
-        def _return_escape(_):
-            return escapes.pop(0)
-        output = re.sub(b'%00', _return_escape, output)
+    def _quote(unicode_string):
+        output = urlquote(unicode_string.encode('utf-8'), safe=safe.encode('utf-8'))
+        if not isinstance(output, byte_cls):
+            output = output.encode('ascii')
+        return output
+
+    # Anything already hex quoted is unquoted if possible. The parts with an odd
+    # index are the ones that were matched by the group.
+    output = b''
+    for index, part in enumerate(re.split('((?:%[0-9a-fA-F]{2})+)', string)):
+        if index % 2 == 0:
+            output += _quote(part)
+            continue
+
+        # Values that are not valid UTF-8 stay quoted. So do percent signs and
+        # any safe chars, since encoded versions of those are functionally
+        # different than the unquoted ones.
+        byte_string = unquote_to_bytes(part)
+        for char in '%' + safe:
+            byte_string = byte_string.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
+        unquoted = byte_string.decode('utf-8', 'iriutf8')
+
+        for sub_index, sub_part in enumerate(re.split('(%[0-9a-f]{2})', unquoted)):
+            if sub_index % 2 == 0:
+                output += _quote(sub_part)
+            else:
+                output += sub_part.encode('ascii')
 
     return output
 
-- 
2.43.0


From 661e0ba57351526359976ca70179e6e1e71f5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 071/130] fix: percent-encoded octets that have a meaning in a
 URI when they are not encoded stay encoded in the IRI

---
 asn1crypto/_iri.py | 50 +++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index e63d172..f301b52 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -172,8 +172,8 @@ def uri_to_iri(value):
     if scheme is not None:
         scheme = scheme.decode('ascii')
 
-    username = _urlunquote(parsed.username, remap=[':', '@'])
-    password = _urlunquote(parsed.password, remap=[':', '@'])
+    username = _urlunquote(parsed.username)
+    password = _urlunquote(parsed.password)
     hostname = parsed.hostname
     if hostname:
         if hostname.find(b':') != -1:
@@ -195,8 +195,8 @@ def uri_to_iri(value):
     if port is not None:
         netloc += ':' + str_cls(port)
 
-    path = _urlunquote(parsed.path, remap=['/'], preserve=True)
-    query = _urlunquote(parsed.query, remap=['&', '='], preserve=True)
+    path = _urlunquote(parsed.path)
+    query = _urlunquote(parsed.query)
     fragment = _urlunquote(parsed.fragment)
 
     output = ''
@@ -293,22 +293,18 @@ def _urlquote(string, safe=''):
     return output
 
 
-def _urlunquote(byte_string, remap=None, preserve=None):
+# Characters that stay quoted in an IRI, since they are not equivalent to the
+# unquoted ones: the reserved ones of RFC 3986, the percent sign and controls
+_KEEP_QUOTED = '%:/?#[]@!$&\'()*+,;=\x7f' + ''.join(chr(num) for num in range(0, 32))
+
+
+def _urlunquote(byte_string):
     """
     Unquotes a URI portion from a byte string into unicode using UTF-8
 
     :param byte_string:
         A byte string of the data to unquote
 
-    :param remap:
-        A list of characters (as unicode) that should be re-mapped to a
-        %XX encoding. This is used when characters are not valid in part of a
-        URL.
-
-    :param preserve:
-        A bool - indicates that the chars to be remapped if they occur in
-        non-hex form, should be preserved. E.g. / for URL path.
-
     :return:
         A unicode string
     """
@@ -319,24 +315,10 @@ def _urlunquote(byte_string, remap=None, preserve=None):
     if byte_string == b'':
         return ''
 
-    if preserve:
-        replacements = ['\x1A', '\x1C', '\x1D', '\x1E', '\x1F']
-        preserve_unmap = {}
-        for char in remap:
-            replacement = replacements.pop(0)
-            preserve_unmap[replacement] = char
-            byte_string = byte_string.replace(char.encode('ascii'), replacement.encode('ascii'))
-
-    byte_string = unquote_to_bytes(byte_string)
+    def _unquote(match):
+        unquoted = unquote_to_bytes(match.group(0))
+        for char in _KEEP_QUOTED:
+            unquoted = unquoted.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
+        return unquoted
 
-    if remap:
-        for char in remap:
-            byte_string = byte_string.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
-
-    output = byte_string.decode('utf-8', 'iriutf8')
-
-    if preserve:
-        for replacement, original in preserve_unmap.items():
-            output = output.replace(replacement, original)
-
-    return output
+    return re.sub(b'(?:%[0-9a-fA-F]{2})+', _unquote, byte_string).decode('utf-8', 'iriutf8')
-- 
2.43.0


From 881a53989cac268f508b92a4a9d3d1a09ea67c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 072/130] fix: domain names are compared by their encoding

---
 asn1crypto/x509.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 25a2e07..5a63e56 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -102,7 +102,18 @@ class DNSName(IA5String):
         if not isinstance(other, DNSName):
             return False
 
-        return self.__unicode__().lower() == other.__unicode__().lower()
+        # The encoded form only contains A-labels
+        return self._ascii().lower() == other._ascii().lower()
+
+    def _ascii(self):
+        """
+        :return:
+            A byte string of the encoded name
+        """
+
+        if self.contents is None:
+            return b''
+        return self._merge_chunks()
 
     def set(self, value):
         """
-- 
2.43.0


From 1cd62f492e1a6fbe78c282a992c830389b4cfafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 073/130] fix: comparing email addresses does not change them

---
 asn1crypto/x509.py | 42 +++++++++---------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 5a63e56..7353921 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -203,33 +203,9 @@ class URI(IA5String):
 
 class EmailAddress(IA5String):
 
-    _contents = None
-
-    # If the value has gone through the .set() method, thus normalizing it
-    _normalized = False
-
     # In the wild we've seen this encoded as a UTF8String and PrintableString
     _bad_tag = (12, 19)
 
-    @property
-    def contents(self):
-        """
-        :return:
-            A byte string of the DER-encoded contents of the sequence
-        """
-
-        return self._contents
-
-    @contents.setter
-    def contents(self, value):
-        """
-        :param value:
-            A byte string of the DER-encoded contents of the sequence
-        """
-
-        self._normalized = False
-        self._contents = value
-
     def set(self, value):
         """
         Sets the value of the string
@@ -253,7 +229,6 @@ class EmailAddress(IA5String):
         else:
             encoded_value = value.encode('ascii')
 
-        self._normalized = True
         self._unicode = value
         self.contents = encoded_value
         self._header = None
@@ -294,16 +269,17 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        if not self._normalized:
-            self.set(self.native)
-        if not other._normalized:
-            other.set(other.native)
+        if self.contents is None or other.contents is None:
+            return self.contents is other.contents
+
+        contents = self._merge_chunks()
+        other_contents = other._merge_chunks()
 
-        if self._contents.find(b'@') == -1 or other._contents.find(b'@') == -1:
-            return self._contents == other._contents
+        if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
+            return contents == other_contents
 
-        other_mailbox, other_hostname = other._contents.rsplit(b'@', 1)
-        mailbox, hostname = self._contents.rsplit(b'@', 1)
+        other_mailbox, other_hostname = other_contents.rsplit(b'@', 1)
+        mailbox, hostname = contents.rsplit(b'@', 1)
 
         if mailbox != other_mailbox:
             return False
-- 
2.43.0


From dbe5141474ba00a1a7db88cb47101c62d08439c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:40 +0000
Subject: [PATCH 074/130] fix: setting a chunked domain name, email address,
 URI or IP address makes it primitive

---
 asn1crypto/x509.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 7353921..3c3971a 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -140,6 +140,9 @@ class DNSName(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -166,6 +169,9 @@ class URI(IA5String):
         self._unicode = value
         self.contents = iri_to_uri(value)
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -232,6 +238,9 @@ class EmailAddress(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -381,6 +390,9 @@ class IPAddress(OctetString):
         self.contents = address_bytes + cidr_bytes
         self._bytes = self.contents
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
-- 
2.43.0


From 49d63a2f47a7914310d21e4ad4bf0098cd2641ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:40 +0000
Subject: [PATCH 075/130] fix: an IP address with a mask that is no CIDR range
 is not shown as some other range

---
 asn1crypto/x509.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 3c3971a..3cf0ae4 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -422,9 +422,13 @@ class IPAddress(OctetString):
                 if byte_len > 4:
                     cidr_int = int_from_bytes(byte_string[4:])
             if cidr_int is not None:
-                cidr_bits = '{0:b}'.format(cidr_int)
+                cidr_bits = '{0:b}'.format(cidr_int).zfill(byte_len * 4)
                 cidr = len(cidr_bits.rstrip('0'))
-                value = value + '/' + str_cls(cidr)
+                if '0' in cidr_bits[0:cidr]:
+                    # There is no CIDR notation for a mask with holes
+                    value = None
+                else:
+                    value = value + '/' + str_cls(cidr)
             self._native = value
         return self._native
 
-- 
2.43.0


From 3e8eac5d55b5402cdb2af7f880df9f0bd6d3da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:36 +0000
Subject: [PATCH 076/130] fix: re-encoding or copying a domain name, email
 address, URI or IP address keeps its octets

---
 asn1crypto/x509.py | 58 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 3cf0ae4..bb5fcd4 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -36,6 +36,7 @@ from .core import (
     Boolean,
     Choice,
     Concat,
+    Constructable,
     Enumerated,
     GeneralizedTime,
     GeneralString,
@@ -68,7 +69,29 @@ from .util import int_to_bytes, int_from_bytes, inet_ntop, inet_pton
 # extension and name OIDs
 
 
-class DNSName(IA5String):
+class _InternetName(IA5String):
+    """
+    A string with contents that are an encoded form of its text
+    """
+
+    def _reencode(self, other):
+        """
+        Sets the value to the DER encoding of the value of another object
+
+        :param other:
+            self, or another instance of the same class
+        """
+
+        # The text is not used, since it may encode to other octets or not at all
+        self.contents = other._merge_chunks()
+        self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
+        self._trailer = b''
+
+
+class DNSName(_InternetName):
 
     _encoding = 'idna'
     _bad_tag = (12, 19)
@@ -147,7 +170,7 @@ class DNSName(IA5String):
             self._trailer = b''
 
 
-class URI(IA5String):
+class URI(_InternetName):
 
     def set(self, value):
         """
@@ -207,7 +230,7 @@ class URI(IA5String):
         return self._unicode
 
 
-class EmailAddress(IA5String):
+class EmailAddress(_InternetName):
 
     # In the wild we've seen this encoded as a UTF8String and PrintableString
     _bad_tag = (12, 19)
@@ -396,6 +419,35 @@ class IPAddress(OctetString):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _reencode(self, other):
+        """
+        Sets the value to the DER encoding of the value of another object
+
+        :param other:
+            self, or another instance of the same class
+        """
+
+        # The text is not used, since there may be none
+        super(IPAddress, self).set(None if other.contents is None else other.__bytes__())
+
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IPAddress object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        if other._indefinite:
+            super(Constructable, self)._copy(other, copy_func)
+            self._reencode(other)
+        else:
+            super(IPAddress, self)._copy(other, copy_func)
+
     @property
     def native(self):
         """
-- 
2.43.0


From 4f3b7434150597d2790228e4232b638632294aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:38 +0000
Subject: [PATCH 077/130] fix: the scheme of a URI may contain a plus sign

---
 asn1crypto/_iri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index f301b52..25d77e6 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -96,7 +96,8 @@ def iri_to_uri(value, normalize=False):
         parsed = urlsplit(value)
 
     if scheme is None:
-        scheme = _urlquote(parsed.scheme)
+        # RFC 3986 allows a scheme to contain "+"
+        scheme = _urlquote(parsed.scheme, safe='+')
     hostname = parsed.hostname
     if hostname is not None:
         if hostname.find(':') != -1:
-- 
2.43.0


From 90aab0e2295b0d3430284bde29c5585b4d3e7350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 078/130] fix: variation selectors are ignored, and other code
 points are not, when names are compared

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index bb5fcd4..b3e63bf 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -854,7 +854,7 @@ class NameTypeAndValue(Sequence):
         """
 
         # Map step
-        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe0f-\uff00\ufffc]+', '', string)
+        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe00-\ufe0f\ufffc]+', '', string)
         string = re.sub('[\u0009\u000a\u000b\u000c\u000d\u0085]', ' ', string)
         if sys.maxunicode == 0xffff:
             # Some installs of Python 2.7 don't support 8-digit unicode escape
-- 
2.43.0


From b819bfb3285f6a4745adc45f11d7280ae7fb1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 079/130] fix: names with a unique identifier of any octets can
 be compared

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b3e63bf..6a04b37 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -815,7 +815,7 @@ class NameTypeAndValue(Sequence):
                 self._prepped = self._ldap_string_prep(native)
             else:
                 if isinstance(native, byte_cls):
-                    native = ' ' + native.decode('cp1252') + ' '
+                    native = ' ' + native.decode('latin1') + ' '
                 self._prepped = native
         return self._prepped
 
-- 
2.43.0


From afc62bb6e3b5134f99ee18988a6f4559b9a52b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 080/130] fix: a name is compared by its current value after it
 was changed

---
 asn1crypto/x509.py | 48 +++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 6a04b37..715fefa 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -809,15 +809,16 @@ class NameTypeAndValue(Sequence):
             A unicode string
         """
 
-        if self._prepped is None:
-            native = self['value'].native
-            if isinstance(native, str_cls):
-                self._prepped = self._ldap_string_prep(native)
-            else:
-                if isinstance(native, byte_cls):
-                    native = ' ' + native.decode('latin1') + ' '
-                self._prepped = native
-        return self._prepped
+        native = self['value'].native
+        if not isinstance(native, str_cls):
+            if isinstance(native, byte_cls):
+                return ' ' + native.decode('latin1') + ' '
+            return native
+
+        # The prepped value is only kept for as long as the value is the same
+        if self._prepped is None or self._prepped[0] != native:
+            self._prepped = (native, self._ldap_string_prep(native))
+        return self._prepped[1]
 
     def __ne__(self, other):
         return not self == other
@@ -1191,19 +1192,22 @@ class Name(Choice):
 
     @property
     def native(self):
-        if self._native is None:
-            self._native = OrderedDict()
-            for rdn in self.chosen.native:
-                for type_val in rdn:
-                    field_name = type_val['type']
-                    if field_name in self._native:
-                        existing = self._native[field_name]
-                        if not isinstance(existing, list):
-                            existing = self._native[field_name] = [existing]
-                        existing.append(type_val['value'])
-                    else:
-                        self._native[field_name] = type_val['value']
-        return self._native
+        # This is not kept, since the relative names may be changed
+        if self.contents is None:
+            return None
+
+        output = OrderedDict()
+        for rdn in self.chosen.native:
+            for type_val in rdn:
+                field_name = type_val['type']
+                if field_name in output:
+                    existing = output[field_name]
+                    if not isinstance(existing, list):
+                        existing = output[field_name] = [existing]
+                    existing.append(type_val['value'])
+                else:
+                    output[field_name] = type_val['value']
+        return output
 
     @property
     def human_friendly(self):
-- 
2.43.0


From f313fbfc208ea4e5c7c91c3fa8c7f8e848727630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 081/130] fix: relative names with more than one value of a
 type are compared by all of them

---
 asn1crypto/x509.py | 50 +++++-----------------------------------------
 1 file changed, 5 insertions(+), 45 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 715fefa..a195c31 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -961,10 +961,7 @@ class RelativeDistinguishedName(SetOf):
             A unicode string that can be used as a dict key or in a set
         """
 
-        output = []
-        values = self._get_values(self)
-        for key in sorted(values.keys()):
-            output.append('%s: %s' % (key, values[key]))
+        output = sorted('%s: %s' % (ntv['type'].native, ntv.prepped_value) for ntv in self)
         # Unit separator is used here since the normalization process for
         # values moves any such character, and the keys are all dotted integers
         # or under_score_words
@@ -990,51 +987,14 @@ class RelativeDistinguishedName(SetOf):
         if len(self) != len(other):
             return False
 
-        self_types = self._get_types(self)
-        other_types = self._get_types(other)
-
-        if self_types != other_types:
-            return False
-
-        self_values = self._get_values(self)
-        other_values = self._get_values(other)
-
-        for type_name_ in self_types:
-            if self_values[type_name_] != other_values[type_name_]:
+        remaining = list(other)
+        for ntv in self:
+            if ntv not in remaining:
                 return False
+            remaining.remove(ntv)
 
         return True
 
-    def _get_types(self, rdn):
-        """
-        Returns a set of types contained in an RDN
-
-        :param rdn:
-            A RelativeDistinguishedName object
-
-        :return:
-            A set object with unicode strings of NameTypeAndValue type field
-            values
-        """
-
-        return set([ntv['type'].native for ntv in rdn])
-
-    def _get_values(self, rdn):
-        """
-        Returns a dict of prepped values contained in an RDN
-
-        :param rdn:
-            A RelativeDistinguishedName object
-
-        :return:
-            A dict object with unicode strings of NameTypeAndValue value field
-            values that have been prepped for comparison
-        """
-
-        output = {}
-        [output.update([(ntv['type'].native, ntv.prepped_value)]) for ntv in rdn]
-        return output
-
 
 class RDNSequence(SequenceOf):
     _child_spec = RelativeDistinguishedName
-- 
2.43.0


From 1559689a7d4bc643c6bc18d17507b44141c2bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 082/130] fix: values of names that are not text are only equal
 if they have the same type

---
 asn1crypto/x509.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index a195c31..2f74136 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -840,7 +840,14 @@ class NameTypeAndValue(Sequence):
         if other['type'].native != self['type'].native:
             return False
 
-        return other.prepped_value == self.prepped_value
+        if other.prepped_value != self.prepped_value:
+            return False
+
+        # The string type does not matter for text, for other values the type does
+        values = (self['value'], other['value'])
+        if all(isinstance(value.native, str_cls) for value in values):
+            return True
+        return len(set(value.copy().dump(force=True) for value in values)) == 1
 
     def _ldap_string_prep(self, string):
         """
-- 
2.43.0


From ce253f346fd46416e850cbf95e703ff49f0b0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 083/130] fix: the human friendly form of a name with more than
 one value that is not text

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 2f74136..1c5d2c3 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1230,7 +1230,7 @@ class Name(Choice):
             return ', '.join(
                 reversed([self._recursive_humanize(sub_value) for sub_value in value])
             )
-        return value.native
+        return '%s' % (value.native,)
 
     @property
     def sha1(self):
-- 
2.43.0


From 9feb973e501958d60a79c9d65bd285cde35fa474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:41 +0000
Subject: [PATCH 084/130] fix: a value in the indefinite form is equal to the
 same value before and after it is encoded

---
 asn1crypto/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9e066db..2788943 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1874,7 +1874,11 @@ class Primitive(Asn1Value):
         if not isinstance(other, Primitive):
             return False
 
-        if self.contents != other.contents:
+        # Encoding a value that has the indefinite form changes its contents
+        self_contents, other_contents = (
+            (value.copy() if getattr(value, '_indefinite', False) else value).contents for value in (self, other)
+        )
+        if self_contents != other_contents:
             return False
 
         # We compare class tag numbers since object tag numbers could be
@@ -1882,7 +1886,7 @@ class Primitive(Asn1Value):
         if self.__class__.tag != other.__class__.tag:
             return False
 
-        if self.__class__ == other.__class__ and self.contents == other.contents:
+        if self.__class__ == other.__class__:
             return True
 
         # If the objects share a common base class that is not too low-level
@@ -1890,7 +1894,7 @@ class Primitive(Asn1Value):
         self_bases = (set(self.__class__.__bases__) | set([self.__class__])) - set([Asn1Value, Primitive, ValueMap])
         other_bases = (set(other.__class__.__bases__) | set([other.__class__])) - set([Asn1Value, Primitive, ValueMap])
         if self_bases | other_bases:
-            return self.contents == other.contents
+            return True
 
         # When tagging is going on, do the extra work of constructing new
         # objects to see if the dumped representation are the same
-- 
2.43.0


From a4b2558171fdbee4265b18f3d00bdcab4598abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:41 +0000
Subject: [PATCH 085/130] fix: debug() of an octet or bit string does not
 change its native value

---
 asn1crypto/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 2788943..abe7a8f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -633,10 +633,14 @@ class Asn1Value(object):
 
         # This interacts with Any and moves the tag, implicit, explicit, _header,
         # contents, _footer to the parsed value so duplicate data isn't present
+        was_parsed = getattr(self, '_parsed', None)
         try:
             parsed = getattr(self, 'parsed', None)
         except (ValueError, TypeError):
             parsed = None
+        if was_parsed is None and isinstance(self, (ParsableOctetString, ParsableOctetBitString)):
+            # The native value of an octet or bit string depends on its having been parsed
+            self._parsed = None
 
         _basic_debug(prefix, self)
         if parsed is not None:
-- 
2.43.0


From 010e411514c911f12d58ebaeb7e627f70df29d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:41 +0000
Subject: [PATCH 086/130] fix: a slice of a decoded SEQUENCE OF or SET OF
 contains values, not the undecoded parts

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index abe7a8f..1b5ca2e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4694,6 +4694,9 @@ class SequenceOf(Asn1Value):
         Builds a child object if the child has only been parsed into a tuple so far
         """
 
+        if isinstance(index, slice):
+            return [self._lazy_child(i) for i in range(*index.indices(len(self.children)))]
+
         child = self.children[index]
         if child.__class__ == tuple:
             child = _build(*child)
-- 
2.43.0


From 77f19427bacb6db77a967c7129f2f4fccbf90049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:41 +0000
Subject: [PATCH 087/130] fix: a list of names or URLs that could not be read
 is not taken for an empty one the next time

---
 asn1crypto/crl.py  | 13 +++++++++----
 asn1crypto/x509.py | 18 ++++++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index a5da57d..302ef3f 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -467,7 +467,7 @@ class CertificateList(Sequence):
         """
 
         if self._issuer_cert_urls is None:
-            self._issuer_cert_urls = []
+            issuer_cert_urls = []
             if self.authority_information_access_value:
                 for entry in self.authority_information_access_value:
                     if entry['access_method'].native == 'ca_issuers':
@@ -476,7 +476,9 @@ class CertificateList(Sequence):
                             continue
                         url = location.native
                         if url.lower()[0:7] == 'http://':
-                            self._issuer_cert_urls.append(url)
+                            issuer_cert_urls.append(url)
+            # Only kept once it is complete
+            self._issuer_cert_urls = issuer_cert_urls
         return self._issuer_cert_urls
 
     @property
@@ -489,7 +491,7 @@ class CertificateList(Sequence):
         """
 
         if self._delta_crl_distribution_points is None:
-            self._delta_crl_distribution_points = []
+            delta_crl_distribution_points = []
 
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
@@ -502,9 +504,12 @@ class CertificateList(Sequence):
                     # This library is currently only concerned with HTTP-based CRLs
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
-                            self._delta_crl_distribution_points.append(distribution_point)
+                            delta_crl_distribution_points.append(distribution_point)
                             break
 
+            # Only kept once it is complete
+            self._delta_crl_distribution_points = delta_crl_distribution_points
+
         return self._delta_crl_distribution_points
 
     @property
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 1c5d2c3..623289f 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2826,15 +2826,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_domains is None:
-            self._valid_domains = []
+            valid_domains = []
 
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'dns_name' and general_name.native not in self._valid_domains:
-                        self._valid_domains.append(general_name.native)
+                    if general_name.name == 'dns_name' and general_name.native not in valid_domains:
+                        valid_domains.append(general_name.native)
 
             # If there was no subject alt name extension, and the common name
             # in the subject looks like a domain, that is considered the valid
@@ -2848,7 +2848,10 @@ class Certificate(Sequence):
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
                             if pattern.match(value):
-                                self._valid_domains.append(value)
+                                valid_domains.append(value)
+
+            # Only kept once it is complete
+            self._valid_domains = valid_domains
 
         return self._valid_domains
 
@@ -2860,12 +2863,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_ips is None:
-            self._valid_ips = []
+            valid_ips = []
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
                     if general_name.name == 'ip_address':
-                        self._valid_ips.append(general_name.native)
+                        valid_ips.append(general_name.native)
+
+            # Only kept once it is complete
+            self._valid_ips = valid_ips
 
         return self._valid_ips
 
-- 
2.43.0


From f27b099684111d8bb471ea94a9ab638159e9ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 088/130] fix: the key length of RC2 is given in bytes, and
 without a version is that of the default

---
 asn1crypto/algos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 55518cf..83b9498 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1048,12 +1048,12 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             if rc2_parameter_version in encoded_key_bits_map:
                 return encoded_key_bits_map[rc2_parameter_version]
 
-            if rc2_parameter_version >= 256:
-                return rc2_parameter_version
-
             if rc2_parameter_version is None:
                 return 4  # 32-bit default
 
+            if rc2_parameter_version >= 256:
+                return rc2_parameter_version // 8
+
             raise ValueError(unwrap(
                 '''
                 Invalid RC2 parameter version found in EncryptionAlgorithm
-- 
2.43.0


From 6dbfe1f16bcecea4dc31734bf17a1c2acbf9329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 089/130] fix: the salt of a PBES2 algorithm that uses scrypt

---
 asn1crypto/algos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 83b9498..80116b5 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -934,6 +934,9 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             salt = self['parameters']['key_derivation_func']['parameters']['salt']
 
+            if self.kdf == 'scrypt':
+                return salt.native
+
             if salt.name == 'other_source':
                 raise ValueError(unwrap(
                     '''
-- 
2.43.0


From fd302b6d4d3858155dce4f615213a75f30731c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 090/130] fix: the properties of encryption algorithms without
 a key derivation function or a cipher raise ValueError

---
 asn1crypto/algos.py | 99 +++++++++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 48 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 80116b5..c6a2746 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -900,7 +900,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['prf']['algorithm'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.split('_', 1)[0] in set(['pbes1', 'pkcs12']):
                 _, hmac_algo, _ = encryption_algo.split('_', 2)
                 return hmac_algo
 
@@ -949,7 +949,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return salt.native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.split('_', 1)[0] in set(['pbes1', 'pkcs12']):
                 return self['parameters']['salt'].native
 
             raise ValueError(unwrap(
@@ -985,7 +985,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['iteration_count'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.split('_', 1)[0] in set(['pbes1', 'pkcs12']):
                 return self['parameters']['iterations'].native
 
             raise ValueError(unwrap(
@@ -1076,21 +1076,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
 
             return self['parameters']['encryption_scheme'].key_length
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 16,
-                'pkcs12_sha1_rc4_40': 5,
-                'pkcs12_sha1_tripledes_3key': 24,
-                'pkcs12_sha1_tripledes_2key': 16,
-                'pkcs12_sha1_rc2_128': 16,
-                'pkcs12_sha1_rc2_40': 5,
-            }[encryption_algo]
+        pkcs_values = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 16,
+            'pkcs12_sha1_rc4_40': 5,
+            'pkcs12_sha1_tripledes_3key': 24,
+            'pkcs12_sha1_tripledes_2key': 16,
+            'pkcs12_sha1_rc2_128': 16,
+            'pkcs12_sha1_rc2_40': 5,
+        }
+        if encryption_algo in pkcs_values:
+            return pkcs_values[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1159,21 +1160,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_cipher
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 'des',
-                'pbes1_md5_des': 'des',
-                'pbes1_md2_rc2': 'rc2',
-                'pbes1_md5_rc2': 'rc2',
-                'pbes1_sha1_des': 'des',
-                'pbes1_sha1_rc2': 'rc2',
-                'pkcs12_sha1_rc4_128': 'rc4',
-                'pkcs12_sha1_rc4_40': 'rc4',
-                'pkcs12_sha1_tripledes_3key': 'tripledes',
-                'pkcs12_sha1_tripledes_2key': 'tripledes',
-                'pkcs12_sha1_rc2_128': 'rc2',
-                'pkcs12_sha1_rc2_40': 'rc2',
-            }[encryption_algo]
+        pkcs_values = {
+            'pbes1_md2_des': 'des',
+            'pbes1_md5_des': 'des',
+            'pbes1_md2_rc2': 'rc2',
+            'pbes1_md5_rc2': 'rc2',
+            'pbes1_sha1_des': 'des',
+            'pbes1_sha1_rc2': 'rc2',
+            'pkcs12_sha1_rc4_128': 'rc4',
+            'pkcs12_sha1_rc4_40': 'rc4',
+            'pkcs12_sha1_tripledes_3key': 'tripledes',
+            'pkcs12_sha1_tripledes_2key': 'tripledes',
+            'pkcs12_sha1_rc2_128': 'rc2',
+            'pkcs12_sha1_rc2_40': 'rc2',
+        }
+        if encryption_algo in pkcs_values:
+            return pkcs_values[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1210,21 +1212,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_block_size
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 0,
-                'pkcs12_sha1_rc4_40': 0,
-                'pkcs12_sha1_tripledes_3key': 8,
-                'pkcs12_sha1_tripledes_2key': 8,
-                'pkcs12_sha1_rc2_128': 8,
-                'pkcs12_sha1_rc2_40': 8,
-            }[encryption_algo]
+        pkcs_values = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 0,
+            'pkcs12_sha1_rc4_40': 0,
+            'pkcs12_sha1_tripledes_3key': 8,
+            'pkcs12_sha1_tripledes_2key': 8,
+            'pkcs12_sha1_rc2_128': 8,
+            'pkcs12_sha1_rc2_40': 8,
+        }
+        if encryption_algo in pkcs_values:
+            return pkcs_values[encryption_algo]
 
         raise ValueError(unwrap(
             '''
-- 
2.43.0


From 073e66530b2e3b375bc6429c7f6afbae59f0bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:36 +0000
Subject: [PATCH 091/130] fix: the issuer name of a revoked certificate is not
 remembered as missing when it can not be read

---
 asn1crypto/crl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index 302ef3f..a77527e 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -259,12 +259,13 @@ class RevokedCertificate(Sequence):
         """
 
         if self._issuer_name is False:
-            self._issuer_name = None
+            issuer_name = None
             if self.certificate_issuer_value:
                 for general_name in self.certificate_issuer_value:
                     if general_name.name == 'directory_name':
-                        self._issuer_name = general_name.chosen
+                        issuer_name = general_name.chosen
                         break
+            self._issuer_name = issuer_name
         return self._issuer_name
 
 
-- 
2.43.0


From 912bdc8eda54a5d7e958442e4be38c398d5076f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:00 +0000
Subject: [PATCH 092/130] fix: the fields of EDIPartyName, which are CHOICEs,
 are explicitly tagged

---
 asn1crypto/x509.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 623289f..e92d88f 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1497,8 +1497,8 @@ class ORAddress(Sequence):
 
 class EDIPartyName(Sequence):
     _fields = [
-        ('name_assigner', DirectoryString, {'implicit': 0, 'optional': True}),
-        ('party_name', DirectoryString, {'implicit': 1}),
+        ('name_assigner', DirectoryString, {'explicit': 0, 'optional': True}),
+        ('party_name', DirectoryString, {'explicit': 1}),
     ]
 
 
-- 
2.43.0


From cb73f302c587fb5a5200fb2d80b69b22425dde11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:08 +0000
Subject: [PATCH 093/130] fix: the application tags of CountryName and
 AdministrationDomainName, which are CHOICEs, are explicit

---
 asn1crypto/x509.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index e92d88f..f7fe2d1 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1263,8 +1263,7 @@ class AnotherName(Sequence):
 
 
 class CountryName(Choice):
-    class_ = 1
-    tag = 1
+    explicit = (1, 1)
 
     _alternatives = [
         ('x121_dcc_code', NumericString),
@@ -1273,8 +1272,7 @@ class CountryName(Choice):
 
 
 class AdministrationDomainName(Choice):
-    class_ = 1
-    tag = 2
+    explicit = (1, 2)
 
     _alternatives = [
         ('numeric', NumericString),
-- 
2.43.0


From 878f0fb016075838e658a44a62772c84b65970a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:34 +0000
Subject: [PATCH 094/130] fix: a key of an unknown algorithm can be read, with
 an opaque value, instead of raising a KeyError

---
 asn1crypto/keys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92716e1..92d7604 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -730,7 +730,8 @@ class PrivateKeyInfo(Sequence):
             'x448': OctetString,
             'ed25519': OctetString,
             'ed448': OctetString,
-        }[algorithm]
+            # A key of an unknown algorithm is left as an opaque octet string
+        }.get(algorithm)
 
     _spec_callbacks = {
         'private_key': _private_key_spec
@@ -1097,7 +1098,8 @@ class PublicKeyInfo(Sequence):
             'x448': (OctetBitString, None),
             'ed25519': (OctetBitString, None),
             'ed448': (OctetBitString, None),
-        }[algorithm]
+            # A key of an unknown algorithm is left as an opaque bit string
+        }.get(algorithm)
 
     _spec_callbacks = {
         'public_key': _public_key_spec
-- 
2.43.0


From 4f6a2e66adf539859e4d2e5dad352d2d5c05e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 095/130] fix: the size of a key, order or coordinate is
 computed with integers, not with logarithms of limited precision

---
 asn1crypto/keys.py | 50 +++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92d7604..efdf383 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -17,7 +17,6 @@ Other type classes are defined that help compose the types listed above.
 from __future__ import unicode_literals, division, absolute_import, print_function
 
 import hashlib
-import math
 
 from ._errors import unwrap, APIException
 from ._types import type_name, byte_cls
@@ -124,6 +123,30 @@ class DSAPrivateKey(Sequence):
     ]
 
 
+def _byte_width(value):
+    """
+    Computes the size of the unsigned encoding of an integer
+
+    :param value:
+        The integer to compute the size of
+
+    :raises:
+        ValueError - when the integer is negative
+
+    :return:
+        An integer number of bytes, at least 1
+    """
+
+    if value < 0:
+        raise ValueError(unwrap(
+            '''
+            value must not be negative
+            '''
+        ))
+
+    return len(int_to_bytes(value))
+
+
 class _ECPoint():
     """
     In both PublicKeyInfo and PrivateKeyInfo, the EC public key is a byte
@@ -148,10 +171,7 @@ class _ECPoint():
             An ECPoint object
         """
 
-        x_bytes = int(math.ceil(math.log(x, 2) / 8.0))
-        y_bytes = int(math.ceil(math.log(y, 2) / 8.0))
-
-        num_bytes = max(x_bytes, y_bytes)
+        num_bytes = max(_byte_width(x), _byte_width(y))
 
         byte_string = b'\x04'
         byte_string += int_to_bytes(x, width=num_bytes)
@@ -534,7 +554,7 @@ class ECDomainParameters(Choice):
 
         if self.name == 'specified':
             order = self.chosen['order'].native
-            return math.ceil(math.log(order, 2.0) / 8.0)
+            return _byte_width(order)
 
         oid = self.chosen.dotted
         if oid not in NamedCurve._key_sizes:
@@ -898,7 +918,7 @@ class PrivateKeyInfo(Sequence):
                 self.algorithm.upper()
             ))
 
-        byte_len = math.log(self['private_key_algorithm']['parameters']['q'].native, 2) / 8
+        byte_len = _byte_width(self['private_key_algorithm']['parameters']['q'].native)
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -927,10 +947,7 @@ class PrivateKeyInfo(Sequence):
                 prime = self['private_key_algorithm']['parameters']['p'].native
             elif self.algorithm == 'ec':
                 prime = self['private_key'].parsed['private_key'].native
-            self._bit_size = int(math.ceil(math.log(prime, 2)))
-            modulus = self._bit_size % 8
-            if modulus != 0:
-                self._bit_size += 8 - modulus
+            self._bit_size = _byte_width(prime) * 8
         return self._bit_size
 
     @property
@@ -940,7 +957,7 @@ class PrivateKeyInfo(Sequence):
             The byte size of the private key, as an integer
         """
 
-        return int(math.ceil(self.bit_size / 8))
+        return self.bit_size // 8
 
     @property
     def public_key(self):
@@ -1228,7 +1245,7 @@ class PublicKeyInfo(Sequence):
         if parameters.native is None:
             return None
 
-        byte_len = math.log(parameters['q'].native, 2) / 8
+        byte_len = _byte_width(parameters['q'].native)
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -1258,10 +1275,7 @@ class PublicKeyInfo(Sequence):
                     prime = self['public_key'].parsed['modulus'].native
                 elif self.algorithm == 'dsa':
                     prime = self['algorithm']['parameters']['p'].native
-                self._bit_size = int(math.ceil(math.log(prime, 2)))
-                modulus = self._bit_size % 8
-                if modulus != 0:
-                    self._bit_size += 8 - modulus
+                self._bit_size = _byte_width(prime) * 8
 
         return self._bit_size
 
@@ -1272,7 +1286,7 @@ class PublicKeyInfo(Sequence):
             The byte size of the public key, as an integer
         """
 
-        return int(math.ceil(self.bit_size / 8))
+        return self.bit_size // 8
 
     @property
     def sha1(self):
-- 
2.43.0


From 4f099b50095df517ace064a4c61dd957976e68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 096/130] fix: the size of an EC private key includes the
 leading zero bytes it is encoded with

---
 asn1crypto/keys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index efdf383..ac2b0e9 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -946,7 +946,9 @@ class PrivateKeyInfo(Sequence):
             elif self.algorithm == 'dsa':
                 prime = self['private_key_algorithm']['parameters']['p'].native
             elif self.algorithm == 'ec':
-                prime = self['private_key'].parsed['private_key'].native
+                # The encoded width is that of the order of the curve
+                self._bit_size = len(self['private_key'].parsed['private_key'].cast(OctetString).native) * 8
+                return self._bit_size
             self._bit_size = _byte_width(prime) * 8
         return self._bit_size
 
-- 
2.43.0


From e5edeee7cffdb6e2ec630960a34a036afee1e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 097/130] fix: the size of a key of an algorithm without a
 known size raises a ValueError, and that of DH and RSAES-OAEP keys is known

---
 asn1crypto/keys.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index ac2b0e9..a5909eb 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -949,6 +949,13 @@ class PrivateKeyInfo(Sequence):
                 # The encoded width is that of the order of the curve
                 self._bit_size = len(self['private_key'].parsed['private_key'].cast(OctetString).native) * 8
                 return self._bit_size
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    The bit size of %s keys is not known
+                    ''',
+                    self.algorithm.upper()
+                ))
             self._bit_size = _byte_width(prime) * 8
         return self._bit_size
 
@@ -1273,10 +1280,17 @@ class PublicKeyInfo(Sequence):
             if self.algorithm == 'ec':
                 self._bit_size = int(((len(self['public_key'].native) - 1) / 2) * 8)
             else:
-                if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
+                if self.algorithm in set(['rsa', 'rsassa_pss', 'rsaes_oaep']):
                     prime = self['public_key'].parsed['modulus'].native
-                elif self.algorithm == 'dsa':
+                elif self.algorithm == 'dsa' or self.algorithm == 'dh':
                     prime = self['algorithm']['parameters']['p'].native
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        The bit size of %s keys is not known
+                        ''',
+                        self.algorithm.upper()
+                    ))
                 self._bit_size = _byte_width(prime) * 8
 
         return self._bit_size
-- 
2.43.0


From 1d766d16191e493dda3670cbee1782afd004b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 098/130] fix: the size of an EC public key with a compressed
 point

---
 asn1crypto/keys.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index a5909eb..d6e037e 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -1278,7 +1278,12 @@ class PublicKeyInfo(Sequence):
 
         if self._bit_size is None:
             if self.algorithm == 'ec':
-                self._bit_size = int(((len(self['public_key'].native) - 1) / 2) * 8)
+                point = self['public_key'].native
+                if point[0:1] in set([b'\x02', b'\x03']):
+                    # A compressed point contains only one coordinate
+                    self._bit_size = (len(point) - 1) * 8
+                else:
+                    self._bit_size = int(((len(point) - 1) / 2) * 8)
             else:
                 if self.algorithm in set(['rsa', 'rsassa_pss', 'rsaes_oaep']):
                     prime = self['public_key'].parsed['modulus'].native
-- 
2.43.0


From 87150833bf0a3681cd8b01864cc2f70566229cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 099/130] fix: an RSASSA-PSS key can be wrapped, without
 restrictions on the parameters

---
 asn1crypto/keys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index d6e037e..8a0cff6 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -788,7 +788,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
-            params = Null()
+            # The parameters of an RSASSA-PSS key without restrictions are absent
+            params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
             if not isinstance(private_key, DSAPrivateKey):
                 private_key = DSAPrivateKey.load(private_key)
@@ -815,7 +816,8 @@ class PrivateKeyInfo(Sequence):
 
         private_key_algo = PrivateKeyAlgorithm()
         private_key_algo['algorithm'] = PrivateKeyAlgorithmId(algorithm)
-        private_key_algo['parameters'] = params
+        if params is not None:
+            private_key_algo['parameters'] = params
 
         container = cls()
         container._algorithm = algorithm
@@ -1170,7 +1172,9 @@ class PublicKeyInfo(Sequence):
 
         algo = PublicKeyAlgorithm()
         algo['algorithm'] = PublicKeyAlgorithmId(algorithm)
-        algo['parameters'] = Null()
+        # The parameters of an RSASSA-PSS key without restrictions are absent
+        if algorithm == 'rsa':
+            algo['parameters'] = Null()
 
         container = cls()
         container['algorithm'] = algo
-- 
2.43.0


From bc664f20cfc4481cfe384a87932afc50b7dca485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:45 +0000
Subject: [PATCH 100/130] fix: the URL of a distribution point and the
 self-signed state of a certificate are not settled by a failure to read them

---
 asn1crypto/x509.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f7fe2d1..ebdb864 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1652,13 +1652,14 @@ class DistributionPoint(Sequence):
                     '''
                 ))
 
-            self._url = None
+            distribution_url = None
             for general_name in name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
                     if url.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
-                        self._url = url
+                        distribution_url = url
                         break
+            self._url = distribution_url
 
         return self._url
 
@@ -2920,15 +2921,16 @@ class Certificate(Sequence):
         """
 
         if self._self_signed is None:
-            self._self_signed = 'no'
+            self_signed = 'no'
             if self.self_issued:
                 if self.key_identifier:
                     if not self.authority_key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                 else:
-                    self._self_signed = 'maybe'
+                    self_signed = 'maybe'
+            self._self_signed = self_signed
         return self._self_signed
 
     @property
-- 
2.43.0


From 0d44cad146955061b15d6c28dfe13077a886e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:58 +0000
Subject: [PATCH 101/130] fix: the issuer and serial number of the issuing
 certificate are not remembered as missing when they can not be read

---
 asn1crypto/x509.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index ebdb864..de79719 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2724,7 +2724,7 @@ class Certificate(Sequence):
 
         if self._authority_issuer_serial is False:
             akiv = self.authority_key_identifier_value
-            self._authority_issuer_serial = None
+            authority_issuer_serial = None
             if akiv and akiv['authority_cert_issuer'].native:
                 for general_name in akiv['authority_cert_issuer']:
                     if general_name.name != 'directory_name':
@@ -2732,8 +2732,9 @@ class Certificate(Sequence):
                     # We untag the element since it is tagged via being a choice from GeneralName
                     issuer = general_name.chosen.untag()
                     authority_serial = akiv['authority_cert_serial_number'].native
-                    self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                    authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
                     break
+            self._authority_issuer_serial = authority_issuer_serial
         return self._authority_issuer_serial
 
     @property
-- 
2.43.0


From f10c7907335b8714a29887b770c671e21984e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:50 +0000
Subject: [PATCH 102/130] fix: the identifier of the local machine keyset
 attribute is not that of the name of the CSP

---
 asn1crypto/pkcs12.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 7ebcefe..3a62247 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -53,7 +53,7 @@ class AttributeType(ObjectIdentifier):
         '1.2.840.113549.1.9.20': 'friendly_name',
         '1.2.840.113549.1.9.21': 'local_key_id',
         # https://support.microsoft.com/en-us/kb/287547
-        '1.3.6.1.4.1.311.17.1': 'microsoft_local_machine_keyset',
+        '1.3.6.1.4.1.311.17.2': 'microsoft_local_machine_keyset',
         # https://github.com/frohoff/jdk8u-dev-jdk/blob/master/src/share/classes/sun/security/pkcs12/PKCS12KeyStore.java
         # this is a set of OIDs, representing key usage, the usual value is a SET of one element OID 2.5.29.37.0
         '2.16.840.1.113894.746875.1.1': 'trusted_key_usage',
-- 
2.43.0


From f739e9857fe2cb084b09523870de4766113ced49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:50 +0000
Subject: [PATCH 103/130] fix: the identifiers of three Apple key purposes are
 in the arc of Apple

---
 asn1crypto/x509.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index de79719..0b8dcd9 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1848,9 +1848,9 @@ class KeyPurposeId(ObjectIdentifier):
         '1.2.840.113635.100.1.27': 'apple_test_mobile_store',
         '1.2.840.113635.100.1.28': 'apple_otapki_signer',
         '1.2.840.113635.100.1.29': 'apple_test_otapki_signer',
-        '1.2.840.113625.100.1.30': 'apple_id_validation_record_signing_policy',
-        '1.2.840.113625.100.1.31': 'apple_smp_encryption',
-        '1.2.840.113625.100.1.32': 'apple_test_smp_encryption',
+        '1.2.840.113635.100.1.30': 'apple_id_validation_record_signing_policy',
+        '1.2.840.113635.100.1.31': 'apple_smp_encryption',
+        '1.2.840.113635.100.1.32': 'apple_test_smp_encryption',
         '1.2.840.113635.100.1.33': 'apple_server_authentication',
         '1.2.840.113635.100.1.34': 'apple_pcs_escrow_service',
         # http://nvlpubs.nist.gov/nistpubs/FIPS/NIST.FIPS.201-2.pdf
-- 
2.43.0


From db3f3a8b1273f732cbb62e5be0d86019d29e2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:18 +0000
Subject: [PATCH 104/130] fix: the name of the CSP, whose type is defined, is
 among the PKCS12 attributes

---
 asn1crypto/pkcs12.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 3a62247..6702c58 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -53,6 +53,7 @@ class AttributeType(ObjectIdentifier):
         '1.2.840.113549.1.9.20': 'friendly_name',
         '1.2.840.113549.1.9.21': 'local_key_id',
         # https://support.microsoft.com/en-us/kb/287547
+        '1.3.6.1.4.1.311.17.1': 'microsoft_csp_name',
         '1.3.6.1.4.1.311.17.2': 'microsoft_local_machine_keyset',
         # https://github.com/frohoff/jdk8u-dev-jdk/blob/master/src/share/classes/sun/security/pkcs12/PKCS12KeyStore.java
         # this is a set of OIDs, representing key usage, the usual value is a SET of one element OID 2.5.29.37.0
-- 
2.43.0


From bed56c5d43e6644f205552a0a6e8fb80a2b215bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:27 +0000
Subject: [PATCH 105/130] fix: an EC private key that is widened to the size of
 the curve of the PrivateKeyInfo is encoded anew

---
 asn1crypto/keys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 8a0cff6..59e904e 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -631,7 +631,12 @@ class ECPrivateKey(Sequence):
         """
 
         if self._key_size is not None and isinstance(self['private_key'], IntegerOctetString):
+            previous_contents = self['private_key'].contents
             self['private_key'].set_encoded_width(self._key_size)
+            if self['private_key'].contents != previous_contents:
+                # Objects that contain this key have to be encoded again also
+                self._mutated = True
+                self._revision = object()
 
 
 class DSAParams(Sequence):
-- 
2.43.0


From edd9d3bfb68b34a442eacc64abd47f788ded3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:51 +0000
Subject: [PATCH 106/130] fix: a private key that was tagged is wrapped without
 its tags, like a public key

---
 asn1crypto/keys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 59e904e..79c5d50 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -793,6 +793,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
+            elif private_key.explicit is not None or private_key.implicit:
+                private_key = private_key.untag()
             # The parameters of an RSASSA-PSS key without restrictions are absent
             params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
@@ -808,7 +810,7 @@ class PrivateKeyInfo(Sequence):
             if not isinstance(private_key, ECPrivateKey):
                 private_key = ECPrivateKey.load(private_key)
             else:
-                private_key = private_key.copy()
+                private_key = private_key.untag()
             params = private_key['parameters']
             del private_key['parameters']
         else:
-- 
2.43.0


From d1a2153df783870c5ef053663dcbc7f62674ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:30 +0000
Subject: [PATCH 107/130] fix: an EC private key that was decoded or copied
 keeps its size when it is changed

---
 asn1crypto/keys.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 79c5d50..7d30c94 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -596,6 +596,10 @@ class ECPrivateKey(Sequence):
 
     # This is necessary to ensure the private_key IntegerOctetString is encoded properly
     def __setitem__(self, key, value):
+        # A key that was decoded has the size of its curve, or that it was encoded with
+        if key == 'private_key' and self._key_size is None and self._contents is not None:
+            self._infer_key_size()
+
         res = super(ECPrivateKey, self).__setitem__(key, value)
 
         if key == 'private_key':
@@ -614,6 +618,40 @@ class ECPrivateKey(Sequence):
 
         return res
 
+    def _infer_key_size(self):
+        """
+        Determines the key_size from the parameters, or the existing private key
+        """
+
+        parameters = self['parameters']
+        if isinstance(parameters, ECDomainParameters) and parameters.name != 'implicit_ca':
+            try:
+                self._key_size = parameters.key_size
+                return
+            except ValueError:
+                # The curve is not a registered one
+                pass
+
+        if isinstance(self['private_key'], IntegerOctetString):
+            contents = self['private_key'].cast(OctetString).native
+            if len(contents) > 1:
+                self._key_size = len(contents)
+
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another ECPrivateKey object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        super(ECPrivateKey, self)._copy(other, copy_func)
+        self._key_size = other._key_size
+
     def set_key_size(self, key_size):
         """
         Sets the key_size to ensure the private key is encoded to the proper length
-- 
2.43.0


From c82b77807b7ce49163342192792f30911778d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:49 +0000
Subject: [PATCH 108/130] fix: encoding an object identifier anew does not
 replace it with another one that has the same name

---
 asn1crypto/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 1b5ca2e..c1d610d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3453,6 +3453,17 @@ class ObjectIdentifier(Primitive, ValueMap):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _reencode(self, other):
+        """
+        Sets the value to the DER encoding of the value of another object. More
+        than one object identifier may be mapped to the same name.
+
+        :param other:
+            self, or another instance of the same class
+        """
+
+        self.set(other.native if other.contents is None else other.dotted)
+
     def __unicode__(self):
         """
         :return:
-- 
2.43.0


From bad2103c4e9513f7eee1808c9d3957fb8d5221bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 109/130] fix: the value of an OtherKeyAttribute is optional,
 as in RFC 5652

---
 asn1crypto/cms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index b104c99..36043a0 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -718,7 +718,7 @@ class OriginatorIdentifierOrKey(Choice):
 class OtherKeyAttribute(Sequence):
     _fields = [
         ('key_attr_id', ObjectIdentifier),
-        ('key_attr', Any),
+        ('key_attr', Any, {'optional': True}),
     ]
 
 
-- 
2.43.0


From d927e4d1c2ee3513f099921232a94bad9b470d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 110/130] fix: the subjectAltKeyIdentifier of the S/MIME
 encryption key preference is a SubjectKeyIdentifier, an octet string

---
 asn1crypto/cms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 36043a0..1cbbcd2 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -939,7 +939,7 @@ class SMIMEEncryptionKeyPreference(Choice):
     _alternatives = [
         ('issuer_and_serial_number', IssuerAndSerialNumber, {'implicit': 0}),
         ('recipient_key_id', RecipientKeyIdentifier, {'implicit': 1}),
-        ('subject_alt_key_identifier', PublicKeyInfo, {'implicit': 2}),
+        ('subject_alt_key_identifier', OctetString, {'implicit': 2}),
     ]
 
     def _setup(self):
-- 
2.43.0


From e0a3f0438d903dee77e4147f39b7d1804748dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 111/130] fix: the tags of the fields of V2Form are implicit,
 as in RFC 5755

---
 asn1crypto/cms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 1cbbcd2..40ee987 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -268,8 +268,8 @@ class Holder(Sequence):
 class V2Form(Sequence):
     _fields = [
         ('issuer_name', GeneralNames, {'optional': True}),
-        ('base_certificate_id', IssuerSerial, {'explicit': 0, 'optional': True}),
-        ('object_digest_info', ObjectDigestInfo, {'explicit': 1, 'optional': True}),
+        ('base_certificate_id', IssuerSerial, {'implicit': 0, 'optional': True}),
+        ('object_digest_info', ObjectDigestInfo, {'implicit': 1, 'optional': True}),
     ]
 
 
-- 
2.43.0


From 76d89c83cce369f49ede6aa645e90195f0a2f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 112/130] fix: the locator of an OCSP ServiceLocator is
 optional

---
 asn1crypto/ocsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 2ca068d..74ae1ed 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -56,7 +56,7 @@ class CertId(Sequence):
 class ServiceLocator(Sequence):
     _fields = [
         ('issuer', Name),
-        ('locator', AuthorityInfoAccessSyntax),
+        ('locator', AuthorityInfoAccessSyntax, {'optional': True}),
     ]
 
 
-- 
2.43.0


From bcf5caa87ecb7c14bba86a51338df9c4dc203499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 113/130] fix: a time stamp response that reports a failure has
 no token

---
 asn1crypto/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 6984e79..c3a72b5 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -156,7 +156,7 @@ class PKIStatusInfo(Sequence):
 class TimeStampResp(Sequence):
     _fields = [
         ('status', PKIStatusInfo),
-        ('time_stamp_token', ContentInfo),
+        ('time_stamp_token', ContentInfo, {'optional': True}),
     ]
 
 
-- 
2.43.0


From a988a98b0860226086a52449b488fa06c45aebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 114/130] fix: the time stamp of a TimeStampAndCRL is a time
 stamp token, which is a ContentInfo

---
 asn1crypto/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index c3a72b5..a1aab58 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -171,7 +171,7 @@ class MetaData(Sequence):
 
 class TimeStampAndCRL(Sequence):
     _fields = [
-        ('time_stamp', EncapsulatedContentInfo),
+        ('time_stamp', ContentInfo),
         ('crl', CertificateList, {'optional': True}),
     ]
 
-- 
2.43.0


From 9d2f5d81d40a5c4ba1ddbbb68d331734fc1b7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 115/130] fix: an archive time stamp sequence consists of
 chains of archive time stamps, as in RFC 4998

---
 asn1crypto/tsp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index a1aab58..0a7cd5b 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -208,10 +208,14 @@ class ArchiveTimeStamp(Sequence):
     ]
 
 
-class ArchiveTimeStampSequence(SequenceOf):
+class ArchiveTimeStampChain(SequenceOf):
     _child_spec = ArchiveTimeStamp
 
 
+class ArchiveTimeStampSequence(SequenceOf):
+    _child_spec = ArchiveTimeStampChain
+
+
 class EvidenceRecord(Sequence):
     _fields = [
         ('version', Version),
-- 
2.43.0


From f1128a9c82d5baab2709ebb0aa93039bea0761e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:38 +0000
Subject: [PATCH 116/130] fix: the attributes of an extended certificate are a
 SET, as in RFC 5652

---
 asn1crypto/cms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 40ee987..faf1584 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -56,17 +56,21 @@ from .core import (
 from .crl import CertificateList
 from .keys import PublicKeyInfo
 from .ocsp import OCSPResponse
-from .x509 import Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
+from .x509 import Attribute, Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
 
 
 # These structures are taken from
 # ftp://ftp.rsasecurity.com/pub/pkcs/ascii/pkcs-6.asc
 
+class UnauthAttributes(SetOf):
+    _child_spec = Attribute
+
+
 class ExtendedCertificateInfo(Sequence):
     _fields = [
         ('version', Integer),
         ('certificate', Certificate),
-        ('attributes', Attributes),
+        ('attributes', UnauthAttributes),
     ]
 
 
-- 
2.43.0


From 44e82419c4bedb7c423b8b79f20108410f1cf6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:38 +0000
Subject: [PATCH 117/130] fix: the attributes of time-stamped data and of
 archive time stamps are SETs, as in RFC 5544 and RFC 4998

---
 asn1crypto/tsp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 0a7cd5b..67bfc85 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -42,6 +42,7 @@ from .core import (
 )
 from .crl import CertificateList
 from .x509 import (
+    Attribute,
     Attributes,
     CertificatePolicies,
     GeneralName,
@@ -160,12 +161,16 @@ class TimeStampResp(Sequence):
     ]
 
 
+class SetOfAttributes(SetOf):
+    _child_spec = Attribute
+
+
 class MetaData(Sequence):
     _fields = [
         ('hash_protected', Boolean),
         ('file_name', UTF8String, {'optional': True}),
         ('media_type', IA5String, {'optional': True}),
-        ('other_meta_data', Attributes, {'optional': True}),
+        ('other_meta_data', SetOfAttributes, {'optional': True}),
     ]
 
 
@@ -202,7 +207,7 @@ class PartialHashtrees(SequenceOf):
 class ArchiveTimeStamp(Sequence):
     _fields = [
         ('digest_algorithm', DigestAlgorithm, {'implicit': 0, 'optional': True}),
-        ('attributes', Attributes, {'implicit': 1, 'optional': True}),
+        ('attributes', SetOfAttributes, {'implicit': 1, 'optional': True}),
         ('reduced_hashtree', PartialHashtrees, {'implicit': 2, 'optional': True}),
         ('time_stamp', ContentInfo),
     ]
-- 
2.43.0


From db43791783d9250fd85d2ec877a69117c0cfaf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:46 +0000
Subject: [PATCH 118/130] fix: the authenticated safe of a PFX that is signed
 is in the field encap_content_info

---
 asn1crypto/pkcs12.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 6702c58..f0d09c8 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -116,7 +116,7 @@ class Pfx(Sequence):
         if self._authenticated_safe is None:
             content = self['auth_safe']['content']
             if isinstance(content, SignedData):
-                content = content['content_info']['content']
+                content = content['encap_content_info']['content']
             self._authenticated_safe = AuthenticatedSafe.load(content.native)
         return self._authenticated_safe
 
-- 
2.43.0


From a27b54d649e266be0291331b02c1ee622bf4828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:50 +0000
Subject: [PATCH 119/130] fix: the extension attributes of an X.400 address are
 a SET, as in X.411 and RFC 5280

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0b8dcd9..9ad027b 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1481,7 +1481,7 @@ class ExtensionAttribute(Sequence):
     }
 
 
-class ExtensionAttributes(SequenceOf):
+class ExtensionAttributes(SetOf):
     _child_spec = ExtensionAttribute
 
 
-- 
2.43.0


From 7fb3c852433f975207db535dd705f350b21831bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:57 +0000
Subject: [PATCH 120/130] fix: a version 1 attribute certificate without a
 version, the default, can be decoded from a CertificateChoices

---
 asn1crypto/cms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index faf1584..2726550 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -56,6 +56,7 @@ from .core import (
 from .crl import CertificateList
 from .keys import PublicKeyInfo
 from .ocsp import OCSPResponse
+from .parser import parse
 from .x509 import Attribute, Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
 
 
@@ -514,7 +515,10 @@ class CertificateChoices(Choice):
 
         super(CertificateChoices, self).validate(class_, tag, contents)
         if self._choice == 2:
-            if AttCertVersion.load(Sequence.load(contents)[0].dump()).native == 'v2':
+            ac_info = parse(contents)[4]
+            # The version is absent from a V1 that is encoded with DER
+            class_, _, tag, _, version, _ = parse(ac_info)
+            if class_ == 0 and tag == AttCertVersion.tag and version == b'\x01':
                 self._choice = 3
 
 
-- 
2.43.0


From a971c9a5ca17880f436161bd165273315d4dc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:04 +0000
Subject: [PATCH 121/130] fix: the requires_auth field of an Adobe timestamp
 reads False when it is absent, also from an object that was constructed

---
 asn1crypto/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index 51caedc..12eea1d 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -38,7 +38,7 @@ class AdobeTimestamp(Sequence):
     _fields = [
         ('version', Integer),
         ('location', GeneralName),
-        ('requires_auth', Boolean, {'optional': True, 'default': False}),
+        ('requires_auth', Boolean, {'default': False}),
     ]
 
 
-- 
2.43.0


From 288c50fb629b29394762a0d748c82baa52f15da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:44 +0000
Subject: [PATCH 122/130] fix: a CHOICE can be set as the value an octet or bit
 string contains

---
 asn1crypto/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c1d610d..3dd5768 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4229,7 +4229,7 @@ class Sequence(Asn1Value):
         specs_different = field_spec != value_spec
         is_any = issubclass(field_spec, Any)
 
-        if issubclass(value_spec, Choice):
+        if issubclass(value_spec, Choice) and (not specs_different or is_any or issubclass(field_spec, Choice)):
             is_asn1value = isinstance(value, Asn1Value)
             is_tuple = isinstance(value, tuple) and len(value) == 2
             is_dict = isinstance(value, dict) and len(value) == 1
-- 
2.43.0


From e27507a238818d446e87c55003ffc02743abbb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:44 +0000
Subject: [PATCH 123/130] fix: the type of a field of a SET can be determined
 by the value of another field

---
 asn1crypto/core.py | 61 ++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 37 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 3dd5768..d479385 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5153,7 +5153,7 @@ class Set(Sequence):
             return
 
         try:
-            child_map = {}
+            parts_map = {}
             contents_length = len(self.contents)
             child_pointer = 0
             seen_field = 0
@@ -5175,24 +5175,7 @@ class Set(Sequence):
                         parts[2],
                     ))
 
-                _, field_spec, value_spec, field_params, spec_override = (
-                    cls._precomputed_specs[field] or self._determine_spec(field))
-
-                if field_spec is None or (spec_override and issubclass(field_spec, Any)):
-                    field_spec = value_spec
-                    spec_override = None
-
-                if spec_override:
-                    child = parts + (field_spec, field_params, value_spec)
-                else:
-                    child = parts + (field_spec, field_params)
-
-                if recurse:
-                    child = _build(*child)
-                    if isinstance(child, (Sequence, SequenceOf)):
-                        child._parse_children(recurse=True)
-
-                if field in child_map:
+                if field in parts_map:
                     raise ValueError(unwrap(
                         '''
                         Data for field "%s" is present more than once
@@ -5200,15 +5183,14 @@ class Set(Sequence):
                         self._fields[field][0]
                     ))
 
-                child_map[field] = child
+                parts_map[field] = parts
                 seen_field += 1
 
-            total_fields = len(self._fields)
-
-            for index in range(0, total_fields):
-                if index in child_map:
-                    continue
-
+            # The children are created in the order of the fields, whatever
+            # their order in the contents, since the spec of a field may
+            # depend on the value of a preceding field
+            self.children = []
+            for index in range(0, len(self._fields)):
                 name, field_spec, value_spec, field_params, spec_override = (
                     cls._precomputed_specs[index] or self._determine_spec(index))
 
@@ -5216,18 +5198,24 @@ class Set(Sequence):
                     field_spec = value_spec
                     spec_override = None
 
-                missing = False
+                if index in parts_map:
+                    if spec_override:
+                        child = parts_map[index] + (field_spec, field_params, value_spec)
+                    else:
+                        child = parts_map[index] + (field_spec, field_params)
+
+                    if recurse:
+                        child = _build(*child)
+                        if isinstance(child, (Sequence, SequenceOf)):
+                            child._parse_children(recurse=True)
 
-                if not field_params:
-                    missing = True
-                elif 'optional' not in field_params and 'default' not in field_params:
-                    missing = True
                 elif 'optional' in field_params:
-                    child_map[index] = VOID
+                    child = VOID
+
                 elif 'default' in field_params:
-                    child_map[index] = field_spec(**field_params)
+                    child = field_spec(**field_params)
 
-                if missing:
+                else:
                     raise ValueError(unwrap(
                         '''
                         Missing required field "%s" from %s
@@ -5236,11 +5224,10 @@ class Set(Sequence):
                         type_name(self)
                     ))
 
-            self.children = []
-            for index in range(0, total_fields):
-                self.children.append(child_map[index])
+                self.children.append(child)
 
         except (ValueError, TypeError) as e:
+            self.children = None
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
-- 
2.43.0


From 91b1b56078f1b74ff27aafc768e728f9194e10f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:15 +0000
Subject: [PATCH 124/130] fix: a value of a universal type with the wrong
 method is rejected when no type is given, as it is when one is

---
 asn1crypto/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d479385..d484023 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -6238,6 +6238,16 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         ber_indef = method == 1 and value.method == 0 and trailer == b'\x00\x00'
         if ber_indef and isinstance(value, Constructable):
             value._indefinite = True
+        # The standard encodes INSTANCE OF and CHARACTER STRING values as a SEQUENCE
+        elif class_ == 0 and method != value.method and not isinstance(value, (InstanceOf, CharacterString)):
+            raise ValueError(unwrap(
+                '''
+                Error parsing %s - method should have been %s, but %s was found
+                ''',
+                type_name(value),
+                METHOD_NUM_TO_NAME_MAP.get(value.method),
+                METHOD_NUM_TO_NAME_MAP.get(method, method)
+            ))
         value.method = method
 
     if not header_set:
-- 
2.43.0


From 3aaf692f1a9fa592aa04ff934e7931fcc45462fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:11 +0000
Subject: [PATCH 125/130] fix: a copy of an INSTANCE OF or CHARACTER STRING
 value in the constructed form stays constructed

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d484023..4df4df1 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -522,6 +522,9 @@ class Asn1Value(object):
         """
 
         new_obj = self.__class__()
+        # The copy of a value with an indefinite length is encoded anew
+        if not getattr(self, '_indefinite', False):
+            new_obj.method = self.method
         new_obj.class_ = self.class_
         new_obj.tag = self.tag
         new_obj.implicit = self.implicit
-- 
2.43.0


From 8b189fac92c5ba08618f29f4ad279e98f777ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:03 +0000
Subject: [PATCH 126/130] fix: an element of another class that has no type
 keeps its contents when it is encoded anew

---
 asn1crypto/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4df4df1..7476e34 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1852,7 +1852,12 @@ class Primitive(Asn1Value):
             force = True
 
         if force:
-            self._reencode(self)
+            if self.class_ == self.__class__.class_ or self.implicit:
+                self._reencode(self)
+            else:
+                # The tag number of another class says nothing about the type
+                # of the contents, so just the header is regenerated
+                self._header = None
 
         return Asn1Value.dump(self)
 
@@ -6239,7 +6244,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
 
         value = spec(contents=contents, class_=class_)
         ber_indef = method == 1 and value.method == 0 and trailer == b'\x00\x00'
-        if ber_indef and isinstance(value, Constructable):
+        if class_ == 0 and ber_indef and isinstance(value, Constructable):
             value._indefinite = True
         # The standard encodes INSTANCE OF and CHARACTER STRING values as a SEQUENCE
         elif class_ == 0 and method != value.method and not isinstance(value, (InstanceOf, CharacterString)):
-- 
2.43.0


From 9fce72e252eec0c7fec08a6d1cd030f1884b804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:17 +0000
Subject: [PATCH 127/130] fix: an empty subject alternative name extension does
 not bring back the common names

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 9ad027b..8e4bbfb 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2831,7 +2831,7 @@ class Certificate(Sequence):
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
-            if self.subject_alt_name_value:
+            if self.subject_alt_name_value is not None:
                 for general_name in self.subject_alt_name_value:
                     if general_name.name == 'dns_name' and general_name.native not in valid_domains:
                         valid_domains.append(general_name.native)
-- 
2.43.0


From 1497146d3dd82772b5f20fa6013e4162061bef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:31 +0000
Subject: [PATCH 128/130] fix: an empty key identifier is compared as any other
 by self_signed

---
 asn1crypto/x509.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 8e4bbfb..93ad7aa 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2924,8 +2924,8 @@ class Certificate(Sequence):
         if self._self_signed is None:
             self_signed = 'no'
             if self.self_issued:
-                if self.key_identifier:
-                    if not self.authority_key_identifier:
+                if self.key_identifier is not None:
+                    if self.authority_key_identifier is None:
                         self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
                         self_signed = 'maybe'
-- 
2.43.0


From 1763c51ac88e1e1c1ed62d9503ffa41b0f77cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:26 +0000
Subject: [PATCH 129/130] fix: the Windows replacement of inet_pton reads the
 addresses that begin or end with ::, or end with an IPv4 address, and no
 others

---
 asn1crypto/_inet.py | 109 +++++++++++++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 43 deletions(-)

diff --git a/asn1crypto/_inet.py b/asn1crypto/_inet.py
index 045ba56..ca8f1ac 100644
--- a/asn1crypto/_inet.py
+++ b/asn1crypto/_inet.py
@@ -1,6 +1,7 @@
 # coding: utf-8
 from __future__ import unicode_literals, division, absolute_import, print_function
 
+import re
 import socket
 import struct
 
@@ -115,18 +116,8 @@ def inet_pton(address_family, ip_string):
         ))
 
     if address_family == socket.AF_INET:
-        octets = ip_string.split('.')
-        error = len(octets) != 4
-        if not error:
-            ints = []
-            for o in octets:
-                o = int(o)
-                if o > 255 or o < 0:
-                    error = True
-                    break
-                ints.append(o)
-
-        if error:
+        ints = _ipv4_octets(ip_string)
+        if ints is None:
             raise ValueError(unwrap(
                 '''
                 ip_string must be a dotted string with four integers in the
@@ -137,34 +128,66 @@ def inet_pton(address_family, ip_string):
 
         return struct.pack(b'!BBBB', *ints)
 
-    error = False
-    omitted = ip_string.count('::')
-    if omitted > 1:
-        error = True
-    elif omitted == 0:
-        octets = ip_string.split(':')
-        error = len(octets) != 8
-    else:
-        begin, end = ip_string.split('::')
-        begin_octets = begin.split(':')
-        end_octets = end.split(':')
-        missing = 8 - len(begin_octets) - len(end_octets)
-        octets = begin_octets + (['0'] * missing) + end_octets
-
-    if not error:
-        ints = []
-        for o in octets:
-            o = int(o, 16)
-            if o > 65535 or o < 0:
-                error = True
-                break
-            ints.append(o)
-
-        return struct.pack(b'!HHHHHHHH', *ints)
-
-    raise ValueError(unwrap(
-        '''
-        ip_string must be a valid ipv6 string, got %s
-        ''',
-        repr(ip_string)
-    ))
+    groups = ip_string
+    # The last 32 bits may be written as an IPv4 address
+    last = ip_string.rpartition(':')[2]
+    octets = _ipv4_octets(last)
+    if octets is not None and last != ip_string:
+        groups = ip_string[:-len(last)] + '%x:%x' % struct.unpack(b'!HH', struct.pack(b'!BBBB', *octets))
+
+    # The groups before and after a "::"
+    sections = [_ipv6_groups(section) for section in groups.split('::')]
+
+    ints = None
+    if None not in sections:
+        if len(sections) == 1:
+            ints = sections[0]
+        elif len(sections) == 2:
+            missing = 8 - len(sections[0]) - len(sections[1])
+            if missing > 0:
+                ints = sections[0] + ([0] * missing) + sections[1]
+
+    if ints is None or len(ints) != 8:
+        raise ValueError(unwrap(
+            '''
+            ip_string must be a valid ipv6 string, got %s
+            ''',
+            repr(ip_string)
+        ))
+
+    return struct.pack(b'!HHHHHHHH', *ints)
+
+
+def _ipv4_octets(string):
+    """
+    :param string:
+        A unicode string
+
+    :return:
+        A list of four integers, or None if the string is not an IPv4 address
+    """
+
+    octets = string.split('.')
+    if len(octets) != 4:
+        return None
+    if not all(re.match('(?:0|[1-9][0-9]{0,2})\\Z', o) for o in octets):
+        return None
+    ints = [int(o) for o in octets]
+    return ints if max(ints) <= 255 else None
+
+
+def _ipv6_groups(string):
+    """
+    :param string:
+        A unicode string of groups that are separated by colons
+
+    :return:
+        A list of integers, or None if one of the groups is not valid
+    """
+
+    if string == '':
+        return []
+    groups = string.split(':')
+    if not all(re.match('[0-9a-fA-F]{1,4}\\Z', group) for group in groups):
+        return None
+    return [int(group, 16) for group in groups]
-- 
2.43.0


From 1d38606bed0bb77d9a3d2f55dc342bc80967b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:25 +0000
Subject: [PATCH 130/130] fix: Choice.validate() goes through all of the
 explicit tags of a choice

---
 asn1crypto/core.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7476e34..5e9f256 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1376,17 +1376,18 @@ class Choice(Asn1Value):
         id_ = (class_, tag)
 
         if self.explicit is not None:
-            if self.explicit[-1] != id_:
-                raise ValueError(unwrap(
-                    '''
-                    %s was explicitly tagged, but the value provided does not
-                    match the class and tag
-                    ''',
-                    type_name(self)
-                ))
+            for explicit_id in reversed(self.explicit):
+                if explicit_id != id_:
+                    raise ValueError(unwrap(
+                        '''
+                        %s was explicitly tagged, but the value provided does not
+                        match the class and tag
+                        ''',
+                        type_name(self)
+                    ))
 
-            ((class_, _, tag, _, _, _), _) = _parse(contents, len(contents))
-            id_ = (class_, tag)
+                ((class_, _, tag, _, contents, _), _) = _parse(contents, len(contents))
+                id_ = (class_, tag)
 
         if id_ in self._id_map:
             self._choice = self._id_map[id_]
-- 
2.43.0

