From 7402590133469096ea9f86cdfa98a423203c83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 001/171] fix: count the bits of multi-precision integers
 exactly

math.log(i, 2) rounds up for values just below a power of two, which gave
MPIs a wrong bit count and a spurious leading zero octet.
---
 pgp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..239601e 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -560,7 +560,7 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray(
         [(i >> (j * 8)) & 0xff
@@ -644,7 +644,7 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
-- 
2.43.0


From 2bd3869c8e1b203b237469d2388a2e5753afcd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 002/171] fix: use a four-octet length for old-format packets
 of 16 MiB and more

They were written with an indeterminate length, which swallows whatever
packet follows.
---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 239601e..7334d7d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -765,7 +765,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From e055440c12cf625a7d1d7ef89ab71aa06037b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 003/171] fix: write the length octet of empty new-format
 packets

---
 pgp/packets/packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..c33e820 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -129,17 +129,19 @@ class Packet(object):
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
-            while remaining:
+            while True:
                 # "An implementation MAY use Partial Body Lengths for data
                 #  packets, be they literal, compressed, or encrypted."
                 allow_partial = self.type in constants.DATA_TYPES
                 packet_length_bytes, remaining = \
                     utils.new_packet_length_to_bytes(
-                            data_length,
+                            remaining,
                             allow_partial)
                 result.extend(packet_length_bytes)
                 result.extend(data[offset:data_length - remaining])
                 offset = data_length - remaining
+                if not remaining:
+                    break
 
         else:
             tag += (packet_type << 2)
-- 
2.43.0


From a855f5ead3ccc412dd48c50669e56b9c6721364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 004/171] fix: read partial body lengths from packet streams

The stream parser looked for a packet tag before each of the partial
lengths, so packets with partial bodies could not be read from a file.
---
 pgp/packets/packets.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index c33e820..110a6af 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1624,31 +1624,23 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     incomplete = True
-    previous_tag = None
-    previous_header_type = None
+    first = ord(fh.read(1))
+    tag = first & 0x3f
+    header_type = (
+            constants.NEW_PACKET_HEADER_TYPE
+            if bool(first & 0x40)
+            else constants.OLD_PACKET_HEADER_TYPE
+        )
+    if header_type == constants.OLD_PACKET_HEADER_TYPE:
+        tag >>= 2
+        fh.seek(fh.tell() - 1)
     while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
+        # Only the first of a series of partial body lengths follows a
+        # packet tag.
         if header_type == constants.NEW_PACKET_HEADER_TYPE:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
         else:
-            tag >>= 2
-            fh.seek(fh.tell() - 1)
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
 
-- 
2.43.0


From 371d7ec38140cb0d2c6bf569198ee8db587c5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 005/171] fix: read old-format packets of indeterminate length
 from streams

As when parsing from memory, such a packet is the rest of the file.
---
 pgp/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 7334d7d..4025df4 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -16,6 +16,7 @@
 
 import bz2
 import math
+import os
 import zlib
 
 from Crypto.Cipher import blockalgo
@@ -665,7 +666,10 @@ def old_packet_length_from_stream(fh):
         length = long_to_int(bytearray(fh.read(4)), 0)
     else:
         # with & 3 and the other cases, this has to be 3.
-        raise ValueError
+        # The length is indeterminate: the packet is the rest of the file.
+        pos = fh.tell()
+        length = fh.seek(0, os.SEEK_END) - pos
+        fh.seek(pos)
     return length
 
 
-- 
2.43.0


From 68110dc48e185d11901b6a61a2b0c4a27c689916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 006/171] fix: report truncated packets instead of parsing them
 short

---
 pgp/packets/packets.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 110a6af..a2847c1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1644,7 +1644,10 @@ def packet_from_packet_stream(fh):
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
 
-        packet_data.extend(fh.read(data_length))
+        body = fh.read(data_length)
+        if len(body) != data_length:
+            raise ValueError("Truncated packet")
+        packet_data.extend(body)
 
     cls = PACKET_TYPES.get(tag, Packet)
 
@@ -1662,7 +1665,7 @@ def packet_from_packet_data(data, offset=0):
     incomplete = True
     tag = None
     while incomplete:
-        if not tag:
+        if tag is None:
             tag = data[offset] & 0x3f
             header_type = (
                     constants.NEW_PACKET_HEADER_TYPE
@@ -1681,7 +1684,10 @@ def packet_from_packet_data(data, offset=0):
             offset, data_length = utils.old_packet_length(data, offset)
             incomplete = False
 
-        packet_data.extend(data[offset:offset + data_length])
+        body = data[offset:offset + data_length]
+        if len(body) != data_length:
+            raise ValueError("Truncated packet")
+        packet_data.extend(body)
         offset += data_length
 
     cls = PACKET_TYPES.get(tag, Packet)
-- 
2.43.0


From 2339a3912677d85a3b125d6ac84229898ad45965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 007/171] fix: read and write all eight octets of the key ID in
 v3 signatures

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a2847c1..5f3da3b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -331,7 +331,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -476,7 +476,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
-- 
2.43.0


From 2a3724545a035d189760743e2f2640c7be799713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 008/171] fix: read all eight octets of the key ID in one-pass
 signatures

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 5f3da3b..e3bf7ea 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -643,7 +643,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
-- 
2.43.0


From 1ed39b8ad42b2d2bbb5f44d1dbfa1bd681f3ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 009/171] fix: compare v3 signature packets

They have no subpackets, so comparing two of them raised AttributeError.
---
 pgp/packets/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index e3bf7ea..d07174d 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -427,7 +427,11 @@ class SignaturePacket(Packet):
         if version in (2, 3):
             self.creation_time = creation_time
             self.key_id = key_id
+            self.hashed_subpackets = []
+            self.unhashed_subpackets = []
         elif version >= 4:
+            self.creation_time = None
+            self.key_id = None
             if hashed_subpackets is None:
                 hashed_subpackets = []
             if unhashed_subpackets is None:
@@ -447,6 +451,8 @@ class SignaturePacket(Packet):
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
             and self.signature_values == other.signature_values
+            and self.creation_time == other.creation_time
+            and self.key_id == other.key_id
             and set(self.hashed_subpackets) == set(other.hashed_subpackets)
             and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
             )
-- 
2.43.0


From cbb731820dca5ec9dcd3eabb2306db74b591c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 010/171] fix: recognise the wild card key ID of encrypted
 session keys

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index d07174d..b62a861 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -167,7 +167,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
-- 
2.43.0


From d886aaaee13694585e1c0ae3f25a9f4125255912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 011/171] fix: write back literal data packets that were parsed

The time of a parsed packet is a number of seconds. Count the octets, not
the characters, of the file name too.
---
 pgp/packets/packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b62a861..9996e6f 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1302,11 +1302,14 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
-        timestamp = int(time.mktime(self.time.timetuple()))
+        filename = self.filename.encode('utf8', 'replace')
+        data.append(len(filename))
+        data.extend(filename)
+        timestamp = self.time
+        if hasattr(timestamp, 'timetuple'):
+            timestamp = int(time.mktime(timestamp.timetuple()))
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
-- 
2.43.0


From 5c68412069515c75fdb9bb0adbb822559bc104d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 012/171] fix: construct marker packets

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9996e6f..4c049fb 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1230,7 +1230,7 @@ class MarkerPacket(Packet):
     def __init__(self, header_format, content, old_literal=False):
         Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
         self.old_literal = old_literal
-        self.content = content
+        self._content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From cf9e2bbd0807f2d11293cdc142c962f040b606be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 013/171] fix: keep the content of subpackets of unknown types

It was dropped on parsing. Signatures cover their hashed subpackets, so any
signature with an unknown one (such as an issuer fingerprint) was rejected.
---
 pgp/packets/signature_subpackets.py      |  9 +++++++--
 pgp/packets/user_attribute_subpackets.py | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..3cc322f 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -25,7 +25,12 @@ class SignatureSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        return cls(type_, critical)
+        result = cls(type_, critical)
+        result._content = bytearray(sub_data)
+        return result
+
+    # The content of a subpacket of an unknown type
+    _content = b''
 
     def __init__(self, type_, critical):
         self.type = type_
@@ -42,7 +47,7 @@ class SignatureSubpacket(object):
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._content)
 
     def __bytes__(self):
         data = self.content
diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 8a9185a..24bf4d5 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -22,7 +22,12 @@ class UserAttributeSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
-        return cls(sub_type)
+        result = cls(sub_type)
+        result._content = bytearray(sub_data)
+        return result
+
+    # The content of a subpacket of an unknown type
+    _content = b''
 
     def __init__(self, sub_type):
         self.sub_type = sub_type
@@ -31,11 +36,12 @@ class UserAttributeSubpacket(object):
         return (
             self.__class__ == other.__class__
             and self.sub_type == other.sub_type
+            and self._content == other._content
             )
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._content)
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From 92579723d9d56eef3ac58da44077ee76f650d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 014/171] fix: terminate regular expression subpackets with a
 null octet

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 3cc322f..0552382 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -146,7 +146,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
-- 
2.43.0


From dc8dc3e6233948432f597aa71e6f1cd6c3d84c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 015/171] fix: parse and write revocation key subpackets

---
 pgp/packets/signature_subpackets.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 0552382..e3ab9be 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -243,11 +243,11 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = sub_data[0]
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, fingerprint, public_key_algorithm,
                    sensitive=sensitive)
 
@@ -256,7 +256,7 @@ class RevocationKeySubpacket(SignatureSubpacket):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -268,10 +268,8 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @property
     def content(self):
         tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
-- 
2.43.0


From af4531142b59cbccb5dce8d310b86a7b21dc3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 016/171] fix: read the whole fingerprint of additional
 recipient requests

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index e3ab9be..c087791 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -192,7 +192,7 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
                    fingerprint)
 
-- 
2.43.0


From f413811c471331f9f4ef0d6b88d62c0bf96b8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 017/171] fix: parse and write signature target subpackets

---
 pgp/packets/signature_subpackets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index c087791..3563c2f 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -552,7 +552,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2)
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -575,11 +575,12 @@ class TargetSubpacket(SignatureSubpacket):
         if hash_length is None:
             hash_length = self.hash_length
 
-        return bytearray([
+        data = bytearray([
                             int(self.public_key_algorithm),
                             int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+                        ])
+        data.extend(utils.hex_to_bytes(self.hash, hash_length))
+        return data
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From dc980f0a9fcf67edad9c9945e8cbf3198ed05f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 018/171] fix: do not decode notation values that are not text

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 3563c2f..f1c0499 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -304,7 +304,7 @@ class NotationSubpacket(SignatureSubpacket):
         offset += 4
         assert not any(flags[1:])
         assert not flags[0] & 0x7f
-        human_readable = 0x80
+        human_readable = bool(flags[0] & 0x80)
         name_length = utils.short_to_int(sub_data, offset)
         offset += 2
         value_length = utils.short_to_int(sub_data, offset)
-- 
2.43.0


From 474ecec9be86bd28829f72be17e13b6d8f78c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 019/171] fix: keep unknown flags of signature subpackets

Signatures cover these subpackets, so any signature whose key flags,
features or key server preferences had an unknown bit or a second octet was
rejected.
---
 pgp/packets/signature_subpackets.py | 59 +++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index f1c0499..6a08f20 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -62,6 +62,22 @@ class SignatureSubpacket(object):
         return bytes(result)
 
 
+class FlagsSubpacket(SignatureSubpacket):
+    """Flags of any length, of which only some are known."""
+
+    known_flags = 0x00
+    other_flags = b'\x00'
+
+    def _keep_other_flags(self, sub_data):
+        self.other_flags = bytearray(sub_data)
+        self.other_flags[0] &= ~self.known_flags & 0xff
+
+    def _with_other_flags(self, flags):
+        data = bytearray(self.other_flags)
+        data[0] |= flags
+        return data
+
+
 class CreationTimeSubpacket(SignatureSubpacket):
 
     @classmethod
@@ -370,13 +386,17 @@ class PreferredCompressionAlgorithmsSubpacket(
         self.preferred_algorithms = preferred_algorithms
 
 
-class KeyServerPreferencesSubpacket(SignatureSubpacket):
+class KeyServerPreferencesSubpacket(FlagsSubpacket):
+
+    known_flags = 0x80
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         no_modify = bool(sub_data[0] & 0x80)
-        return cls(critical, no_modify)
+        result = cls(critical, no_modify)
+        result._keep_other_flags(sub_data)
+        return result
 
     def __init__(self, critical, no_modify):
         SignatureSubpacket.__init__(self,
@@ -385,7 +405,7 @@ class KeyServerPreferencesSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray([0x80 if self.no_modify else 0x00])
+        return self._with_other_flags(0x80 if self.no_modify else 0x00)
 
 
 class PreferredKeyServerSubpacket(SignatureSubpacket):
@@ -432,7 +452,9 @@ class PolicyURISubpacket(PreferredKeyServerSubpacket):
         self.uri = uri
 
 
-class KeyFlagsSubpacket(SignatureSubpacket):
+class KeyFlagsSubpacket(FlagsSubpacket):
+
+    known_flags = 0xbf
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
@@ -445,10 +467,12 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         may_be_used_for_auth = bool(known_flags & 0x20)
         may_have_been_split = bool(known_flags & 0x10)
         may_have_multiple_owners = bool(known_flags & 0x80)
-        return cls(critical, may_certify_others, may_sign_data,
-                   may_encrypt_comms, may_encrypt_storage,
-                   may_be_used_for_auth, may_have_been_split,
-                   may_have_multiple_owners)
+        result = cls(critical, may_certify_others, may_sign_data,
+                     may_encrypt_comms, may_encrypt_storage,
+                     may_be_used_for_auth, may_have_been_split,
+                     may_have_multiple_owners)
+        result._keep_other_flags(sub_data)
+        return result
 
     def __init__(self, critical, may_certify_others=True, may_sign_data=True,
                  may_encrypt_comms=True, may_encrypt_storage=True,
@@ -466,7 +490,7 @@ class KeyFlagsSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        data = bytearray([
+        data = self._with_other_flags(
             (0x01 if self.may_certify_others else 0x00) +
             (0x02 if self.may_sign_data else 0x00) +
             (0x04 if self.may_encrypt_comms else 0x00) +
@@ -474,7 +498,7 @@ class KeyFlagsSubpacket(SignatureSubpacket):
             (0x10 if self.may_have_been_split else 0x00) +
             (0x20 if self.may_be_used_for_auth else 0x00) +
             (0x80 if self.may_have_multiple_owners else 0x00)
-            ])
+            )
         return data
 
 
@@ -519,13 +543,17 @@ class RevocationReasonSubpacket(SignatureSubpacket):
         return data
 
 
-class FeaturesSubpacket(SignatureSubpacket):
+class FeaturesSubpacket(FlagsSubpacket):
+
+    known_flags = 0x01
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         supports_modification_detection = sub_data[0] & 0x01
-        return cls(critical, supports_modification_detection)
+        result = cls(critical, supports_modification_detection)
+        result._keep_other_flags(sub_data)
+        return result
 
     def __init__(self, critical, supports_modification_detection):
         SignatureSubpacket.__init__(
@@ -534,10 +562,9 @@ class FeaturesSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        data = bytearray([
-                        0x01 if self.supports_modification_detection else 0x00
-                        ])
-        return data
+        return self._with_other_flags(
+                    0x01 if self.supports_modification_detection else 0x00
+                    )
 
 
 class TargetSubpacket(SignatureSubpacket):
-- 
2.43.0


From d0eae2418c281c94f9578b825d7a8a123ffad4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 020/171] fix: keep octets of user IDs and other text that are
 not UTF-8

They were replaced on parsing, so what signatures cover could not be
reproduced and the packet was not written back as it was read.
---
 pgp/packets/packets.py              |  8 ++++----
 pgp/packets/signature_subpackets.py | 29 ++++++++++++++++-------------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 4c049fb..b4779b0 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1252,7 +1252,7 @@ class LiteralDataPacket(Packet):
         filename = data[offset:offset + filename_length]
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = filename.decode('utf8', 'replace')
+        filename = filename.decode('utf8', 'surrogateescape')
         offset += filename_length
         time = utils.long_to_int(data, offset)
         offset += 4
@@ -1304,7 +1304,7 @@ class LiteralDataPacket(Packet):
         data = bytearray(self.data_format)
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = self.filename.encode('utf8', 'replace')
+        filename = self.filename.encode('utf8', 'surrogateescape')
         data.append(len(filename))
         data.extend(filename)
         timestamp = self.time
@@ -1372,7 +1372,7 @@ class UserIDPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        result = cls(header_format, data.decode('utf8', 'replace'))
+        result = cls(header_format, data.decode('utf8', 'surrogateescape'))
         result._content = data
         return result
 
@@ -1393,7 +1393,7 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        return self.user_id.encode('utf8', 'surrogateescape')
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6a08f20..a6948c1 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -152,7 +152,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         assert sub_data[-1] == 0
-        pattern = sub_data[:-1].decode('ascii', 'replace')
+        pattern = sub_data[:-1].decode('ascii', 'surrogateescape')
         return cls(critical, pattern)
 
     def __init__(self, critical, pattern):
@@ -162,7 +162,8 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
+        return bytearray(
+            self.pattern.encode('ascii', 'surrogateescape') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
@@ -331,11 +332,11 @@ class NotationSubpacket(SignatureSubpacket):
         offset += value_length
         assert offset == len(sub_data)
 
-        name_and_namespace = raw_name.decode('utf8', 'replace')
+        name_and_namespace = raw_name.decode('utf8', 'surrogateescape')
         name, namespace = (name_and_namespace.split('@', 1) + [None])[:2]
 
         if human_readable:
-            value = value.decode('utf8', 'replace')
+            value = value.decode('utf8', 'surrogateescape')
 
         return cls(critical, name, namespace, human_readable, value)
 
@@ -349,12 +350,13 @@ class NotationSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        raw_name = self.name.encode('utf8', 'replace')
+        raw_name = self.name.encode('utf8', 'surrogateescape')
         if self.namespace:
-            raw_name += b'@' + self.namespace.encode('utf8', 'replace')
+            raw_name += b'@' + self.namespace.encode('utf8',
+                                                     'surrogateescape')
         raw_value = self.value
         if self.human_readable:
-            raw_value = raw_value.encode('utf8', 'replace')
+            raw_value = raw_value.encode('utf8', 'surrogateescape')
         data = bytearray([0x80 if self.human_readable else 0, 0, 0, 0])
         data.extend(utils.int_to_2byte(len(raw_name)))
         data.extend(utils.int_to_2byte(len(raw_value)))
@@ -413,7 +415,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
-        uri = sub_data.decode('utf8', 'replace')
+        uri = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, uri)
 
     def __init__(self, critical, uri):
@@ -423,7 +425,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.uri.encode('utf8', 'replace'))
+        return bytearray(self.uri.encode('utf8', 'surrogateescape'))
 
 
 class PrimaryUserIDSubpacket(SignatureSubpacket):
@@ -506,7 +508,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        user_id = sub_data.decode('utf8')
+        user_id = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, user_id)
 
     def __init__(self, critical, user_id):
@@ -516,7 +518,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.user_id.encode('utf8', 'replace'))
+        return bytearray(self.user_id.encode('utf8', 'surrogateescape'))
 
 
 class RevocationReasonSubpacket(SignatureSubpacket):
@@ -524,7 +526,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         revocation_code = sub_data[0]
-        revocation_reason = sub_data[1:].decode('utf8', 'replace')
+        revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
     def __init__(self, critical, revocation_code, revocation_reason):
@@ -538,7 +540,8 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     def content(self):
         data = bytearray([self.revocation_code])
         data += bytearray(
-                        self.revocation_reason.encode('utf8', 'replace')
+                        self.revocation_reason.encode('utf8',
+                                                      'surrogateescape')
                     )
         return data
 
-- 
2.43.0


From 21584b4bc94818a1d660c5b83cdb102f92fba38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 021/171] fix: keep the at sign of notation names with an empty
 namespace

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index a6948c1..feb159f 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -351,7 +351,7 @@ class NotationSubpacket(SignatureSubpacket):
     @property
     def content(self):
         raw_name = self.name.encode('utf8', 'surrogateescape')
-        if self.namespace:
+        if self.namespace is not None:
             raw_name += b'@' + self.namespace.encode('utf8',
                                                      'surrogateescape')
         raw_value = self.value
-- 
2.43.0


From 244f85259d831a222409248a9067cdb9a2f91b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 022/171] fix: verify the checksum of secret keys

The checksum of a v4 key was decrypted twice, so keys protected by a
checksum rather than a hash could not be unlocked.
---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b4779b0..b267726 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1047,7 +1047,7 @@ class SecretKeyPacket(PublicKeyPacket):
                 # With V4 keys, the checksum is encrypted like the
                 # algorithm-specific data.
                 expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
+                        decrypted_data, data_length
                     )
             actual_checksum = sum(decrypted_data[:-2]) & 0xffff
             if actual_checksum != expected_checksum:
-- 
2.43.0


From 220a27279601b34127c746ea4643a2b9ef8cb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 023/171] fix: unlock v3 secret keys with a checksum

---
 pgp/packets/packets.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b267726..dc53832 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1026,7 +1026,9 @@ class SecretKeyPacket(PublicKeyPacket):
                         syncable=True)
             offset = 0
             decrypted_data = bytearray()
-            while offset < len(encrypted_data):
+            # The checksum of V3 keys is not encrypted.
+            mpis_end = len(encrypted_data) - (2 if checksum else 0)
+            while offset < mpis_end:
                 cipher.sync()
                 decrypted_data.extend(
                         encrypted_data[offset:offset + 2])
@@ -1035,20 +1037,20 @@ class SecretKeyPacket(PublicKeyPacket):
                 encrypted_mpi_content = \
                     encrypted_data[offset:offset + mpi_length]
                 offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
+                mpi_content = cipher.decrypt(bytes(encrypted_mpi_content))
                 decrypted_data.extend(mpi_content)
+            decrypted_data.extend(encrypted_data[mpis_end:])
         else:
             raise ValueError
 
         data_length = len(decrypted_data)
         if checksum:
             data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        decrypted_data, data_length
-                    )
+            # With V4 keys, the checksum is encrypted like the
+            # algorithm-specific data.
+            expected_checksum = utils.short_to_int(
+                    decrypted_data, data_length
+                )
             actual_checksum = sum(decrypted_data[:-2]) & 0xffff
             if actual_checksum != expected_checksum:
                 raise ValueError
-- 
2.43.0


From 2ce287168972d2656306e255e5545fcbe9ca20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 024/171] fix: read secret keys that are not protected by a
 passphrase

---
 pgp/packets/packets.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index dc53832..e431d0a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -857,6 +857,7 @@ class SecretKeyPacket(PublicKeyPacket):
         s2k_usage = int(data[offset])
         offset += 1
         s2k_specification = None
+        iv = bytearray()
         if s2k_usage == 0:
             # not encrypted
             symmetric_algorithm = 0
@@ -901,7 +902,9 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
+            raise ValueError
+        if s2k_specification is None and symmetric_algorithm != 0:
             raise ValueError
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
@@ -1006,7 +1009,10 @@ class SecretKeyPacket(PublicKeyPacket):
 
         sym_block_size = utils.symmetric_cipher_block_lengths.get(
             symmetric_algorithm, 8)
-        if version >= 4:
+        if symmetric_algorithm == 0:
+            # not encrypted
+            decrypted_data = bytearray(encrypted_data)
+        elif version >= 4:
             cipher = utils.get_symmetric_cipher(
                         symmetric_algorithm, key, utils.CFB, iv)
             padding = bytearray([0x00] * (
@@ -1122,7 +1128,9 @@ class SecretSubkeyPacket(SecretKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
+            raise ValueError
+        if s2k_specification is None and symmetric_algorithm != 0:
             raise ValueError
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
-- 
2.43.0


From 4da39ae1e5c1378110e2ad8ed25f7a9276553c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 025/171] fix: read and write GnuPG's secret key stubs

---
 pgp/packets/packets.py |  8 ++++----
 pgp/s2k.py             | 11 +++++------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index e431d0a..aded1ec 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -869,8 +869,9 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             symmetric_algorithm = s2k_usage
 
-        # 101 is GnuPG's dummy & smartcard mode
-        if s2k_usage not in (0, 101):
+        # GnuPG's dummy & smartcard modes have no IV
+        if s2k_usage != 0 and not isinstance(s2k_specification,
+                                             s2k.GnuPGS2K):
             block_length = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm, None)
             if block_length is None:
@@ -1088,8 +1089,7 @@ class SecretKeyPacket(PublicKeyPacket):
         data.append(self.symmetric_algorithm)
         if self.s2k_specification is not None:
             data.extend(bytes(self.s2k_specification))
-        if self.symmetric_algorithm != 0:
-            data.extend(self.iv)
+        data.extend(self.iv)
         if self.encrypted_portion:
             data.extend(self.encrypted_portion)
         else:
diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..e10fc3b 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -161,7 +161,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(data, offset,
+                                                   serial_len * 2)
             offset += serial_len
         else:
             raise ValueError(
@@ -191,11 +192,9 @@ class GnuPGS2K(SimpleS2K):
         pass
 
     def __bytes__(self):
-        result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
-                [self.mode - 1000]
-                )
+        result = bytearray([101, self.hash_algorithm])
+        result.extend(b'GNU')
+        result.append(self.mode - 1000)
         if self.mode == 1002 and self.serial_number is not None:
             result.append(self.serial_number_length)
             result.extend(utils.hex_to_bytes(self.serial_number,
-- 
2.43.0


From f9df5fefbeb6e58be97da4151b9a5ebbda2d6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 026/171] fix: keep the second octet of trust packets

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index aded1ec..dbbedd0 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1341,9 +1341,9 @@ class TrustPacket(Packet):
         # GnuPG
         trust_value = int(data[0])
         sig_cache = None
-        if not trust_value and len(data) == 2:
+        if len(data) >= 2:
             sig_cache = int(data[1])
-            if sig_cache & 0x80:
+            if not trust_value and sig_cache & 0x80:
                 raise ValueError
 
         result = cls(header_format, trust_value, sig_cache)
-- 
2.43.0


From 13e88c8b0a657ea7fe9e001bce81708be6d350b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 027/171] fix: keep octets of comments that are not UTF-8

---
 pgp/packets/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index dbbedd0..8d31be0 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1424,7 +1424,7 @@ class OldCommentPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        comment = data.decode('utf8')
+        comment = data.decode('utf8', 'surrogateescape')
         result = cls(header_format, comment)
         result._content = data
         return result
@@ -1444,7 +1444,7 @@ class OldCommentPacket(Packet):
     def content(self):
         warnings.warn("The comment packet type, 16, only appears in an "
                       "OpenPGP draft.")
-        return self.comment.encode('utf8')
+        return self.comment.encode('utf8', 'surrogateescape')
 
 
 class UserAttributePacket(Packet):
@@ -1556,7 +1556,7 @@ class GpgCommentPacket(OldCommentPacket):
 
     @property
     def content(self):
-        return self.comment.encode('utf8')
+        return self.comment.encode('utf8', 'surrogateescape')
 
 
 class GpgControlPacket(Packet):
-- 
2.43.0


From daf29ec02caedc62edc4f7dd90b19ab625e47cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 028/171] fix: compute the fingerprint of v3 keys

---
 pgp/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 4025df4..e9a9731 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -896,11 +896,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(int_to_bytes(packet.modulus))
+            md5.update(int_to_bytes(packet.exponent))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(int_to_bytes(packet.prime))
+            md5.update(int_to_bytes(packet.group_generator))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From 6c5f1990141a1a11005e0a22bb8678d1020b67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 029/171] fix: take the key ID of v3 key packets from the
 modulus

---
 pgp/packets/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 8d31be0..cee9565 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -822,6 +822,12 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4:
+            # "The Key ID of a V3 key consists of the low 64 bits of the
+            #  public modulus of the RSA key."
+            if self.public_key_algorithm in (1, 2, 3):
+                return utils.int_to_hex(self.modulus, 16)
+            return utils.int_to_hex(self.prime, 16)
         return self.fingerprint[-16:]
 
     @property
-- 
2.43.0


From b35522a9ed6a3839bf9863a89a368c10238a7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 030/171] fix: write GnuPG's secret key stubs without secret
 values

---
 pgp/packets/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index cee9565..2f61a22 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1098,7 +1098,8 @@ class SecretKeyPacket(PublicKeyPacket):
         data.extend(self.iv)
         if self.encrypted_portion:
             data.extend(self.encrypted_portion)
-        else:
+        elif not isinstance(self.s2k_specification, s2k.GnuPGS2K):
+            # GnuPG's dummy & smartcard modes have no secret values
             if self.public_key_algorithm in (1, 2, 3):
                 values = [
                     self.exponent_d,
-- 
2.43.0


From 1f78167c43675f4c1bdfdc0695e2dc4a540dd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 031/171] fix: keep the secret values given to secret subkey
 packets

---
 pgp/packets/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 2f61a22..44e13ba 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1157,6 +1157,12 @@ class SecretSubkeyPacket(SecretKeyPacket):
         self.encrypted_portion = encrypted_portion
         self.checksum = checksum
         self.hash = hash_
+        self.passphrase = passphrase
+        self.exponent_d = exponent_d
+        self.prime_p = prime_p
+        self.prime_q = prime_q
+        self.multiplicative_inverse_u = multiplicative_inverse_u
+        self.exponent_x = exponent_x
 
 
 class CompressedDataPacket(Packet):
-- 
2.43.0


From 05db19a1bce279fbef13336f9ec3d6c51baec4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 032/171] fix: unlock v3 secret keys whose values are not whole
 cipher blocks

---
 pgp/packets/packets.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 44e13ba..9375b9a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1034,15 +1034,11 @@ class SecretKeyPacket(PublicKeyPacket):
             #  beginning of each new MPI value, so that the CFB block boundary
             #  is aligned with the start of the MPI data."
 
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
             offset = 0
             decrypted_data = bytearray()
             # The checksum of V3 keys is not encrypted.
             mpis_end = len(encrypted_data) - (2 if checksum else 0)
             while offset < mpis_end:
-                cipher.sync()
                 decrypted_data.extend(
                         encrypted_data[offset:offset + 2])
                 mpi_length = utils.mpi_length(encrypted_data, offset)
@@ -1050,8 +1046,15 @@ class SecretKeyPacket(PublicKeyPacket):
                 encrypted_mpi_content = \
                     encrypted_data[offset:offset + mpi_length]
                 offset += mpi_length
-                mpi_content = cipher.decrypt(bytes(encrypted_mpi_content))
-                decrypted_data.extend(mpi_content)
+                cipher = utils.get_symmetric_cipher(
+                            symmetric_algorithm, key, utils.CFB, iv)
+                padding = bytearray([0x00] * (
+                    sym_block_size - (mpi_length % sym_block_size)))
+                decrypted_data.extend(cipher.decrypt(
+                    bytes(encrypted_mpi_content + padding)
+                    )[:-len(padding)])
+                # Resynchronize on the last block of ciphertext
+                iv = (iv + encrypted_mpi_content)[-sym_block_size:]
             decrypted_data.extend(encrypted_data[mpis_end:])
         else:
             raise ValueError
-- 
2.43.0


From f92b6f157925e769f1ab5d10f2b8205a3379cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 033/171] fix: protect the values of secret key packets the way
 they are unprotected

---
 pgp/packets/packets.py | 64 ++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9375b9a..9ece9d2 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,7 +14,6 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
-import math
 import os
 import time
 import warnings
@@ -973,40 +972,49 @@ class SecretKeyPacket(PublicKeyPacket):
     def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
                            iv, checksum=False, hash_=False):
 
-        cipher = utils.get_symmetric_cipher(
-                    symmetric_algorithm, key, utils.OPENPGP, iv,
-                    syncable=True)
+        sym_block_size = utils.symmetric_cipher_block_lengths.get(
+            symmetric_algorithm, 8)
+
+        def encrypt(data, iv):
+            if symmetric_algorithm == 0:
+                # not encrypted
+                return data
+            cipher = utils.get_symmetric_cipher(
+                        symmetric_algorithm, key, utils.CFB, iv)
+            padding = bytearray([0x00] * (
+                sym_block_size - (len(data) % sym_block_size)))
+            return bytearray(
+                cipher.encrypt(bytes(data + padding))[:-len(padding)])
 
         unencrypted_data = bytearray()
         for value in values:
             unencrypted_data.extend(utils.int_to_mpi(value))
 
+        trailer = bytearray()
+        if checksum:
+            trailer.extend(
+                utils.int_to_2byte(sum(unencrypted_data) & 0xffff))
+        if hash_:
+            trailer.extend(SHA.new(unencrypted_data).digest())
+
         if version >= 4:
-            encrypted_data = cipher.encrypt(unencrypted_data)
+            encrypted_data = encrypt(unencrypted_data + trailer, iv)
         elif version in (2, 3):
+            # The MPI bit count prefixes and the checksum are not encrypted
             encrypted_data = bytearray()
-            for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-                bytes_required = int(math.ceil(bits_required / 8.0))
-                encrypted_data.extend(utils.int_to_2byte(bytes_required))
-                cipher.sync()
-                mpi_value_bytes = utils.int_to_bytes(i)
-                if len(mpi_value_bytes) < bytes_required:
-                    mpi_value_bytes = bytearray(
-                            [0] * (bytes_required - len(mpi_value_bytes))
-                        ) + mpi_value_bytes
-                encrypted_data.extend(cipher.encrypt(mpi_value_bytes))
-
-        if checksum:
-            checksum = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
-            if version >= 4:
-                encrypted_data.extend(cipher.encrypt(checksum))
-            else:
-                encrypted_data.extend(checksum)
+            for value in values:
+                mpi = utils.int_to_mpi(value)
+                encrypted_mpi_content = encrypt(mpi[2:], iv)
+                encrypted_data.extend(mpi[:2])
+                encrypted_data.extend(encrypted_mpi_content)
+                # Resynchronize on the last block of ciphertext
+                if symmetric_algorithm != 0:
+                    iv = (bytearray(iv) +
+                          encrypted_mpi_content)[-sym_block_size:]
+            encrypted_data.extend(trailer)
+        else:
+            raise ValueError
 
-        if hash_:
-            hash_ = SHA.new(unencrypted_data).digest()
-            encrypted_data.extend(cipher.encrypt(hash_))
         return encrypted_data
 
     @classmethod
@@ -1054,7 +1062,8 @@ class SecretKeyPacket(PublicKeyPacket):
                     bytes(encrypted_mpi_content + padding)
                     )[:-len(padding)])
                 # Resynchronize on the last block of ciphertext
-                iv = (iv + encrypted_mpi_content)[-sym_block_size:]
+                iv = (bytearray(iv) +
+                      encrypted_mpi_content)[-sym_block_size:]
             decrypted_data.extend(encrypted_data[mpis_end:])
         else:
             raise ValueError
@@ -1089,6 +1098,7 @@ class SecretKeyPacket(PublicKeyPacket):
     @property
     def content(self):
         data = PublicKeyPacket.content.__get__(self)
+        s2k_usage = self.symmetric_algorithm
         if self.s2k_specification is not None:
             if self.checksum:
                 s2k_usage = 255
-- 
2.43.0


From eed483670ac25fa80d1ce2e207fe10268c1e8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 034/171] fix: read secret keys protected with the MD5 hash of
 a passphrase

---
 pgp/packets/packets.py    | 31 ++++++++++++++++---------------
 pgp/transferrable_keys.py | 14 ++++++++++----
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9ece9d2..fea74fd 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -885,14 +885,11 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
+        if s2k_usage == 254:
             hash_ = True
             checksum = False
         else:
-            checksum = False
+            checksum = True
             hash_ = False
 
         values += (s2k_specification, symmetric_algorithm, iv,
@@ -910,7 +907,7 @@ class SecretKeyPacket(PublicKeyPacket):
 
         if None in (iv, encrypted_portion):
             raise ValueError
-        if s2k_specification is None and symmetric_algorithm != 0:
+        if s2k_specification is None and symmetric_algorithm is None:
             raise ValueError
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
@@ -947,11 +944,18 @@ class SecretKeyPacket(PublicKeyPacket):
             and self.hash == other.hash
             )
 
+    def _get_key(self, passphrase):
+        if self.symmetric_algorithm == 0:
+            # not encrypted
+            return None
+        s2k_specification = self.s2k_specification
+        if s2k_specification is None:
+            # The session key is the MD5 hash of the passphrase
+            s2k_specification = s2k.SimpleS2K(1, self.symmetric_algorithm)
+        return s2k_specification.to_key(passphrase)
+
     def decrypt(self, passphrase):
-        if self.s2k_specification is not None:
-            key = self.s2k_specification.to_key(passphrase)
-        else:
-            key = passphrase
+        key = self._get_key(passphrase)
         values = self.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
@@ -1125,10 +1129,7 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 raise ValueError
 
-            if self.s2k_specification is not None:
-                key = self.s2k_specification.to_key(self.passphrase)
-            else:
-                key = self.passphrase
+            key = self._get_key(self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
                         self.iv, s2k_usage in (0, 255), s2k_usage == 254)
@@ -1150,7 +1151,7 @@ class SecretSubkeyPacket(SecretKeyPacket):
 
         if None in (iv, encrypted_portion):
             raise ValueError
-        if s2k_specification is None and symmetric_algorithm != 0:
+        if s2k_specification is None and symmetric_algorithm is None:
             raise ValueError
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..f4b97e4 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -27,6 +27,7 @@ from zope.interface import provider
 
 from pgp import interfaces
 from pgp import exceptions
+from pgp import s2k
 from pgp.packets import constants as C
 from pgp.packets import packets
 from pgp.packets import signature_subpackets
@@ -568,11 +569,16 @@ class BaseSecretKey(BasePublicKey):
         return sig
 
     def unlock(self, passphrase):
-        if self.s2k_specification is not None:
-            # TODO: Check encoding
-            key = self.s2k_specification.to_key(passphrase.encode('utf8'))
+        if self.symmetric_algorithm == 0:
+            # not encrypted
+            key = None
         else:
-            key = passphrase
+            s2k_specification = self.s2k_specification
+            if s2k_specification is None:
+                # The session key is the MD5 hash of the passphrase
+                s2k_specification = s2k.SimpleS2K(1, self.symmetric_algorithm)
+            # TODO: Check encoding
+            key = s2k_specification.to_key(passphrase.encode('utf8'))
 
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
-- 
2.43.0


From 7e0fc21e6f0f9907d4b57a4f6f995045cb20450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 035/171] fix: hash the whole of long passphrases

---
 pgp/s2k.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index e10fc3b..160f314 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -49,7 +49,11 @@ class SimpleS2K(object):
         # Length of content hashed on each iteration
         len2 = len(passphrase) + 8
         count = self.count
-        if count is None:
+        if count is None or count < len2:
+            # "The one exception is that if the octet count is less than the
+            #  size of the salt plus passphrase, the full salt plus passphrase
+            #  will be hashed even though that is greater than the octet
+            #  count."
             count = len2
 
         while (pass_ * hash_length) < required_length:
-- 
2.43.0


From ce9772ce2b79d5152b0d2b186ba8a5baf62565da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 036/171] fix: use 256-bit keys for Twofish

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index e9a9731..db73544 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -86,7 +86,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From c4114f1cc7b6265777e9d5d205209cbc4523dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 037/171] fix: read the whole of passphrase-encrypted session
 keys

---
 pgp/packets/packets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index fea74fd..f4fbc1a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -541,11 +541,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The session key may be for another algorithm, with keys of another
+        # length, than the one it is encrypted with.
+        encrypted_session_key = data[offset:]
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
-- 
2.43.0


From abb7e4104122fa70ff375a6c6fd80b56eefea5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 038/171] fix: encrypt session keys with a passphrase and
 another cipher than the data

---
 pgp/message.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..5a5f30a 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -261,7 +261,8 @@ class SymmetricSessionKey(object):
             passphrase = passphrase.encode('utf8')
 
         return PacketCls._get_key_and_cipher_algo(
-                    self.s2k_specification, self.symmetric_algorithm,
+                    self.s2k_specification,
+                    self.s2k_specification.symmetric_algorithm,
                     passphrase, self.encrypted_key)
 
     def set_session_key(self, passphrase, session_key=None):
@@ -293,7 +294,7 @@ class SymmetricSessionKey(object):
         return packets.SymmetricKeyEncryptedSessionKeyPacket(
             header_format,
             4,  # "The only currently defined version is 4."
-            self.symmetric_algorithm,
+            self.s2k_specification.symmetric_algorithm,
             self.s2k_specification,
             self.encrypted_key
             )
-- 
2.43.0


From f2bffcf1079e4cfb6f7a7476b2cce51a95266a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 039/171] fix: use a random exponent for ElGamal encryption

---
 pgp/packets/packets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index f4fbc1a..30903b9 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -21,6 +21,7 @@ import warnings
 from Crypto import Random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
+from Crypto.Random import random
 
 from pgp.packets import constants
 from pgp.packets.signature_subpackets import signature_subpacket_from_data
@@ -61,7 +62,10 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        # The exponent must be random & secret: with a known exponent, anyone
+        # can recover the message.
+        m = self._key.encrypt(em, random.StrongRandom().randint(
+                1, int(self._key.p) - 2))
         # Skip step 3c (I2OSP)
         # ...
         return m
-- 
2.43.0


From 9b5458fbc60be54efdb5d76902839c7f0bf20f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 040/171] fix: decrypt RSA session keys with leading zeroes

---
 pgp/packets/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 30903b9..977eed9 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -222,8 +222,9 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             ems.append(bytes(em))
 
         if len(ems) == 1:
-            # RSA takes a single argument.
-            em = ems[0]
+            # RSA takes a single argument, as long as the modulus. Leading
+            # zeroes are not part of an MPI.
+            em = ems[0].rjust((secret_key_obj.size() + 8) // 8, b'\x00')
         else:
             # ElGamal takes a 2-tuple.
             em = tuple(ems)
-- 
2.43.0


From 1e4156b67bb38f10046d17fc89d5aaa01153eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 041/171] fix: verify RSA signatures with leading zeroes

---
 pgp/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index db73544..fb7ab8f 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -129,7 +129,10 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        # The signature is as long as the modulus. Leading zeroes are not part
+        # of an MPI.
+        s = long_to_bytes(values[0]).rjust((public_key.size() + 8) // 8,
+                                           b'\x00')
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
-- 
2.43.0


From 2cfd537bfec8760e36e903981628488c4fd1a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 042/171] fix: count the bits of the DSA group order exactly

---
 pgp/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index fb7ab8f..f0b583e 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -114,8 +114,7 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
+        qbytes = (int(q).bit_length() + 7) // 8
         if k is None:
             k = random.StrongRandom().randint(1, q - 1)
 
@@ -143,8 +142,7 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
     elif pub_algorithm_type == 17:
         # DSA
         q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
+        qbytes = (int(q).bit_length() + 7) // 8
 
         digest = hash_.digest()
         # Discard empty leading bytes
-- 
2.43.0


From 935c0b07b42cda8535e83269e6648a69f20ea00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 043/171] fix: encrypt and decrypt data that is not integrity
 protected

---
 pgp/message.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 5a5f30a..694b603 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -402,8 +402,11 @@ class SymmetricallyEncryptedMessageData(object):
         version = None
         if integrity_protected:
             version = packet.version
+            encrypted_data = packet.encrypted_data
+        else:
+            encrypted_data = packet.data
         return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data=encrypted_data,
             integrity_protected=integrity_protected,
             version=version
             )
@@ -428,16 +431,20 @@ class SymmetricallyEncryptedMessageData(object):
             )
         padding = 0
         if not self.integrity_protected:
-            padding = block_len - len(message) % block_len
-            message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
+            prefix = iv + iv[-2:] + b'\x00' * (block_len - 2)
+            data.extend(cipher.encrypt(prefix)[:block_len + 2])
+            # "After encrypting the first block-size-plus-two octets, the CFB
+            #  state is resynchronized.  The last block-size octets of
+            #  ciphertext are passed through the cipher".
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
                 utils.CFB,
-                iv
+                data[2:]
                 )
-            data.extend(cipher.encrypt(message))
+            padding = block_len - len(message) % block_len
+            message = message + b'\x00' * padding
+            data.extend(cipher.encrypt(message)[:-padding])
         else:
             padding = block_len - (len(message) + 2 + 22) % block_len
             data.extend(cipher.encrypt(iv))
@@ -476,16 +483,23 @@ class SymmetricallyEncryptedMessageData(object):
                 raise ValueError()
 
             decrypted_data.extend(first_block[2:])
-
-            # Pad the remaining data manually
-            padding = block_len - (len(encrypted_data) - offset) % block_len
-            encrypted_data += b'\x00' * padding
         else:
+            offset += block_len + 2
+            iv_check = cipher.decrypt(
+                encrypted_iv[block_len:] + b'\x00' * (block_len - 2))[:2]
+            if iv_check != decrypted_iv[-2:]:
+                raise ValueError()
+
+            # Resynchronize
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
-                utils.OPENPGP,
-                encrypted_iv)
+                utils.CFB,
+                encrypted_iv[2:])
+
+        # Pad the remaining data manually
+        padding = block_len - (len(encrypted_data) - offset) % block_len
+        encrypted_data += b'\x00' * padding
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
         decrypted_data = decrypted_data[:-padding]
-- 
2.43.0


From 34d92389ca54e73b24fa683b5edbd26bb6cd0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 044/171] fix: check the integrity of a message before reading
 it, and only of protected ones

---
 pgp/message.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 694b603..0cd22ce 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -503,40 +503,28 @@ class SymmetricallyEncryptedMessageData(object):
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
         decrypted_data = decrypted_data[:-padding]
-        # We run into trouble here with partial body lengths and the MDC.
-        # Let's make pretend.
-        mdc_data = bytearray()
-        main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
-            # It's there. Hold it back.
-            mdc_data = decrypted_data[-22:]
-            main_data = decrypted_data[:-22]
-        data_len = len(main_data)
-        offset = 0
-        decrypted_packets = []
-        while offset < data_len:
-            offset, packet = packets.packet_from_packet_data(main_data, offset)
-            decrypted_packets.append(packet)
-
-        if mdc_data:
-            # One more for the MDC
-            offset, packet = packets.packet_from_packet_data(mdc_data, 0)
-            decrypted_packets.append(packet)
-
         if self.integrity_protected:
-            if (decrypted_packets[-1].type !=
-                    C.MODIFICATION_DETECTION_CODE_PACKET_TYPE):
+            # Nothing of a message that was modified may be interpreted.
+            if decrypted_data[-22:-20] != b'\xd3\x14':
                 raise ValueError(
                     'Integrity protected message is missing modification '
                     'detection code.')
-            mdc = decrypted_packets.pop()
             hash_ = SHA.new(decrypted_iv)
             hash_.update(decrypted_iv[-2:])
             hash_.update(decrypted_data[:-20])
-            if mdc.data != hash_.digest():
+            if decrypted_data[-20:] != hash_.digest():
                 raise ValueError(
                     'Integrity protected message does not match modification '
                     'detection code.')
+            decrypted_data = decrypted_data[:-22]
+
+        data_len = len(decrypted_data)
+        offset = 0
+        decrypted_packets = []
+        while offset < data_len:
+            offset, packet = packets.packet_from_packet_data(decrypted_data,
+                                                             offset)
+            decrypted_packets.append(packet)
 
         return open_pgp_message_from_packets(decrypted_packets)
 
-- 
2.43.0


From 65866f999a62ceb59a6fd5d4107d4a6cb5ea99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 045/171] fix: encrypt for hidden recipients only

---
 pgp/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 0cd22ce..ef6ddd8 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -67,6 +67,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        if public_keys is None:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
-- 
2.43.0


From 1ef1ec8bd152c7d43ba4cb44aab7632a584af748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 046/171] fix: hide the key ID of hidden recipients

---
 pgp/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index ef6ddd8..e853483 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -342,7 +342,8 @@ class PublicKeySessionKey(object):
         self.key_id = key_id
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
-            self.key_id = public_key.key_id
+            if not hide_key_id:
+                self.key_id = public_key.key_id
         if encrypted_key:
             self.encrypted_key = encrypted_key
         if session_key:
-- 
2.43.0


From 6b089bfb87e02dddcad6a933ff6c84ed479bad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 047/171] fix: try all session keys that fit the passphrase or
 key

---
 pgp/message.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index e853483..e86a8a8 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -351,6 +351,12 @@ class PublicKeySessionKey(object):
                                                symmetric_algorithm,
                                                session_key)
 
+    def is_for_key(self, key):
+        if self.key_id is None:
+            # Hidden recipient
+            return key.public_key_algorithm == self.public_key_algorithm
+        return key.key_id == self.key_id
+
     def get_algorithm_and_session_key(self, secret_key):
         if secret_key.is_locked():
             raise RuntimeError('Key must be unlocked.')
@@ -595,28 +601,28 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Symmetrically Encrypted Integrity Protected Data packet as well as
         #  decompressing a Compressed Data packet must yield a valid OpenPGP
         #  Message."
-        sym_algo = None
-        sess_key = None
+        is_passphrase = isinstance(secret_key_or_passphrase,
+                                   (str, bytes, bytearray))
         for sess_key_obj in self.session_keys:
             if isinstance(sess_key_obj, PublicKeySessionKey):
-                try:
-                    sym_algo, sess_key = \
-                        sess_key_obj.get_algorithm_and_session_key(
-                            secret_key_or_passphrase)
-                except ValueError:
+                if is_passphrase or not sess_key_obj.is_for_key(
+                        secret_key_or_passphrase):
                     continue
-            elif isinstance(sess_key_obj, SymmetricSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
-            elif isinstance(sess_key_obj, DefaultSessionKey):
+            elif not is_passphrase:
+                continue
+
+            # The session key may turn out not to be for this passphrase or
+            # key. If so, another one may be.
+            try:
                 sym_algo, sess_key = \
                     sess_key_obj.get_algorithm_and_session_key(
                         secret_key_or_passphrase)
-            else:
-                # TODO: consider raising an error
+                key_length = utils.symmetric_cipher_key_lengths.get(sym_algo)
+                if not key_length or len(sess_key) != key_length:
+                    continue
+                return self.message_data_obj.decrypt(sym_algo, sess_key)
+            except ValueError:
                 continue
-            return self.message_data_obj.decrypt(sym_algo, sess_key)
 
         # TODO: raise a better error
         raise ValueError()
-- 
2.43.0


From b948c2ec07d7209198967d65e03ae2af86190bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 048/171] fix: decrypt and write messages without a session key
 packet

---
 pgp/message.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index e86a8a8..aab77b3 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -386,6 +386,8 @@ class DefaultSessionKey(object):
 
     def get_algorithm_and_session_key(self, passphrase):
         hash_ = utils.get_hash_instance(self.key_hash_algorithm)
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         hash_.update(passphrase)
         key = hash_.digest()
         return 1, key
@@ -393,6 +395,10 @@ class DefaultSessionKey(object):
     def set_algorithm_and_session_key(self, *args, **kwargs):
         raise TypeError()
 
+    def to_packet(self, header_format=None):
+        # There is no packet for this session key
+        return None
+
 
 EncryptedSessionKey.register(DefaultSessionKey)
 SymEncAndIPDPacket = \
-- 
2.43.0


From 1d5961699cb88a59846f8ac93325fbf19328a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 049/171] fix: convert line endings of signed text without
 losing characters

---
 pgp/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index aab77b3..4d393e4 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -30,7 +30,7 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
 
 
 class MessageSignature(BaseSignature):
@@ -186,7 +186,7 @@ class TextMessage(LiteralMessage):
     def to_signable_data(self, signature_type, signature_version=3):
         data = self.data.encode('utf8')
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return INCOMPLETE_CRLF.sub(b'\r\n', data)
+            return LINE_ENDING.sub(b'\r\n', data)
         return data
 
 
-- 
2.43.0


From bdf596661567bcb0914cbcc3692dcbd47f7a8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 050/171] fix: convert line endings of binary data signed as
 text

---
 pgp/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index 4d393e4..0bcc04d 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -166,7 +166,10 @@ class LiteralMessage(BaseMessage):
         return [self.to_packet(header_format)]
 
     def to_signable_data(self, signature_type, signature_version=3):
-        return self.data
+        data = self.data
+        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+            return LINE_ENDING.sub(b'\r\n', data)
+        return data
 
 
 class TextMessage(LiteralMessage):
-- 
2.43.0


From 2ffcde460849596e89935a4bf293ff104bfcf23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 051/171] fix: tell the times of the hour repeated after summer
 time apart

---
 pgp/packets/packets.py    |  3 +--
 pgp/signature.py          |  7 +++----
 pgp/transferrable_keys.py |  2 +-
 pgp/utils.py              | 11 +++++++++++
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 977eed9..575ecf3 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -15,7 +15,6 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import os
-import time
 import warnings
 
 from Crypto import Random
@@ -1349,7 +1348,7 @@ class LiteralDataPacket(Packet):
         data.extend(filename)
         timestamp = self.time
         if hasattr(timestamp, 'timetuple'):
-            timestamp = int(time.mktime(timestamp.timetuple()))
+            timestamp = utils.datetime_to_int(timestamp)
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..256cf68 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -16,7 +16,6 @@
 
 import datetime
 import re
-import time
 import weakref
 
 from zope.interface import implementer
@@ -171,7 +170,7 @@ class BaseSignature(object):
                         hashed_subpackets=hashed_subpackets,
                         unhashed_subpackets=unhashed_subpackets)
         elif self.version in (2, 3):
-            creation_time = int(time.mktime(self.creation_time.timetuple()))
+            creation_time = utils.datetime_to_int(self.creation_time)
             packet = packets.SignaturePacket(
                         header_format, self.version, self.signature_type,
                         self.public_key_algorithm, self.hash_algorithm,
@@ -186,7 +185,7 @@ class BaseSignature(object):
         result.append(self.signature_type)
         if self.version < 4:
             result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
+                utils.datetime_to_int(self.creation_time)
             ))
         else:
             result.append(self.public_key_algorithm)
@@ -311,7 +310,7 @@ class BaseSignature(object):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
         exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        value = utils.datetime_to_int(dt)
         if self.version in (2, 3):
             self._creation_time = value
         elif self.version >= 4:
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index f4b97e4..4a19003 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -222,7 +222,7 @@ class BasePublicKey(SignedMixin):
         return result
 
     def _to_packet_args(self, header_format=None):
-        creation_time = int(time.mktime(self.creation_time.timetuple()))
+        creation_time = utils.datetime_to_int(self.creation_time)
         expiration_days = None
         if self.version < 4:
             expiration_time = self.expiration_time
diff --git a/pgp/utils.py b/pgp/utils.py
index f0b583e..4d19d84 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -17,6 +17,7 @@
 import bz2
 import math
 import os
+import time
 import zlib
 
 from Crypto.Cipher import blockalgo
@@ -528,6 +529,16 @@ def hash_packet_for_signature(packet_for_hash,
     return hash_
 
 
+def datetime_to_int(dt):
+    """Return the number of seconds since the epoch of a local time."""
+
+    try:
+        # Tells the hour repeated at the end of summer time apart
+        return int(dt.timestamp())
+    except AttributeError:
+        return int(time.mktime(dt.timetuple()))
+
+
 def bytes_to_int(bytes_, offset, length):
     result = 0
     for i in range(length):
-- 
2.43.0


From b2cbaa05f475340ab170e02ea3acb7f4c1c68b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 052/171] fix: keep the character set of text messages

---
 pgp/message.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0bcc04d..30445c4 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -150,7 +150,11 @@ class LiteralMessage(BaseMessage):
         filename = packet.filename
         timestamp = datetime.datetime.fromtimestamp(packet.time)
         data = packet.data
-        return class_(data, filename, timestamp)
+        result = class_(data, filename, timestamp)
+        if data_format == b't':
+            result.data_format = b't'
+            result.encoding = 'latin-1'
+        return result
 
     @abc.abstractmethod
     def __init__(self, data, filename, timestamp):
@@ -174,12 +178,15 @@ class LiteralMessage(BaseMessage):
 
 class TextMessage(LiteralMessage):
 
+    data_format = b'u'
+    encoding = 'utf8'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'u', self.filename, self.timestamp,
-                    self.data)
+                    header_format, self.data_format, self.filename,
+                    self.timestamp, self.data)
 
     def __init__(self, data, filename, timestamp):
         self.data = data
@@ -187,7 +194,7 @@ class TextMessage(LiteralMessage):
         self.timestamp = timestamp
 
     def to_signable_data(self, signature_type, signature_version=3):
-        data = self.data.encode('utf8')
+        data = self.data.encode(self.encoding)
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
             return LINE_ENDING.sub(b'\r\n', data)
         return data
-- 
2.43.0


From b654666697deca5118804937a43ee41efd411b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 053/171] fix: read and write signatures that precede a message

---
 pgp/message.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 30445c4..9eb9b15 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -667,22 +667,24 @@ class SignedMessageWrapper(BaseMessage):
     @classmethod
     def from_packets(cls, packets):
         one_pass = False
-        signatures = []
+        signature_packets = []
         message = None
         for packet in packets:
             if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
                 one_pass = True
             elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if message:
-                    signature = parse_signature_from_packet(packet, message,
-                                                            one_pass=one_pass)
-                    signatures.append(signature)
-                else:
-                    raise TypeError()
+                # Before the message, or after it in a one-pass message
+                signature_packets.append(packet)
             elif message is None:
                 message = open_pgp_message_from_packets([packet])
             else:
                 raise TypeError()
+        if message is None:
+            raise TypeError()
+        signatures = [
+            parse_signature_from_packet(packet, message, one_pass=one_pass)
+            for packet in signature_packets
+            ]
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -712,9 +714,13 @@ class SignedMessageWrapper(BaseMessage):
                         sig.issuer_key_ids[0],
                         nested=(i != len(self.signatures))
                     ))
-        pkts.extend(self.message.to_packets(header_format))
-        for sig in self.signatures:
-            pkts.append(sig.to_packet(header_format))
+            pkts.extend(self.message.to_packets(header_format))
+            for sig in self.signatures:
+                pkts.append(sig.to_packet(header_format))
+        else:
+            for sig in self.signatures:
+                pkts.append(sig.to_packet(header_format))
+            pkts.extend(self.message.to_packets(header_format))
         return pkts
 
 
-- 
2.43.0


From 4991dd22c91d304cde1def4a8623f0a377f11bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 054/171] fix: announce all signatures of a one-pass message

---
 pgp/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 9eb9b15..d0fec85 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -699,9 +699,9 @@ class SignedMessageWrapper(BaseMessage):
         pkts = []
         op_header_format = header_format
         if self.one_pass:
-            i = 0
-            for sig in self.signatures:
-                i += 1
+            # "the first one-pass signature matches the last signature", and
+            # a nested flag of zero announces another one-pass signature.
+            for sig in reversed(self.signatures):
                 if not header_format:
                     op_header_format = sig.packet_header_type
                 pkts.append(
@@ -712,7 +712,7 @@ class SignedMessageWrapper(BaseMessage):
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
                         sig.issuer_key_ids[0],
-                        nested=(i != len(self.signatures))
+                        nested=int(sig is self.signatures[0])
                     ))
             pkts.extend(self.message.to_packets(header_format))
             for sig in self.signatures:
-- 
2.43.0


From 0c8cea6990816f5b4a58af8a212ca09f2648dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 055/171] fix: compress all of the data given in several parts

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 4d19d84..6db23f7 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -329,7 +329,7 @@ class ZlibCompression(object):
         if self._obj is None:
             self._compress = True
             self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
-- 
2.43.0


From f2d8e8dc64ebc58bb5a3d934dd8fb08e8ebd09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 056/171] fix: decompress BZip2 data

---
 pgp/utils.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 6db23f7..7a10022 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -405,6 +405,35 @@ class DeflateCompression(object):
         return result
 
 
+class Bzip2Compression(object):
+
+    def __init__(self, level):
+        self._obj = None
+        self._compress = None
+        self.level = level
+
+    def compress(self, data):
+        if self._compress is False:
+            raise ValueError
+        if self._obj is None:
+            self._compress = True
+            self._obj = bz2.BZ2Compressor(self.level)
+        return self._obj.compress(data)
+
+    def decompress(self, data):
+        if self._compress is True:
+            raise ValueError
+        if self._obj is None:
+            self._compress = False
+            self._obj = bz2.BZ2Decompressor()
+        return self._obj.decompress(data)
+
+    def flush(self):
+        if self._compress:
+            return self._obj.flush()
+        return b''
+
+
 def get_compression_instance(type_, level=None):
 
     instance = None
@@ -417,7 +446,7 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        instance = Bzip2Compression(level)
 
     return instance
 
-- 
2.43.0


From 7ee1d8077548eba5f4a5bfd3841e2903b6f4ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 057/171] fix: ignore marker packets in messages

---
 pgp/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index d0fec85..abb1e3d 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -763,7 +763,9 @@ class CompressedMessageWrapper(BaseMessage):
 
 
 def open_pgp_message_from_packets(pkts):
-    pkts = collections.deque(pkts)
+    # "Such a packet MUST be ignored when received."
+    pkts = collections.deque(
+        p for p in pkts if p.type != C.MARKER_PACKET_TYPE)
     packet = pkts.popleft()
     if packet.type in encrypted_message_packet_types:
         pkts.appendleft(packet)
-- 
2.43.0


From f3b671a462ccc949d17349b805048c12ec250dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 058/171] fix: report packets that do not start a message

---
 pgp/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index abb1e3d..a10f272 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -778,6 +778,8 @@ def open_pgp_message_from_packets(pkts):
         result = CompressedMessageWrapper.from_packet(packet)
     elif packet.type == C.LITERAL_DATA_PACKET_TYPE:
         result = LiteralMessage.from_packet(packet)
+    else:
+        raise TypeError(packet)
 
     return result
 
-- 
2.43.0


From f92ba3d10df382028e3b5b1bef02d38611a9db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 059/171] fix: keep unknown armor headers

---
 pgp/armor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..b138dae 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -168,7 +168,7 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset, extra_headers)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
@@ -232,7 +232,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in self.extra_headers.items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From 6ce98eb1cc11583348863721821b878b66cd16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 060/171] fix: do not print the secret exponent of ElGamal
 signatures

---
 pgp/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 7a10022..669dc1d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -108,7 +108,6 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
                 k = random.StrongRandom().randint(1, secret_key.p - 1)
                 if GCD(k, secret_key.p - 1) == 1:
                     break
-            print(k)
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
                             hash_, secret_key.size())
-- 
2.43.0


From b5b86555b72243de7aa830bcb901c79bf206a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 061/171] fix: read and make version 3 signatures

---
 pgp/signature.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 256cf68..1e97747 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -134,8 +134,7 @@ class BaseSignature(object):
         hash2 = packet.hash2
         signature_values = packet.signature_values
         if version in (2, 3):
-            creation_time = datetime.datetime.fromtimestamp(
-                                packet.creation_time)
+            creation_time = packet.creation_time
             issuer_key_id = packet.key_id
             hashed_subpackets = []
             unhashed_subpackets = []
@@ -323,7 +322,7 @@ class BaseSignature(object):
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
@@ -331,8 +330,11 @@ class BaseSignature(object):
 
     def _set_issuer_key_ids(self, key_ids):
         existing = self.issuer_key_ids
-        if self.version in (2, 3) and len(key_ids) != 1:
-            raise ValueError
+        if self.version in (2, 3):
+            if len(key_ids) != 1:
+                raise ValueError
+            self._issuer_key_id = key_ids[0]
+            return
 
         for k in set(key_ids) | set(existing):
             if k in existing and key_ids:
-- 
2.43.0


From 93843178ea3634e20b83614ea895420032e4b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 062/171] fix: remove values left out when a list of a
 signature is set

---
 pgp/signature.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 1e97747..d0064ba 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -337,7 +337,7 @@ class BaseSignature(object):
             return
 
         for k in set(key_ids) | set(existing):
-            if k in existing and key_ids:
+            if k in existing and k in key_ids:
                 continue
             elif k in existing:
                 # Remove
@@ -428,7 +428,7 @@ class BaseSignature(object):
         regexes = [regex.pattern for regex in regexes]
 
         for k in set(regexes) | set(existing):
-            if k in existing and regexes:
+            if k in existing and k in regexes:
                 continue
             elif k in existing:
                 # Remove
@@ -469,7 +469,7 @@ class BaseSignature(object):
         existing = self.notations
 
         for k in set(notations) | set(existing):
-            if k in existing and notations:
+            if k in existing and k in notations:
                 continue
             elif k in existing:
                 # Remove
@@ -532,7 +532,7 @@ class BaseSignature(object):
         existing = self.embedded_signatures
 
         for k in set(embedded_signatures) | set(existing):
-            if k in existing and embedded_signatures:
+            if k in existing and k in embedded_signatures:
                 continue
             elif k in existing:
                 # Remove
@@ -621,7 +621,7 @@ class BaseSignature(object):
         existing = self.revocation_keys
 
         for k in set(revocation_keys) | set(existing):
-            if k in existing and revocation_keys:
+            if k in existing and k in revocation_keys:
                 continue
             elif k in existing:
                 # Remove
-- 
2.43.0


From 3a69dae65193f8f377d77f08a8032916b4fd195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 063/171] fix: read and set the trust depth and amount of
 signatures

---
 pgp/signature.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index d0064ba..a32a236 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -395,24 +395,24 @@ class BaseSignature(object):
     def _get_trust_amount(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount')
+            'amount')
 
     def _set_trust_amount(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            'amount', value)
 
     trust_amount = property(_get_trust_amount, _set_trust_amount)
 
     def _get_trust_depth(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth')
+            'depth')
 
     def _set_trust_depth(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth', value)
+            'depth', value)
 
     trust_depth = property(_get_trust_depth, _set_trust_depth)
 
-- 
2.43.0


From e4d81263c59eac5c66ebfa9413aab1fdcbc69e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 064/171] fix: read and set whether a signature is revocable

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index a32a236..d425a8b 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -456,7 +456,7 @@ class BaseSignature(object):
             C.REVOCABLE_SUBPACKET_TYPE,
             'revocable', value)
 
-    revocable = property(_get_exportable, _set_exportable)
+    revocable = property(_get_revocable, _set_revocable)
 
     def _get_notations(self):
         subpackets = self._get_subpackets(C.NOTATION_SUBPACKET_TYPE)
-- 
2.43.0


From a071ce62dfa1ffa684524803ddb24f0a29cd849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 065/171] fix: read and set the reason of a revocation

---
 pgp/packets/signature_subpackets.py | 2 +-
 pgp/signature.py                    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index feb159f..e8f245a 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -529,7 +529,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
         revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
-    def __init__(self, critical, revocation_code, revocation_reason):
+    def __init__(self, critical, revocation_code=0, revocation_reason=u''):
         SignatureSubpacket.__init__(
                 self, constants.REVOCATION_REASON_SUBPACKET_TYPE, critical)
         assert revocation_code < 256
diff --git a/pgp/signature.py b/pgp/signature.py
index d425a8b..1c82791 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -498,13 +498,13 @@ class BaseSignature(object):
 
     def _get_revocation_reason(self):
         return self._get_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
             'revocation_reason')
 
     def _set_revocation_reason(self, value):
         self._update_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
+            'revocation_reason', value)
 
     revocation_reason = property(_get_revocation_reason,
                                  _set_revocation_reason)
-- 
2.43.0


From 5e7aff1714f6f4a8751c72aeed92bf6dd038e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 066/171] fix: remove critical subpackets when a list of a
 signature is set

---
 pgp/signature.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 1c82791..5fdc5b8 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -536,9 +536,10 @@ class BaseSignature(object):
                 continue
             elif k in existing:
                 # Remove
-                self._remove_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
+                for critical in (False, True):
+                    self._remove_subpacket(
+                        k.to_packet().to_embedded_subpacket(critical)
+                        )
             else:
                 # Add
                 self._add_subpacket(
@@ -625,9 +626,10 @@ class BaseSignature(object):
                 continue
             elif k in existing:
                 # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
+                for critical in (False, True):
+                    self._remove_subpacket(
+                        k.to_subpacket(critical)
+                        )
             else:
                 # Add
                 self._add_subpacket(
-- 
2.43.0


From d97dafdb608962c64593ff7c385b27045130b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 067/171] fix: make version 4 signatures with a creation time
 and an issuer

---
 pgp/signature.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 5fdc5b8..9e62603 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -225,16 +225,18 @@ class BaseSignature(object):
         self.hash_algorithm = hash_algorithm
         self.hash2 = hash2
         self.signature_values = signature_values
+        self.hashed_subpackets = hashed_subpackets or []
+        self.unhashed_subpackets = unhashed_subpackets or []
         if version in (2, 3):
             self._creation_time = creation_time
             self._issuer_key_id = issuer_key_id
         elif version >= 4:
             if creation_time is not None:
-                self._creation_time = creation_time
+                self._update_subpacket_values(
+                    C.CREATION_TIME_SUBPACKET_TYPE,
+                    'time', creation_time)
             if issuer_key_id is not None:
                 self.issuer_key_ids = [issuer_key_id]
-        self.hashed_subpackets = hashed_subpackets or []
-        self.unhashed_subpackets = unhashed_subpackets or []
         if current_time_fn is None:
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
-- 
2.43.0


From 30a576a09dd06f7170e23bda267ad5cc2216a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 068/171] fix: keep the expiration time when the creation time
 of a signature is set

---
 pgp/signature.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 9e62603..93eeec1 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -310,7 +310,9 @@ class BaseSignature(object):
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
+        exp_time = self.signature_expiration_time
+        if exp_time is not None and exp_time <= dt:
+            raise ValueError
         value = utils.datetime_to_int(dt)
         if self.version in (2, 3):
             self._creation_time = value
@@ -318,7 +320,8 @@ class BaseSignature(object):
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
-- 
2.43.0


From 3cb5d393f8bc0787086e37e006839189dc4dbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 069/171] fix: unset the expiration time of a signature, and do
 not set it to never

---
 pgp/signature.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 93eeec1..7ac6f2c 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -372,11 +372,13 @@ class BaseSignature(object):
     def _set_signature_expiration_time(self, dt):
         if dt is None:
             value = 0
-        elif dt < self.creation_time:
-            raise ValueError
         else:
             td = dt - self.creation_time
             value = td.seconds + td.days * 86400
+            # A value of zero would never expire
+            if value <= 0:
+                raise ValueError
+        if value or self.signature_expiration_time is not None:
             self._update_subpacket_values(
                 C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
                 'time', value)
-- 
2.43.0


From 82413b176ca9e7c3e0a9dd5049dd0a818c38b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 070/171] fix: expiration of signatures across the start or end
 of summer time

---
 pgp/signature.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 7ac6f2c..f400b01 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -367,14 +367,15 @@ class BaseSignature(object):
         #  expires."
         if not seconds:
             return None
-        return self.creation_time + datetime.timedelta(seconds=seconds)
+        return datetime.datetime.fromtimestamp(
+            utils.datetime_to_int(self.creation_time) + seconds)
 
     def _set_signature_expiration_time(self, dt):
         if dt is None:
             value = 0
         else:
-            td = dt - self.creation_time
-            value = td.seconds + td.days * 86400
+            value = (utils.datetime_to_int(dt) -
+                     utils.datetime_to_int(self.creation_time))
             # A value of zero would never expire
             if value <= 0:
                 raise ValueError
-- 
2.43.0


From 6b16da6f7221cb2a724be99700b4086bca4a9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 071/171] fix: key expiration time is relative to the creation
 of the key

---
 pgp/signature.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index f400b01..550be13 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -564,12 +564,26 @@ class BaseSignature(object):
         # "If this is not present or has a value of zero, the key never
         #  expires."
         if not seconds:  # 0 or None
-            return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+            return None
+        return datetime.datetime.fromtimestamp(
+            utils.datetime_to_int(self._get_key_creation_time()) + seconds)
+
+    def _get_key_creation_time(self):
+        # The key is what was signed, or what a signed user ID is of.
+        key = self.parent
+        if not hasattr(key, 'public_key_algorithm'):
+            key = key.primary_public_key
+        return key.creation_time
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
-        seconds = delta.days * 86400 + delta.seconds
+        if value is None:
+            seconds = 0
+        else:
+            seconds = (utils.datetime_to_int(value) -
+                       utils.datetime_to_int(self._get_key_creation_time()))
+            # A value of zero would never expire
+            if seconds <= 0:
+                raise ValueError
         self._update_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
             'time', seconds)
-- 
2.43.0


From f333ffad52478137b38b71a8fd852a25e53c9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 072/171] fix: sign text and bytes

---
 pgp/signature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 550be13..8348094 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -217,8 +217,11 @@ class BaseSignature(object):
                  issuer_key_id=None, hashed_subpackets=None,
                  unhashed_subpackets=None, current_time_fn=None):
 
-        if target:
+        try:
             self._target_ref = weakref.ref(target)
+        except TypeError:
+            # Nothing, or data that weak references cannot be made to
+            self._target_ref = lambda: target
         self.version = version
         self.signature_type = signature_type
         self.public_key_algorithm = public_key_algorithm
-- 
2.43.0


From 02cbf4b7d5847b0b062d9482db82c96d38b931fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 073/171] fix: find the explicit target of a signature

---
 pgp/signature.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 8348094..b632e5d 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -836,19 +836,21 @@ class BaseSignature(object):
         # get target subpacket
         subpackets = self._get_subpackets(C.TARGET_SUBPACKET_TYPE)
         for sub in subpackets:
-            expected_digest = sub.hash
-            hash_algorithm = sub.hash_algorithm
-            pub_algorithm = sub.public_key_algorithm
             for sig in parent.signatures:
-                digest = utils.hash_packet_for_signature(
-                    sig.to_packet(), self.signature_type,
-                    self.signature_version,
-                    hash_algorithm,
-                    self.creation_time,
-                    pub_algorithm,
-                    )
-                if digest == expected_digest:
+                if (
+                        sig.public_key_algorithm != sub.public_key_algorithm
+                        or sig.hash_algorithm != sub.hash_algorithm
+                        ):
+                    continue
+                hash_ = utils.get_hash_instance(sig.hash_algorithm)
+                hash_.update(parent.to_signable_data(sig.signature_type,
+                                                     sig.version))
+                hash_.update(sig.to_signable_data(sig.signature_type,
+                                                  sig.version))
+                if hash_.digest() == bytes(sub.hash):
                     return sig
+        if subpackets:
+            return None
 
         # Fallback
         revocable = []
-- 
2.43.0


From a0d9fdc88dde689dec34ece602fdb38530e16521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 074/171] fix: a revocation is of all earlier signatures of its
 issuer, and no later one

---
 pgp/signature.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index b632e5d..c71c909 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -881,10 +881,19 @@ class BaseSignature(object):
             if not self.parent:
                 return None
             for s in self.parent.signatures:
-                if s.revocation and s.target == self:
+                if s.revocation and s._revokes(self):
                     return True
         return False
 
+    def _revokes(self, sig):
+        if self._get_subpackets(C.TARGET_SUBPACKET_TYPE):
+            return self.target == sig
+        # All that the issuer signed before
+        return (
+            bool(set(self.issuer_key_ids) & set(sig.issuer_key_ids))
+            and sig.creation_time <= self.creation_time
+            )
+
     @property
     def issuer_user_name(self):
         if self.issuer_user_id is None:
-- 
2.43.0


From eec1bbad36104740146c0956066ace0a95b82bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 075/171] fix: ignore revocations of signatures that are not
 revocable

---
 pgp/signature.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/signature.py b/pgp/signature.py
index c71c909..bd6bf59 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -880,6 +880,10 @@ class BaseSignature(object):
                 ):
             if not self.parent:
                 return None
+            if self.revocable is False:
+                # "Signatures that are not revocable have any later revocation
+                #  signatures ignored."
+                return False
             for s in self.parent.signatures:
                 if s.revocation and s._revokes(self):
                     return True
-- 
2.43.0


From 56c7f57859add3148cefbad24b5c871092f946a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 076/171] fix: compare the hexadecimal digest of a signature
 target

---
 pgp/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index bd6bf59..d6a9513 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -847,7 +847,8 @@ class BaseSignature(object):
                                                      sig.version))
                 hash_.update(sig.to_signable_data(sig.signature_type,
                                                   sig.version))
-                if hash_.digest() == bytes(sub.hash):
+                digest = utils.bytearray_to_hex(bytearray(hash_.digest()))
+                if digest == sub.hash:
                     return sig
         if subpackets:
             return None
-- 
2.43.0


From c26c496cda63b1609eff279bfbc42b512e02e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 077/171] fix: key flags and features of keys

---
 pgp/transferrable_keys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 4a19003..be62559 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -154,13 +154,13 @@ class SignedMixin(object):
     may_certify_others = __selfsig_attribute('may_certify_others')
     may_sign_data = __selfsig_attribute('may_sign_data')
     may_encrypt_comms = __selfsig_attribute('may_encrypt_comms')
-    may_encrypt_storage = __selfsig_attribute('may_encrypt_comms')
-    may_be_used_for_auth = __selfsig_attribute('may_encrypt_comms')
+    may_encrypt_storage = __selfsig_attribute('may_encrypt_storage')
+    may_be_used_for_auth = __selfsig_attribute('may_be_used_for_auth')
     may_have_been_split = __selfsig_attribute('may_have_been_split')
     may_have_multiple_owners = \
         __selfsig_attribute('may_have_multiple_owners')
     supports_modification_detection = \
-        __selfsig_attribute('may_have_multiple_owners')
+        __selfsig_attribute('supports_modification_detection')
 
     del __selfsig_attribute
 
-- 
2.43.0


From fa20e2fb96dcca636f4df912f1ae64c72c8eb10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 078/171] fix: use the most recent self-signature of a key

---
 pgp/transferrable_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index be62559..d2ff716 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -110,6 +110,7 @@ class SignedMixin(object):
                     ):
                 continue
             if last_signature_created < signature.creation_time:
+                last_signature_created = signature.creation_time
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
-- 
2.43.0


From f51fa77060f3229604fa59cd461012f43171f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 079/171] fix: attributes that version 3 keys do not have

---
 pgp/transferrable_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index d2ff716..7dcd8fa 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -118,6 +118,7 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
+            result = default
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
                 result = getattr(most_recent_selfsig, name, default)
-- 
2.43.0


From 1bc9d662d782ac715d3c1e1d39cd8c478bdf6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 080/171] fix: set the expiration time of a key

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 7dcd8fa..75e2793 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -299,7 +299,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
-- 
2.43.0


From b820b99289dd80aa746b1c046355710ef96b8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 081/171] fix: read and write the validity period of version 3
 keys

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 75e2793..63df0b8 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -199,7 +199,7 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
             expiration_time = \
@@ -227,9 +227,10 @@ class BasePublicKey(SignedMixin):
         creation_time = utils.datetime_to_int(self.creation_time)
         expiration_days = None
         if self.version < 4:
+            expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = (expiration_time - self.creation_time).days
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From 0f99a82a610f4dbf44de9348808876d64599c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 082/171] fix: exact bit length of keys

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 63df0b8..5ed01a3 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,7 @@
 
 import datetime
 import email.utils
-import math
+
 import time
 import weakref
 
@@ -327,7 +327,7 @@ class BasePublicKey(SignedMixin):
         elif self.public_key_algorithm in (16, 20):
             n = self.prime_p
 
-        return int(math.ceil(float(math.log(n, 2))))
+        return int(n).bit_length()
 
     @property
     def key_id(self):
-- 
2.43.0


From 37cafd649ed9dcfb8291e394febe538476f4ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 083/171] fix: validity of version 3 keys across the start or
 end of summer time

---
 pgp/transferrable_keys.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5ed01a3..3c5b5f3 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -196,14 +196,15 @@ class BasePublicKey(SignedMixin):
     @classmethod
     def _init_args_from_packet(cls, packet):
         version = packet.version
-        creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
+        creation_seconds = packet.creation_time
+        creation_time = datetime.datetime.fromtimestamp(creation_seconds)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
         if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
-            expiration_time = \
-                creation_time + datetime.timedelta(days=expiration_days)
+            expiration_time = datetime.datetime.fromtimestamp(
+                creation_seconds + expiration_days * 86400)
         modulus_n = packet.modulus
         exponent_e = packet.exponent
         prime_p = packet.prime
@@ -230,7 +231,8 @@ class BasePublicKey(SignedMixin):
             expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - self.creation_time).days
+                expiration_days = (utils.datetime_to_int(expiration_time) -
+                                   creation_time) // 86400
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From 13ab101412146f07c655d4ea6388d3b1fc5e9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 084/171] fix: encrypt with RSA encrypt-only keys

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 3c5b5f3..06b78d3 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -381,7 +381,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -500,7 +500,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
-- 
2.43.0


From eb20752cc63e87ad9e594bcc79606e2d2d0c576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 085/171] fix: order of the values of DSA key objects

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 06b78d3..a6e3065 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -316,8 +316,8 @@ class BasePublicKey(SignedMixin):
             key_obj = K((self.prime_p, self.group_generator_g,
                          self.key_value_y))
         elif self.public_key_algorithm == 17:
-            key_obj = K((self.prime_p, self.group_order_q,
-                         self.group_generator_g, self.key_value_y))
+            key_obj = K((self.key_value_y, self.group_generator_g,
+                         self.prime_p, self.group_order_q))
         return key_obj
 
     @property
-- 
2.43.0


From b5f6c3eb6dcb5c7ae8f51b161a7b14ba1fc26bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 086/171] fix: secret prime of an unlocked RSA key is not part
 of its public key

---
 pgp/transferrable_keys.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index a6e3065..24803b1 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -224,6 +224,12 @@ class BasePublicKey(SignedMixin):
         result.packet_header_type = packet.header_format
         return result
 
+    def _public_prime_p(self):
+        if self.public_key_algorithm in (1, 2, 3):
+            # A secret of an unlocked key
+            return None
+        return self.prime_p
+
     def _to_packet_args(self, header_format=None):
         creation_time = utils.datetime_to_int(self.creation_time)
         expiration_days = None
@@ -237,7 +243,7 @@ class BasePublicKey(SignedMixin):
         return (
             header_format, self.version, creation_time,
             self.public_key_algorithm, expiration_days, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_order_q,
+            self.exponent_e, self._public_prime_p(), self.group_order_q,
             self.group_generator_g, self.key_value_y
             )
 
@@ -470,8 +476,8 @@ class BaseSecretKey(BasePublicKey):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
             self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
-            self.key_value_y, self.signatures)
+            self._public_prime_p(), self.group_generator_g,
+            self.group_order_q, self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
 
@@ -667,7 +673,7 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
             self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
+            self.exponent_e, self._public_prime_p(), self.group_generator_g,
             self.group_order_q, self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
-- 
2.43.0


From fd5129988276a67c62e5fcbb5e961c05dfaa1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 087/171] fix: sign and verify bindings of secret subkeys

---
 pgp/transferrable_keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 24803b1..496d2f0 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -678,6 +678,10 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         key.packet_header_type = self.packet_header_type
         return key
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.to_public_key().to_signable_data(signature_type,
+                                                     signature_version)
+
 
 @implementer(interfaces.IUserID)
 class UserID(SignedMixin):
-- 
2.43.0


From 2c4047c929d53f212dead9de8a4fe683cddb09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 088/171] fix: user attributes other than JPEG images

---
 pgp/transferrable_keys.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 496d2f0..dabb2c8 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -770,28 +770,45 @@ class UserAttributeContentItem(object):
 
     mime_type = None
     data = None
+    image_format = None
+    # Of content that is not an image
+    sub_type = None
 
     @classmethod
     def from_subpacket(cls, subpacket):
+        if not isinstance(subpacket,
+                          user_attribute_subpackets.ImageAttributeSubpacket):
+            result = cls(None, subpacket.content)
+            result.sub_type = subpacket.sub_type
+            return result
         if subpacket.image_format == C.JPEG_IMAGE_FORMAT:
             mime_type = 'image/jpeg'
         else:
-            mime_type = magic.from_buffer(subpacket.data[:1024],
-                                          mime=True).decode('ascii')
-        return cls(mime_type, subpacket.data)
+            mime_type = magic.from_buffer(bytes(subpacket.data[:1024]),
+                                          mime=True)
+            if isinstance(mime_type, bytes):
+                mime_type = mime_type.decode('ascii')
+        result = cls(mime_type, subpacket.data)
+        result.image_format = subpacket.image_format
+        return result
 
     def __init__(self, mime_type, data):
         self.mime_type = mime_type
         self.data = data
 
     def __repr__(self):
-        return '<{0} at 0x{2:x}>'.format(self.__class__.__name__, id(self))
+        return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
-        if self.mime_type.split('/', 1)[0] != 'image':
-            return None
+        if self.sub_type is not None:
+            cls = user_attribute_subpackets.UserAttributeSubpacket
+            return cls.from_subpacket_content(self.sub_type, self.data)
         header_version = 1
-        if self.mime_type.endswith('/jpeg'):
+        if self.image_format is not None:
+            image_format = self.image_format
+        elif self.mime_type.split('/', 1)[0] != 'image':
+            return None
+        elif self.mime_type.endswith('/jpeg'):
             image_format = C.JPEG_IMAGE_FORMAT
         else:
             image_format = 101
-- 
2.43.0


From ca6ac438d81ca3307d45048b37b62141c6978eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 089/171] fix: accept revocations of subkeys

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index dabb2c8..b917532 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -942,8 +942,9 @@ def validate_transferrable_key(packets, secret=False):
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
                 if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                        or packets[j].signature_type not in
+                        (C.SUBKEY_BINDING_SIGNATURE,
+                         C.SUBKEY_REVOCATION_SIGNATURE)):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
-- 
2.43.0


From 7e9be8f25d34e2f3c7bb874112207f7818bcc992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 090/171] fix: a key that ends in a subkey is invalid

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b917532..736a0a6 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -983,7 +983,7 @@ def validate_transferrable_key(packets, secret=False):
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+            if (type_order[i + 1:i + 2] != [C.SIGNATURE_PACKET_TYPE]
                     or packets[i + 1].signature_type !=
                         C.SUBKEY_BINDING_SIGNATURE):
 
-- 
2.43.0


From 4a66feb67d9c0a504ebdf2d2b92dc1145eb4aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 091/171] fix: read all of a key that has trust packets

---
 pgp/transferrable_keys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 736a0a6..df76255 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -910,7 +910,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
@@ -1006,9 +1007,10 @@ class TransferablePublicKey(BasePublicKey):
 
     @classmethod
     def from_packets(cls, packets):
-        # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        # TODO: keep trust packets
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
-- 
2.43.0


From 6fd275391d79b33152c5171b66d406dc81774b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 092/171] fix: accept user IDs after user attributes

---
 pgp/transferrable_keys.py | 44 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index df76255..41d6f6d 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -966,10 +966,11 @@ def validate_transferrable_key(packets, secret=False):
         elif this == C.USER_ID_PACKET_TYPE:
             for t in type_order[:i]:
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
-                             C.USER_ID_PACKET_TYPE, C.TRUST_PACKET_TYPE):
+                             C.USER_ID_PACKET_TYPE,
+                             C.USER_ATTRIBUTE_PACKET_TYPE,
+                             C.TRUST_PACKET_TYPE):
                     raise exceptions.InvalidKeyPacketOrder(
-                                "User IDs must appear before all user "
-                                "attributes and subkeys")
+                                "User IDs must appear before all subkeys")
         elif this == C.USER_ATTRIBUTE_PACKET_TYPE:
             for t in type_order[:i]:
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
@@ -1024,40 +1025,33 @@ class TransferablePublicKey(BasePublicKey):
             i += 1
 
         primary_public_key.signatures = primary_public_key_signatures
+        # "User Attribute packets and User ID packets may be freely intermixed
+        #  in this section"
         user_ids = primary_public_key.user_ids
-        while i < packet_count and packets[i].type == C.USER_ID_PACKET_TYPE:
-            user_id = UserID.from_packet(primary_public_key, packets[i])
-            user_ids.append(user_id)
-            i += 1
-            while (
-                i < packet_count
-                and packets[i].type == C.SIGNATURE_PACKET_TYPE
-                ):
-
-                user_id.signatures.append(
-                        KeySignature.from_packet(packets[i],
-                                                 user_id)
-                    )
-                i += 1
-
         user_attributes = primary_public_key.user_attributes
         while (
             i < packet_count
-            and packets[i].type == C.USER_ATTRIBUTE_PACKET_TYPE
+            and packets[i].type in (
+                C.USER_ID_PACKET_TYPE,
+                C.USER_ATTRIBUTE_PACKET_TYPE
+                )
             ):
 
-            user_attribute = UserAttribute.from_packet(primary_public_key,
-                                                       packets[i])
-            user_attributes.append(user_attribute)
+            if packets[i].type == C.USER_ID_PACKET_TYPE:
+                user = UserID.from_packet(primary_public_key, packets[i])
+                user_ids.append(user)
+            else:
+                user = UserAttribute.from_packet(primary_public_key,
+                                                 packets[i])
+                user_attributes.append(user)
             i += 1
             while (
                 i < packet_count
                 and packets[i].type == C.SIGNATURE_PACKET_TYPE
                 ):
 
-                user_attribute.signatures.append(
-                        KeySignature.from_packet(packets[i],
-                                                 user_attribute)
+                user.signatures.append(
+                        KeySignature.from_packet(packets[i], user)
                     )
                 i += 1
 
-- 
2.43.0


From b6a8263105333836b4afeaa49b255844d69bc4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 093/171] fix: unlock the subkeys of a key whose secret part is
 elsewhere

---
 pgp/transferrable_keys.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 41d6f6d..989db7f 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -580,6 +580,8 @@ class BaseSecretKey(BasePublicKey):
         return sig
 
     def unlock(self, passphrase):
+        if self.is_stub():
+            raise ValueError('The secret part of this key is not available.')
         if self.symmetric_algorithm == 0:
             # not encrypted
             key = None
@@ -629,6 +631,10 @@ class BaseSecretKey(BasePublicKey):
     def is_locked(self):
         return self._locked
 
+    def is_stub(self):
+        """Whether the secret part is not in this key at all."""
+        return isinstance(self.s2k_specification, s2k.GnuPGS2K)
+
 
 class PublicSubkey(BasePublicKey):
 
@@ -1130,9 +1136,12 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         return key
 
     def unlock(self, passphrase):
-        super(TransferableSecretKey, self).unlock(passphrase)
+        # The secret parts of some may be elsewhere
+        if not self.is_stub():
+            super(TransferableSecretKey, self).unlock(passphrase)
         for sk in self.subkeys:
-            sk.unlock(passphrase)
+            if not sk.is_stub():
+                sk.unlock(passphrase)
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From 375be0ec29854f3ae40e4c101669de31609fcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 094/171] fix: do not change the subpackets passed to sign

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 989db7f..fb0005f 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -546,7 +546,7 @@ class BaseSecretKey(BasePublicKey):
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
-- 
2.43.0


From 88ac96cd171c66fc8cc9604f948798110ad6875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 095/171] fix: label of armored secret keys

---
 pgp/shortcuts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..ee7a8d4 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,11 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        # Secret keys are public keys too
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
-- 
2.43.0


From 74a81d26066ccda789c9b63d42ef532c5e1a8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 096/171] fix: lock what was unlocked when not all of a key
 could be

---
 pgp/context_managers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pgp/context_managers.py b/pgp/context_managers.py
index 69ade47..c5459a8 100644
--- a/pgp/context_managers.py
+++ b/pgp/context_managers.py
@@ -22,7 +22,12 @@ class LockingContextManager(object):
         self.passphrase = passphrase
 
     def __enter__(self):
-        self.lockable.unlock(self.passphrase)
+        try:
+            self.lockable.unlock(self.passphrase)
+        except Exception:
+            # Some of it may be unlocked
+            self.lockable.lock()
+            raise
         return self.lockable
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From b5c5bd89afa76b3bd3ca8184d95c5c06f64424e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 097/171] fix: name of a user ID with a comment, and empty user
 IDs

---
 pgp/user_id.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 8dc93a6..2708af5 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -317,7 +317,12 @@ class AddrlistClass:
 
 def parse_user_id(user_id):
     a = AddrlistClass(user_id)
-    user_name, user_email = a.getaddress()[0]
+    user_name, user_email = (a.getaddress() or [('', '')])[0]
     user_comment = ' '.join(a.commentlist)
-    user_name = user_name.replace(user_comment, '').strip()
-    return user_name, user_email, user_comment
+    if user_name == user_comment and '<' not in user_id:
+        # Of an address without a name
+        user_name = ''
+    suffix = ' ({0})'.format(user_comment)
+    if a.commentlist and user_name.endswith(suffix):
+        user_name = user_name[:-len(suffix)]
+    return user_name.strip(), user_email, user_comment
-- 
2.43.0


From 4b6ddbb0d0365c23999e3c4543b90db35bf7723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 098/171] fix: set the parts of a user ID without encoding or
 misplacing them

---
 pgp/transferrable_keys.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index fb0005f..580e3a3 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,7 @@
 
 import datetime
 import email.utils
-
+import re
 import time
 import weakref
 
@@ -43,6 +43,9 @@ except NameError:
     long = int
 
 
+SPECIALS = re.compile(r'[][\\()<>@,:;"]')
+
+
 class SignedMixin(object):
 
     @property
@@ -738,10 +741,18 @@ class UserID(SignedMixin):
         return self._primary_public_key_ref()
 
     def _make_user_id(self, name, emailaddr, comment):
-        result = email.utils.formataddr((name, emailaddr), 'utf8')
+        # As parsed by parse_user_id
+        parts = []
+        if name:
+            if SPECIALS.search(name):
+                name = u'"{0}"'.format(email.utils.quote(name))
+            parts.append(name)
         if comment:
-            result = u"{0} ({1})".format(result, comment)
-        return result
+            parts.append(u'({0})'.format(comment))
+        if emailaddr:
+            parts.append(
+                u'<{0}>'.format(emailaddr) if parts else emailaddr)
+        return u' '.join(parts)
 
     def _get_user_name(self):
         return parse_user_id(self.user_id)[0]
-- 
2.43.0


From 62d2a375f91997aaae8700be008653b49f690a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 099/171] fix: do not wait forever for an agent that closed the
 connection

---
 pgp/pinentry/gpg_agent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 7ba9639..d9eb82a 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -49,6 +49,8 @@ class GPGAgentPinentry(object):
         lines = []
         while 1:
             byte = self._sock.recv(1)
+            if not byte:
+                raise EOFError('The agent closed the connection.')
             if byte == b'\n':
                 lines.append(buf)
                 if buf[:2] == b'OK':
-- 
2.43.0


From bb63e1f56bd867713201ea5e235281036a10d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 100/171] fix: read all of a passphrase from the agent, in
 UTF-8

---
 pgp/pinentry/gpg_agent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index d9eb82a..4ad7054 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -17,7 +17,7 @@
 import os
 import socket
 from urllib.parse import quote
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 
 
 class GPGAgentPinentry(object):
@@ -94,7 +94,8 @@ class GPGAgentPinentry(object):
         self.send('GET_PASSPHRASE {0}'.format(params))
         response = self.get_response()
         self.disconnect()
-        return unquote(response[0][2:].decode('latin-1'))
+        data = b''.join(l[2:] for l in response if l[:2] == b'D ')
+        return unquote_to_bytes(data).decode('utf8')
 
     def clear_passphrase(self, cache_id):
         self.connect()
-- 
2.43.0


From 5d5501e614a6804a557a3f13d96cb6b6a097dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 101/171] fix: clear the passphrase before disconnecting from
 the agent

---
 pgp/pinentry/gpg_agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 4ad7054..e4f9a12 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -42,7 +42,7 @@ class GPGAgentPinentry(object):
     def send(self, data):
         if isinstance(data, str):
             data = data.encode('latin-1')
-        self._sock.send(data + b'\n')
+        self._sock.sendall(data + b'\n')
 
     def get_response(self):
         buf = b''
@@ -100,4 +100,5 @@ class GPGAgentPinentry(object):
     def clear_passphrase(self, cache_id):
         self.connect()
         self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
+        self.get_response()
         self.disconnect()
-- 
2.43.0


From 0ee3bd8e5b4093a7d5e99f47629ecd6e9343b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 102/171] fix: disconnect from the agent after an error

---
 pgp/pinentry/gpg_agent.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index e4f9a12..95edcdb 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -91,14 +91,18 @@ class GPGAgentPinentry(object):
             params += ' {0}'.format(quote(description))
         else:
             params += ' X'
-        self.send('GET_PASSPHRASE {0}'.format(params))
-        response = self.get_response()
-        self.disconnect()
+        try:
+            self.send('GET_PASSPHRASE {0}'.format(params))
+            response = self.get_response()
+        finally:
+            self.disconnect()
         data = b''.join(l[2:] for l in response if l[:2] == b'D ')
         return unquote_to_bytes(data).decode('utf8')
 
     def clear_passphrase(self, cache_id):
         self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
-        self.get_response()
-        self.disconnect()
+        try:
+            self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
+            self.get_response()
+        finally:
+            self.disconnect()
-- 
2.43.0


From aea4f14b93410d4ae4fba5748007c7615d561bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 103/171] fix: empty fields in HKP results

---
 pgp/keyserver/hkp.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 23e3d87..34f6e9f 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -35,6 +35,16 @@ def _add_colons(line, number):
     return line
 
 
+def _parse_int(field):
+    return int(field) if field else None
+
+
+def _parse_time(field):
+    if not field:
+        return None
+    return datetime.datetime.fromtimestamp(int(field))
+
+
 class HKPUserIdResult(object):
 
     def __repr__(self):
@@ -53,11 +63,8 @@ class HKPUserIdResult(object):
         l = _add_colons(l, 4)
         _uid, uid, created, expires, flags = l.split(':')
         self.user_id = unquote(uid)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.created = _parse_time(created)
+        self.expires = _parse_time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -87,13 +94,10 @@ class HKPResult(object):
         (_pub, key_id, public_key_algorithm, bit_length,
             created, expires, flags) = l.split(':')
         self.key_id = key_id
-        self.public_key_algorithm = int(public_key_algorithm)
-        self.bit_length = int(bit_length)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.public_key_algorithm = _parse_int(public_key_algorithm)
+        self.bit_length = _parse_int(bit_length)
+        self.created = _parse_time(created)
+        self.expires = _parse_time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
-- 
2.43.0


From a39372b0a7e12bac658186a4cb94a092de57cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 104/171] fix: submit only the public part of a secret key

---
 pgp/keyserver/hkp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 34f6e9f..a8b90d3 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -179,6 +179,9 @@ class HKPKeyserverClient(object):
         return self._read_mr(response.text)
 
     def submit(self, key, no_modify=False):
+        if hasattr(key, 'to_public_key'):
+            # Never send secrets
+            key = key.to_public_key()
         key_data = b''.join(map(bytes, key.to_packets()))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
-- 
2.43.0


From ef3a4a2332c9138fbf753f85b5bde5c08d98d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 105/171] fix: empty HKP indexes and lines of other types

---
 pgp/keyserver/hkp.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index a8b90d3..24f762c 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -131,25 +131,16 @@ class HKPKeyserverClient(object):
 
     def _read_mr(self, data):
         data = data.splitlines()
-        info_line = data[0]
-        if info_line.startswith('info:'):
-            _info, version, count = info_line.split(':')
-        else:
-            version = 1
-            count = None
-
-        del version, count  # unused
-
         results = []
         pub_key = None
         user_ids = []
         for line in data:
-            if line.startswith('pub'):
+            if line.startswith('pub:'):
                 if pub_key:
                     results.append(HKPResult(self, pub_key, user_ids))
                 pub_key = line
                 user_ids = []
-            elif line.startswith('uid'):
+            elif line.startswith('uid:'):
                 user_ids.append(line)
             # Skip anything else
 
-- 
2.43.0


From f8de414a88e259818fd1769dfc4ce0aede98db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 106/171] fix: type of empty keyrings and of named keyring
 resources

---
 pgp/db/gpg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..cbad4ff 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -471,10 +471,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[len('gnupg-keyring:'):]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[len('gnupg-kbx:'):]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
@@ -485,7 +485,7 @@ def get_resource(filename, force=False, secret=False, read_only=False,
         except OSError:
             type_ = ResourceTypes.KEYRING
         else:
-            if magic in GDBM_MAGIC:
+            if magic in (GDBM_MAGIC[:4], GDBM_MAGIC[4:]):
                 type_ = ResourceTypes.GDBM
             elif fh.read(4)[:1] == b'\x01' and fh.read(4) == b'KBXf':
                 type_ = ResourceTypes.KEYBOX
-- 
2.43.0


From e314f0a05ff4840d64f483de07832ad7d34a72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 107/171] fix: create missing keyrings

---
 pgp/db/gpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index cbad4ff..b176f9d 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -189,7 +189,7 @@ class BaseResource(object):
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
             if force:
-                self.create_db(self.filename)
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
-- 
2.43.0


From b61a8563ca84048b6dacd2527ef98b2ecfc5c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 108/171] fix: keep the keys after one that is updated or
 deleted

---
 pgp/db/gpg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index b176f9d..d0d90d4 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -410,6 +410,7 @@ class Keyring(BaseResource):
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
+                last_offset = offset
                 packets = []
                 packet_iter = parse_binary_packet_stream(fh)
                 header_format = None
@@ -421,6 +422,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
@@ -444,6 +446,7 @@ class Keyring(BaseResource):
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
+                last_offset = offset
                 packets = []
                 packet_iter = parse_binary_packet_stream(fh)
                 header_format = None
@@ -455,6 +458,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-- 
2.43.0


From 608cdc143259142498d6e26c756e577f4c99fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 109/171] fix: keep secret keys out of public keyrings

---
 pgp/db/gpg.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index d0d90d4..e1a3a3b 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -530,42 +530,43 @@ class GPGDatabase(object):
         return resource
 
     def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys too
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.add_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.add_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.delete_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.delete_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.update_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.update_transferrable_key(key)
                     break
         else:
-- 
2.43.0


From e0ead317558c3cdf0980077643b499ded3dc241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 110/171] fix: keyring lock excludes other threads and
 processes, and can be nested

---
 pgp/db/gpg.py | 102 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 77 insertions(+), 25 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index e1a3a3b..9e6403a 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -27,7 +27,6 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
-import signal
 import threading
 import time
 
@@ -64,13 +63,14 @@ _locks = []
 @atexit.register
 def _clean_up_locks():
     for l in _locks:
-        l.release()
         try:
-            os.unlink(l.name)
+            # It may be the lock of another process otherwise
+            if l.locked:
+                os.unlink(l.name)
         except:
             pass
         try:
-            os.unlink(l.lock_template_name)
+            os.unlink(l.template_name)
         except:
             pass
 
@@ -83,11 +83,14 @@ class Lock(object):
 
     def __init__(self, filename):
         node_name = platform.node()
-        dirpart = os.path.dirname(filename)
-        self.template_name = '{0}{1}.#lk{2:x}.'.format(
+        dirpart = os.path.dirname(filename) or os.path.curdir
+        # The name is as unique as what is written: the lock is a link to it.
+        self.template_name = '{0}{1}.#lk{2:x}.{3}.{4}'.format(
             dirpart,
             os.path.sep,
-            id(self)
+            id(self),
+            node_name,
+            os.getpid()
             )
         with open(self.template_name, 'w') as lock_fh:
             lock_fh.write('{0:010d}'.format(os.getpid()))
@@ -97,12 +100,14 @@ class Lock(object):
             filename,
             os.path.extsep)
         self._lock = threading.RLock()
+        self._depth = 0
+        self._owner = None
         _locks.append(self)
 
     def __del__(self):
         try:
             self.release()
-            os.unlink(self.lock_template_name)
+            os.unlink(self.template_name)
         except:
             # TODO: log an error
             pass
@@ -114,34 +119,81 @@ class Lock(object):
 
         return pid, node == platform.node()
 
-    def acquire(self, timeout=None):
-        start = time.time()
-        while not self.locked:
-            if timeout is not None and (time.time() - start) > timeout:
-                return False
-            self._lock.acquire()
-            os.link(self.template_name, self.name)
+    def _is_stale(self):
+        """Whether the process that has the lock is gone."""
+        try:
             pid, same_node = self.read()
-            if pid == os.getpid() and same_node:
-                # OK
-                pass
-            elif same_node:
-                # attempt to kill the interloper
-                os.kill(pid, signal.SIG_DFL)
+        except (OSError, ValueError):
+            # Released in the meantime
+            return False
+        if not same_node or pid == os.getpid():
+            return False
+        try:
+            os.kill(pid, 0)
+        except ProcessLookupError:
+            return True
+        except OSError:
+            pass
+        return False
+
+    def _break_stale(self):
+        """Remove the lock of a process that is gone."""
+        # Only one process may do so at a time. It could be another one's
+        # lock by now otherwise.
+        breaker_name = self.name + '.break'
+        try:
+            os.link(self.template_name, breaker_name)
+        except FileExistsError:
+            return
+        try:
+            if self._is_stale():
                 os.unlink(self.name)
-                continue
-            self.locked = True
+        finally:
+            os.unlink(breaker_name)
 
+    def acquire(self, timeout=None):
+        start = time.time()
+        if not self._lock.acquire(timeout=-1 if timeout is None else timeout):
+            return False
+        if self._depth:
+            # This thread already has it
+            self._depth += 1
+            return True
+        try:
+            while 1:
+                try:
+                    os.link(self.template_name, self.name)
+                    break
+                except FileExistsError:
+                    pass
+                if self._is_stale():
+                    self._break_stale()
+                if timeout is not None and (time.time() - start) > timeout:
+                    self._lock.release()
+                    return False
+                time.sleep(0.05)
+        except BaseException:
+            self._lock.release()
+            raise
+        self._depth = 1
+        self._owner = threading.get_ident()
+        self.locked = True
         return True
 
     def release(self):
-        if not self.locked:
+        if not self.locked or self._owner != threading.get_ident():
+            return
+
+        if self._depth > 1:
+            self._depth -= 1
+            self._lock.release()
             return
 
         pid, same_node = self.read()
         if pid == os.getpid() and same_node:
-            os.unlink(self.name)
+            self._depth = 0
             self.locked = False
+            os.unlink(self.name)
             self._lock.release()
         else:
             # TODO: error?
-- 
2.43.0


From a0d8f0d8b44e58bc54d422ff81537528b1219794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 111/171] fix: tell the keys of a keyring apart by fingerprint,
 in its current content

---
 pgp/db/gpg.py | 123 ++++++++++++++++++++++++++------------------------
 1 file changed, 64 insertions(+), 59 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 9e6403a..8720db6 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -359,10 +359,12 @@ class Keyring(BaseResource):
         self._update_offset_table()
 
     def keys(self):
+        self._update_offset_table()
         return self._offset_table.keys()
 
     def _update_offset_table(self):
-        offset_table = {}
+        # Offsets and key IDs by fingerprint
+        offset_table = OrderedDict()
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
@@ -375,13 +377,25 @@ class Keyring(BaseResource):
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
+                        offset_table[packet.fingerprint] = \
+                            (last_offset, packet.key_id)
                     last_offset = fh.tell()
         finally:
             self.unlock_db()
 
         self._offset_table = offset_table
 
+    def _get_offset(self, fingerprint):
+        """The offset of a key from its fingerprint or its key ID."""
+        fingerprint = fingerprint.upper()
+        if fingerprint in self._offset_table:
+            return self._offset_table[fingerprint][0]
+        if fingerprint and len(fingerprint) <= 16:
+            for offset, key_id in self._offset_table.values():
+                if key_id.endswith(fingerprint):
+                    return offset
+        raise KeyError(fingerprint)
+
     def _get_key(self, offset):
         self.lock_db()
         try:
@@ -422,65 +436,78 @@ class Keyring(BaseResource):
         finally:
             self.unlock_db()
 
+    def _write(self, data):
+        """Replace the content."""
+        with open(self.filename, 'wb') as fh:
+            fh.write(data)
+
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
-        return self._get_key(offset)
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            return self._get_key(self._get_offset(fingerprint))
+        finally:
+            self.unlock_db()
 
     def add_transferrable_key(self, key):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint in self._offset_table:
-            raise KeyError
-
         self.lock_db()
         try:
+            self._update_offset_table()
+            if key.fingerprint in self._offset_table:
+                raise KeyError(key.fingerprint)
+
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read()
 
             data += b''.join(map(bytes, key.to_packets(
                 self._preferred_header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
 
+    def _split(self, fingerprint):
+        """What comes before a key, its header format and what follows."""
+        if fingerprint not in self._offset_table:
+            raise KeyError(fingerprint)
+        offset = self._offset_table[fingerprint][0]
+        with open(self.filename, 'rb') as fh:
+            before = fh.read(offset)
+            last_offset = offset
+            packets = []
+            packet_iter = parse_binary_packet_stream(fh)
+            header_format = None
+            for packet in packet_iter:
+                if header_format is None:
+                    header_format = packet.header_format
+                if packets and packet.type in (
+                        constants.PUBLIC_KEY_PACKET_TYPE,
+                        constants.SECRET_KEY_PACKET_TYPE,
+                        ):
+                    break
+                packets.append(packet)
+                last_offset = fh.tell()
+            fh.seek(last_offset)
+            after = fh.read()
+        return before, header_format, after
+
     def update_transferrable_key(self, key):
         # Delete and add in one operation
 
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
-            data = b''
-            with open(self.filename, 'rb') as fh:
-                data = fh.read(offset)
-                last_offset = offset
-                packets = []
-                packet_iter = parse_binary_packet_stream(fh)
-                header_format = None
-                for packet in packet_iter:
-                    if header_format is None:
-                        header_format = packet.header_format
-                    if packets and packet.type in (
-                            constants.PUBLIC_KEY_PACKET_TYPE,
-                            constants.SECRET_KEY_PACKET_TYPE,
-                            ):
-                        break
-                    packets.append(packet)
-                    last_offset = fh.tell()
-                fh.seek(last_offset)
-                data += fh.read()
+            self._update_offset_table()
+            before, header_format, after = self._split(key.fingerprint)
+            data = before + after
             data += b''.join(map(bytes, key.to_packets(header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -489,33 +516,11 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
-            data = b''
-            with open(self.filename, 'rb') as fh:
-                data = fh.read(offset)
-                last_offset = offset
-                packets = []
-                packet_iter = parse_binary_packet_stream(fh)
-                header_format = None
-                for packet in packet_iter:
-                    if header_format is None:
-                        header_format = packet.header_format
-                    if packets and packet.type in (
-                            constants.PUBLIC_KEY_PACKET_TYPE,
-                            constants.SECRET_KEY_PACKET_TYPE,
-                            ):
-                        break
-                    packets.append(packet)
-                    last_offset = fh.tell()
-                fh.seek(last_offset)
-                data += fh.read()
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._update_offset_table()
+            before, _, after = self._split(key.fingerprint)
+            self._write(before + after)
             self._update_offset_table()
         finally:
             self.unlock_db()
-- 
2.43.0


From d0ccc89c0254c57c40b45a6fbb682657f56fc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 112/171] fix: replace keyrings atomically, never truncate them

---
 pgp/db/gpg.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 8720db6..85dc864 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -27,6 +27,7 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
+import shutil
 import threading
 import time
 
@@ -431,15 +432,29 @@ class Keyring(BaseResource):
     def create_db(self):
         self.lock_db()
         try:
-            with open(self.filename, 'wb'):
+            # It may have been created in the meantime
+            with open(self.filename, 'ab'):
                 os.chmod(self.filename, 0o600)
         finally:
             self.unlock_db()
 
     def _write(self, data):
-        """Replace the content."""
-        with open(self.filename, 'wb') as fh:
-            fh.write(data)
+        """Replace the content, or else leave it as it was."""
+        filename = os.path.realpath(self.filename)
+        temporary_filename = filename + os.path.extsep + 'tmp'
+        try:
+            with open(temporary_filename, 'wb') as fh:
+                shutil.copymode(filename, temporary_filename)
+                fh.write(data)
+                fh.flush()
+                os.fsync(fh.fileno())
+            os.replace(temporary_filename, filename)
+        except BaseException:
+            try:
+                os.unlink(temporary_filename)
+            except OSError:
+                pass
+            raise
 
     def get_transferrable_key(self, fingerprint):
         self.lock_db()
-- 
2.43.0


From 2d3a6c0010a59828f99773ad586e330493bfc920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 113/171] fix: update and delete keys in the resource they are
 in

---
 pgp/db/gpg.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 85dc864..62580d1 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -619,28 +619,36 @@ class GPGDatabase(object):
     def delete_key(self, key):
         if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if resource.secret and key.fingerprint in resource:
                     resource.delete_transferrable_key(key)
                     break
+            else:
+                raise KeyError(key.fingerprint)
         elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if not resource.secret and key.fingerprint in resource:
                     resource.delete_transferrable_key(key)
                     break
+            else:
+                raise KeyError(key.fingerprint)
         else:
             raise TypeError
 
     def update_key(self, key):
         if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if resource.secret and key.fingerprint in resource:
                     resource.update_transferrable_key(key)
                     break
+            else:
+                raise KeyError(key.fingerprint)
         elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if not resource.secret and key.fingerprint in resource:
                     resource.update_transferrable_key(key)
                     break
+            else:
+                raise KeyError(key.fingerprint)
         else:
             raise TypeError
 
-- 
2.43.0


From eeaddfebc23e6528a5e285e4ae278a0ea40ebd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 114/171] fix: packet types above 15 have new headers only

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 575ecf3..6e90332 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -126,7 +126,9 @@ class Packet(object):
         packet_type = self.type
         tag = 0x80
         result = bytearray()
-        if self.header_format == constants.NEW_PACKET_HEADER_TYPE:
+        # Old headers have room for four bits of the packet type only.
+        if self.header_format == constants.NEW_PACKET_HEADER_TYPE \
+                or packet_type > 15:
             remaining = data_length
             offset = 0
             tag += 0x40 + packet_type
-- 
2.43.0


From 92694f26d35711f905a9a967cb145d4eab6a3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 115/171] fix: refuse integrity protected data of unknown
 versions

---
 pgp/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index a10f272..9f64014 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -484,6 +484,9 @@ class SymmetricallyEncryptedMessageData(object):
         self.data = data
 
     def decrypt(self, symmetric_algo, key):
+        if self.integrity_protected and self.version != 1:
+            # "The only currently defined value is 1."
+            raise ValueError('Unknown version of integrity protected data.')
         encrypted_data = bytes(self.data)
         decrypted_data = bytearray()
         offset = 0
-- 
2.43.0


From 6025e3354ab453c95de203fcc7bde92420c481eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 116/171] fix: a session key block without content is for
 nobody

---
 pgp/packets/packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6e90332..6e0ed63 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -246,6 +246,9 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             raise NotImplementedError()
             m = decrypted_values[1]
 
+        if len(m) < 3:
+            # No room for an algorithm and a checksum
+            raise ValueError()
         symmetric_algorithm = int(m[0])
         expected_checksum = (
                 (m[-2] << 8) +
-- 
2.43.0


From a61d12ca05ff938617401066e8fca44725842954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 117/171] fix: session keys by unknown algorithms do not hide
 the others

---
 pgp/message.py         | 2 +-
 pgp/packets/packets.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 9f64014..3a60a7e 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -354,7 +354,7 @@ class PublicKeySessionKey(object):
             self.public_key_algorithm = public_key.public_key_algorithm
             if not hide_key_id:
                 self.key_id = public_key.key_id
-        if encrypted_key:
+        if encrypted_key is not None:
             self.encrypted_key = encrypted_key
         if session_key:
             self.set_algorithm_and_session_key(public_key,
diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6e0ed63..347d932 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -208,7 +208,8 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         elif public_key_algorithm in (16,):
             cipher = PKCS115_ElGamal_Cipher(secret_key_obj)
         else:
-            cipher = secret_key_obj
+            # Nothing that could be decrypted
+            raise ValueError()
         sentinel = Random.new().read((secret_key_obj.size() + 1) // 8)
         encrypted_session_key_length = len(encrypted_session_key)
         decrypted_values = []
@@ -590,6 +591,11 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         #  algorithm applied to the passphrase produces the session key for
         #  decrypting the file, using the symmetric cipher algorithm from the
         #  Symmetric-Key Encrypted Session Key packet."
+        if (not utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
+                or s2k_specification.hash_algorithm not in
+                utils.hash_lengths):
+            # Nothing that could be decrypted
+            raise ValueError()
         key = s2k_specification.to_key(passphrase)
         symmetric_algorithm = symmetric_algorithm
 
-- 
2.43.0


From 1808c1ff86d972ff713c9b239f47c7b822f70ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 118/171] fix: encrypted session keys are the values of their
 algorithm, zero included

---
 pgp/packets/packets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 347d932..991feae 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -216,13 +216,17 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         offset = 0
         ems = []
 
-        while offset < (encrypted_session_key_length - 2):
+        # A value of zero is nothing but its length
+        while offset <= (encrypted_session_key_length - 2):
             mpilen = utils.mpi_length(encrypted_session_key, offset)
             offset += 2
             em = encrypted_session_key[offset:offset + mpilen]
             offset += mpilen
             ems.append(bytes(em))
 
+        if len(ems) != (2 if public_key_algorithm == 16 else 1):
+            raise ValueError()
+
         if len(ems) == 1:
             # RSA takes a single argument, as long as the modulus. Leading
             # zeroes are not part of an MPI.
-- 
2.43.0


From 3c57ebafb72f78898c8bf3eff42db0ed5620f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 119/171] fix: refuse compressed data that is incomplete

---
 pgp/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 669dc1d..ec38be2 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -350,6 +350,8 @@ class ZlibCompression(object):
         result = self._result
         result += self._obj.flush()
         self._result = None
+        if self._compress is False and not self._obj.eof:
+            raise ValueError('Compressed data is incomplete.')
         return result
 
 
@@ -385,9 +387,8 @@ class DeflateCompression(object):
             raise ValueError
         if self._obj is None:
             self._compress = False
-            self._obj = zlib.decompressobj()
-            # Fake header
-            self._obj.decompress(b'\x78\x9c')
+            # Neither header nor checksum
+            self._obj = zlib.decompressobj(-zlib.MAX_WBITS)
         self._result += self._obj.decompress(data)
         return b''
 
@@ -398,6 +399,8 @@ class DeflateCompression(object):
         result = self._result
         result += self._obj.flush()
         self._result = None
+        if self._compress is False and not self._obj.eof:
+            raise ValueError('Compressed data is incomplete.')
         if self._compress:
             # Discard header and checksum
             result = result[2:-4]
@@ -430,6 +433,8 @@ class Bzip2Compression(object):
     def flush(self):
         if self._compress:
             return self._obj.flush()
+        if self._obj is not None and not self._obj.eof:
+            raise ValueError('Compressed data is incomplete.')
         return b''
 
 
-- 
2.43.0


From 9b3f95ff77200bb3e4e7c4ee709e5af7d4af5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 120/171] fix: read subpacket lengths of all forms, keep them
 as they were signed and refuse subpackets that do not fit

---
 pgp/packets/packets.py                   |  6 ++--
 pgp/packets/signature_subpackets.py      | 39 ++++++++++++++----------
 pgp/packets/user_attribute_subpackets.py | 24 ++++++++-------
 pgp/transferrable_keys.py                | 13 ++++++++
 pgp/utils.py                             | 24 +++++++++++++++
 5 files changed, 77 insertions(+), 29 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 991feae..440499a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -380,7 +380,8 @@ class SignaturePacket(Packet):
             hashed_subpackets = []
             while offset < subpacket_end:
                 hashed_subpacket, offset = \
-                    signature_subpacket_from_data(data, offset)
+                    signature_subpacket_from_data(data, offset,
+                                                  subpacket_end)
                 hashed_subpackets.append(hashed_subpacket)
 
             # followed by subpackets
@@ -390,7 +391,8 @@ class SignaturePacket(Packet):
             unhashed_subpackets = []
             while offset < subpacket_end:
                 unhashed_subpacket, offset = \
-                    signature_subpacket_from_data(data, offset)
+                    signature_subpacket_from_data(data, offset,
+                                                  subpacket_end)
                 unhashed_subpackets.append(unhashed_subpacket)
 
             hash2 = data[offset:offset + 2]
diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index e8f245a..f8728f3 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -31,6 +31,8 @@ class SignatureSubpacket(object):
 
     # The content of a subpacket of an unknown type
     _content = b''
+    # How many octets the length was given in
+    _length_octets = 1
 
     def __init__(self, type_, critical):
         self.type = type_
@@ -39,25 +41,27 @@ class SignatureSubpacket(object):
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
-            and bytes(self) == bytes(other)
+            and self._raw_type == other._raw_type
+            and bytes(self.content) == bytes(other.content)
             )
 
     def __hash__(self):
-        return crc24.crc24(bytes(self))
+        return crc24.crc24(bytes(self.content))
 
     @property
     def content(self):
         return bytearray(self._content)
 
+    @property
+    def _raw_type(self):
+        return self.type + (0x80 if self.critical else 0x00)
+
     def __bytes__(self):
         data = self.content
         data_len = len(data) + 1  # For the type
-        result = bytearray()
-        packet_length_bytes, _ = \
-                utils.new_packet_length_to_bytes(data_len, False)
-        result.extend(packet_length_bytes)
-        raw = self.type + (0x80 if self.critical else 0x00)
-        result.append(raw)
+        result = utils.subpacket_length_to_bytes(data_len,
+                                                 self._length_octets)
+        result.append(self._raw_type)
         result.extend(data)
         return bytes(result)
 
@@ -673,10 +677,13 @@ SIGNATURE_SUBPACKET_TYPES = {
     }
 
 
-def signature_subpacket_from_data(data, offset=0):
-    offset, length, partial = utils.new_packet_length(data, offset)
-    # TODO: smarter error
-    assert not partial
+def signature_subpacket_from_data(data, offset=0, end=None):
+    end = len(data) if end is None else min(end, len(data))
+    length_offset = offset
+    offset, length = utils.subpacket_length(data, offset)
+    length_octets = offset - length_offset
+    if length < 1 or offset + length > end:
+        raise ValueError('Subpacket does not fit.')
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
@@ -685,7 +692,7 @@ def signature_subpacket_from_data(data, offset=0):
     sub_data = data[offset:offset + length]
     offset += length
     cls = SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)
-    return (
-        cls.from_subpacket_content(subpacket_type, critical, sub_data),
-        offset
-        )
+    result = cls.from_subpacket_content(subpacket_type, critical, sub_data)
+    # What was signed
+    result._length_octets = length_octets
+    return result, offset
diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 24bf4d5..600d9d7 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -28,6 +28,8 @@ class UserAttributeSubpacket(object):
 
     # The content of a subpacket of an unknown type
     _content = b''
+    # How many octets the length was given in
+    length_octets = 1
 
     def __init__(self, sub_type):
         self.sub_type = sub_type
@@ -45,10 +47,9 @@ class UserAttributeSubpacket(object):
 
     def __bytes__(self):
         data = self.content
-        result = bytearray()
         # +1 for sub type
-        result.extend(utils.new_packet_length_to_bytes(
-            len(data) + 1, False)[0])
+        result = utils.subpacket_length_to_bytes(len(data) + 1,
+                                                 self.length_octets)
         result.append(self.sub_type)
         result.extend(data)
         return bytes(result)
@@ -125,13 +126,11 @@ USER_ATTRIBUTE_SUBPACKET_TYPES = {
 
 def user_attribute_subpacket_from_data(data, offset=0):
     sub_data = bytearray()
-    offset, sub_len, sub_partial = utils.new_packet_length(data, offset)
-    if sub_partial:
-        # "An implementation MAY use Partial Body Lengths for data
-        #  packets, be they literal, compressed, or encrypted.  [...]
-        #  Partial Body Lengths MUST NOT be used for any other packet
-        #  types."
-        raise ValueError
+    length_offset = offset
+    offset, sub_len = utils.subpacket_length(data, offset)
+    length_octets = offset - length_offset
+    if sub_len < 1 or offset + sub_len > len(data):
+        raise ValueError('Subpacket does not fit.')
     sub_type = int(data[offset])
     # + 1 for sub type
     sub_data_start = offset + 1
@@ -139,4 +138,7 @@ def user_attribute_subpacket_from_data(data, offset=0):
     sub_data.extend(data[sub_data_start:sub_data_end])
     offset = sub_data_end
     cls = USER_ATTRIBUTE_SUBPACKET_TYPES.get(sub_type, UserAttributeSubpacket)
-    return cls.from_subpacket_content(sub_type, sub_data), offset
+    result = cls.from_subpacket_content(sub_type, sub_data)
+    # What was signed
+    result.length_octets = length_octets
+    return result, offset
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 580e3a3..525da51 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -790,9 +790,16 @@ class UserAttributeContentItem(object):
     image_format = None
     # Of content that is not an image
     sub_type = None
+    length_octets = 1
 
     @classmethod
     def from_subpacket(cls, subpacket):
+        result = cls._from_subpacket(subpacket)
+        result.length_octets = subpacket.length_octets
+        return result
+
+    @classmethod
+    def _from_subpacket(cls, subpacket):
         if not isinstance(subpacket,
                           user_attribute_subpackets.ImageAttributeSubpacket):
             result = cls(None, subpacket.content)
@@ -817,6 +824,12 @@ class UserAttributeContentItem(object):
         return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
+        result = self._to_subpacket()
+        if result is not None:
+            result.length_octets = self.length_octets
+        return result
+
+    def _to_subpacket(self):
         if self.sub_type is not None:
             cls = user_attribute_subpackets.UserAttributeSubpacket
             return cls.from_subpacket_content(self.sub_type, self.data)
diff --git a/pgp/utils.py b/pgp/utils.py
index ec38be2..11ef6a4 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -769,6 +769,30 @@ def new_packet_length(data, offset):
     return offset, length, partial
 
 
+def subpacket_length(data, offset):
+    # Unlike packets, subpackets have no partial lengths
+    length = int(data[offset])
+    if 224 <= length < 255:
+        length = ((length - 192) << 8) + data[offset + 1] + 192
+        return offset + 2, length
+    offset, length, _ = new_packet_length(data, offset)
+    return offset, length
+
+
+def subpacket_length_to_bytes(length, octets=1):
+    """The length of a subpacket, in at least as many octets."""
+
+    if length < 192 and octets < 2:
+        return bytearray([length])
+    elif 192 <= length < 8384 and octets < 5 or \
+            8384 <= length < 16320 and octets == 2:
+        return bytearray([((length - 192) >> 8) + 192,
+                          (length - 192) & 0xff])
+    result = bytearray([0xff])
+    result.extend(int_to_4byte(length))
+    return result
+
+
 def new_packet_length_to_bytes(data_length, allow_partial):
     result = bytearray()
     remaining = 0
-- 
2.43.0


From eb6a101cf9700d3901757ec299e7d56daba57bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 121/171] fix: refuse RSA signature values that are not less
 than the modulus

---
 pgp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index 11ef6a4..4a1da36 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -130,6 +130,8 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
         # RSA
         # The signature is as long as the modulus. Leading zeroes are not part
         # of an MPI.
+        if values[0] >= public_key.n:
+            return False
         s = long_to_bytes(values[0]).rjust((public_key.size() + 8) // 8,
                                            b'\x00')
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
-- 
2.43.0


From a3095624c9ac6287933ef2f974aedfbf14d8fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 122/171] fix: write the checksum of secret keys protected with
 the MD5 hash of a passphrase

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 440499a..1ff6464 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1151,7 +1151,7 @@ class SecretKeyPacket(PublicKeyPacket):
             key = self._get_key(self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-                        self.iv, s2k_usage in (0, 255), s2k_usage == 254)
+                        self.iv, s2k_usage != 254, s2k_usage == 254)
             data.extend(encrypted_data)
 
         return data
-- 
2.43.0


From bdcf3226f5ee0b8463a8c196d6df687005410d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 123/171] fix: do not open part of a secret key that lacks
 values

---
 pgp/packets/packets.py    | 11 ++++++-----
 pgp/transferrable_keys.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1ff6464..ea28354 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -981,13 +981,14 @@ class SecretKeyPacket(PublicKeyPacket):
 
         if self.public_key_algorithm in (1, 2, 3):
             # RSA
-            self.exponent_d = values[0]
-            self.prime_p = values[1]
-            self.prime_q = values[2]
-            self.multiplicative_inverse_u = values[3]
+            d, p, q, u = values
+            self.exponent_d = d
+            self.prime_p = p
+            self.prime_q = q
+            self.multiplicative_inverse_u = u
         elif self.public_key_algorithm in (16, 17, 20):
             # DSA & ElGamal
-            self.exponent_x = values[0]
+            self.exponent_x, = values
         else:
             raise ValueError
 
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 525da51..7127352 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -602,13 +602,14 @@ class BaseSecretKey(BasePublicKey):
 
         if self.public_key_algorithm in (1, 2, 3):
             # RSA
-            self.exponent_d = values[0]
-            self.prime_p = values[1]
-            self.prime_q = values[2]
-            self.multiplicative_inverse_u = values[3]
+            d, p, q, u = values
+            self.exponent_d = d
+            self.prime_p = p
+            self.prime_q = q
+            self.multiplicative_inverse_u = u
         elif self.public_key_algorithm in (16, 17, 20):
             # DSA & Elg
-            self.exponent_x = values[0]
+            self.exponent_x, = values
         else:
             raise ValueError
 
-- 
2.43.0


From c3f16bcbf7c4f428df5af27eeed354f25e593f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 124/171] fix: accept revocations of subkeys before their
 binding, as GnuPG writes them

---
 pgp/transferrable_keys.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 7127352..2422640 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -955,8 +955,9 @@ def validate_transferrable_key(packets, secret=False):
                         ).format(previous))
                 if (
                         previous == C.SIGNATURE_PACKET_TYPE
-                        and packets[j].signature_type !=
-                            C.SUBKEY_BINDING_SIGNATURE
+                        and packets[j].signature_type not in
+                            (C.SUBKEY_BINDING_SIGNATURE,
+                             C.SUBKEY_REVOCATION_SIGNATURE)
                         ):
                     raise exceptions.InvalidKeyPacketOrder((
                         "Subkey Binding Signature may only appear "
@@ -973,13 +974,12 @@ def validate_transferrable_key(packets, secret=False):
                                     "Packet and other Signatures Directly On "
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
-                if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type not in
-                        (C.SUBKEY_BINDING_SIGNATURE,
-                         C.SUBKEY_REVOCATION_SIGNATURE)):
+                # "[[Subkey [Binding-Signature-Revocation]
+                #           Primary-Key-Binding-Signature] ...]"
+                if previous_non_sig != subkey_packet_type:
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
-                                "after a Subkey Binding Signature")
+                                "after a Subkey Packet")
             elif sig_type in (C.GENERIC_CERTIFICATION, C.PERSONA_CERTIFICATION,
                               C.CASUAL_CERTIFICATION, C.POSITIVE_CERTIFICATION,
                               C.CERTIFICATION_REVOCATION_SIGNATURE):
@@ -1016,10 +1016,15 @@ def validate_transferrable_key(packets, secret=False):
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1:i + 2] != [C.SIGNATURE_PACKET_TYPE]
-                    or packets[i + 1].signature_type !=
-                        C.SUBKEY_BINDING_SIGNATURE):
-
+            bound = False
+            for following in packets[i + 1:]:
+                if following.type == C.TRUST_PACKET_TYPE:
+                    continue
+                if following.type != C.SIGNATURE_PACKET_TYPE:
+                    break
+                if following.signature_type == C.SUBKEY_BINDING_SIGNATURE:
+                    bound = True
+            if not bound:
                 raise exceptions.InvalidKeyPacketOrder(
                             "Subkeys must be followed by a binding signature")
         elif this == C.TRUST_PACKET_TYPE:
-- 
2.43.0


From c0e6ee68c33bb44a4803cbbe490ebd56003fed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 125/171] fix: read keys with trust packets that do not follow
 a signature

---
 pgp/transferrable_keys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 2422640..28a4933 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -1028,9 +1028,9 @@ def validate_transferrable_key(packets, secret=False):
                 raise exceptions.InvalidKeyPacketOrder(
                             "Subkeys must be followed by a binding signature")
         elif this == C.TRUST_PACKET_TYPE:
-            if previous != C.SIGNATURE_PACKET_TYPE:
-                raise exceptions.InvalidKeyPacketOrder(
-                            "Trust packets may only follow signature packets")
+            # GnuPG writes trust packets after keys and user IDs as well as
+            # after signatures.
+            pass
         else:
             raise exceptions.InvalidKeyPacketType(this)
 
-- 
2.43.0


From 6b7261844e1ded8e8f882b5f601b61e619a6a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 126/171] fix: set one key flag of a signature without granting
 all others

---
 pgp/signature.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index d6a9513..7f96d77 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -33,6 +33,11 @@ from pgp.user_id import parse_user_id
 _marker = object()
 
 
+KEY_FLAGS = ('may_certify_others', 'may_sign_data', 'may_encrypt_comms',
+             'may_encrypt_storage', 'may_be_used_for_auth',
+             'may_have_been_split', 'may_have_multiple_owners')
+
+
 @implementer(interfaces.INotation)
 class Notation(object):
 
@@ -291,8 +296,12 @@ class BaseSignature(object):
 
     def _add_subpacket_values(self, type_, attr, value, hashed=True,
                               critical=False):
-        sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
-                **{attr: value, 'critical': critical})
+        values = {attr: value, 'critical': critical}
+        if type_ == C.KEY_FLAGS_SUBPACKET_TYPE:
+            # Only what was asked for
+            for flag in KEY_FLAGS:
+                values.setdefault(flag, False)
+        sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](**values)
         self._add_subpacket(sub)
 
     def _remove_subpacket_values(self, type_, attr, value):
-- 
2.43.0


From c717f52c4a71beb614537e183bc5ade5935ea330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 127/171] fix: iterate over the fingerprints of a keyring

---
 pgp/db/gpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 62580d1..cf5883f 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -228,7 +228,7 @@ class BaseResource(object):
             yield self.get_transferrable_key(k)
 
     def __iter__(self):
-        return self.keys()
+        return iter(self.keys())
 
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
-- 
2.43.0


From e711a2e50b5c36ae9b411e577d0e9e9f874cb5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 128/171] fix: do not use the cache of the agent when told not
 to

---
 pgp/pinentry/gpg_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 95edcdb..e625d33 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -75,7 +75,7 @@ class GPGAgentPinentry(object):
             params += ' --repeat'
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
-        if cache_id:
+        if cache_id and use_cache:
             params += ' {0}'.format(quote(cache_id))
         else:
             params += ' X'
-- 
2.43.0


From 5a13158e7ef4d3a5d5dd47b4c8d390ac837c5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 129/171] fix: remove the lock of a process that is gone even
 if another one was about to

---
 pgp/db/gpg.py | 64 +++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index cf5883f..12443f8 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -16,6 +16,10 @@
 
 import atexit
 from collections import OrderedDict
+try:
+    import fcntl
+except ImportError:
+    fcntl = None
 try:
     from dbm import gnu as gdbm
     HAVE_GDBM = True
@@ -115,42 +119,39 @@ class Lock(object):
 
     def read(self):
         with open(self.name, 'r') as fh:
-            pid = int(fh.read(10))
-            node = fh.read().strip()
+            return self._read(fh)
+
+    def _read(self, fh):
+        pid = int(fh.read(10))
+        node = fh.read().strip()
 
         return pid, node == platform.node()
 
-    def _is_stale(self):
-        """Whether the process that has the lock is gone."""
+    def _break_stale(self):
+        """Remove the lock if the process that has it is gone."""
         try:
-            pid, same_node = self.read()
+            with open(self.name, 'r') as fh:
+                pid, same_node = self._read(fh)
+                if not same_node or pid == os.getpid():
+                    return
+                try:
+                    os.kill(pid, 0)
+                except ProcessLookupError:
+                    pass
+                except OSError:
+                    return
+                else:
+                    return
+                # Only one process may remove it. It could be the lock of
+                # another one by now otherwise.
+                if fcntl is not None:
+                    fcntl.flock(fh, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                if os.path.samestat(os.fstat(fh.fileno()),
+                                    os.stat(self.name)):
+                    os.unlink(self.name)
         except (OSError, ValueError):
-            # Released in the meantime
-            return False
-        if not same_node or pid == os.getpid():
-            return False
-        try:
-            os.kill(pid, 0)
-        except ProcessLookupError:
-            return True
-        except OSError:
+            # Released or removed in the meantime
             pass
-        return False
-
-    def _break_stale(self):
-        """Remove the lock of a process that is gone."""
-        # Only one process may do so at a time. It could be another one's
-        # lock by now otherwise.
-        breaker_name = self.name + '.break'
-        try:
-            os.link(self.template_name, breaker_name)
-        except FileExistsError:
-            return
-        try:
-            if self._is_stale():
-                os.unlink(self.name)
-        finally:
-            os.unlink(breaker_name)
 
     def acquire(self, timeout=None):
         start = time.time()
@@ -167,8 +168,7 @@ class Lock(object):
                     break
                 except FileExistsError:
                     pass
-                if self._is_stale():
-                    self._break_stale()
+                self._break_stale()
                 if timeout is not None and (time.time() - start) > timeout:
                     self._lock.release()
                     return False
-- 
2.43.0


From 02f9f6316e26f8dcc5e40e1b0955ef6f9772d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 130/171] fix: locks of keyrings in forked processes

---
 pgp/db/gpg.py | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 12443f8..79ffc18 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -80,6 +80,16 @@ def _clean_up_locks():
             pass
 
 
+def _forget_locks():
+    # What the parent process has is not of the child
+    for l in _locks:
+        l._reset()
+
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_forget_locks)
+
+
 class Lock(object):
 
     name = None
@@ -87,27 +97,36 @@ class Lock(object):
     locked = False
 
     def __init__(self, filename):
+        self.name = '{0}{1}lock'.format(
+            filename,
+            os.path.extsep)
+        self._dirname = os.path.dirname(filename) or os.path.curdir
+        self._reset()
+        self._write_template()
+        _locks.append(self)
+
+    def _reset(self):
+        self.template_name = None
+        self.locked = False
+        self._lock = threading.RLock()
+        self._depth = 0
+        self._owner = None
+
+    def _write_template(self):
         node_name = platform.node()
-        dirpart = os.path.dirname(filename) or os.path.curdir
         # The name is as unique as what is written: the lock is a link to it.
-        self.template_name = '{0}{1}.#lk{2:x}.{3}.{4}'.format(
-            dirpart,
+        template_name = '{0}{1}.#lk{2:x}.{3}.{4}'.format(
+            self._dirname,
             os.path.sep,
             id(self),
             node_name,
             os.getpid()
             )
-        with open(self.template_name, 'w') as lock_fh:
+        with open(template_name, 'w') as lock_fh:
             lock_fh.write('{0:010d}'.format(os.getpid()))
             lock_fh.write(node_name)
             lock_fh.write('\n')
-        self.name = '{0}{1}lock'.format(
-            filename,
-            os.path.extsep)
-        self._lock = threading.RLock()
-        self._depth = 0
-        self._owner = None
-        _locks.append(self)
+        self.template_name = template_name
 
     def __del__(self):
         try:
@@ -162,6 +181,8 @@ class Lock(object):
             self._depth += 1
             return True
         try:
+            if self.template_name is None:
+                self._write_template()
             while 1:
                 try:
                     os.link(self.template_name, self.name)
-- 
2.43.0


From 8c6980286432bcebc940260dafd8e67f4d2dd47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 131/171] fix: compare a signature with something else, such as
 a target that is not there

---
 pgp/signature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/signature.py b/pgp/signature.py
index 7f96d77..136ab25 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -250,6 +250,8 @@ class BaseSignature(object):
         self.get_current_time = current_time_fn
 
     def __eq__(self, other):
+        if not isinstance(other, BaseSignature):
+            return NotImplemented
         return bytes(self.to_packet()) == bytes(other.to_packet())
 
     def __hash__(self):
-- 
2.43.0


From 50f9e192cb88dbb4562c9abaa76ede52cb455ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 132/171] fix: expiration and order of signatures in the hour
 repeated at the end of summer time

---
 pgp/signature.py          | 13 +++++++++----
 pgp/transferrable_keys.py |  7 ++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 136ab25..88b84bf 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -325,9 +325,9 @@ class BaseSignature(object):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
         exp_time = self.signature_expiration_time
-        if exp_time is not None and exp_time <= dt:
-            raise ValueError
         value = utils.datetime_to_int(dt)
+        if exp_time is not None and utils.datetime_to_int(exp_time) <= value:
+            raise ValueError
         if self.version in (2, 3):
             self._creation_time = value
         elif self.version >= 4:
@@ -877,7 +877,11 @@ class BaseSignature(object):
     @property
     def expired(self):
         if self.signature_expiration_time:
-            return self.get_current_time() > self.signature_expiration_time
+            # Times of the hour repeated at the end of summer time are only
+            # told apart as seconds
+            return (
+                utils.datetime_to_int(self.get_current_time())
+                > utils.datetime_to_int(self.signature_expiration_time))
         return False
 
     @property
@@ -907,7 +911,8 @@ class BaseSignature(object):
         # All that the issuer signed before
         return (
             bool(set(self.issuer_key_ids) & set(sig.issuer_key_ids))
-            and sig.creation_time <= self.creation_time
+            and utils.datetime_to_int(sig.creation_time)
+            <= utils.datetime_to_int(self.creation_time)
             )
 
     @property
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 28a4933..d0d2e22 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -96,7 +96,7 @@ class SignedMixin(object):
         return bool(self.revocation_signatures)
 
     def get_most_recent_selfsig(self, revocation=False):
-        last_signature_created = datetime.datetime(1900, 1, 1)
+        last_signature_created = -1
         most_recent_selfsig = None
         for signature in self.signatures:
             if not signature.is_self_signature():
@@ -112,8 +112,9 @@ class SignedMixin(object):
                     self._revocation_sig_types
                     ):
                 continue
-            if last_signature_created < signature.creation_time:
-                last_signature_created = signature.creation_time
+            created = utils.datetime_to_int(signature.creation_time)
+            if last_signature_created < created:
+                last_signature_created = created
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
-- 
2.43.0


From ba5e69badb4f3146c901396edc98674599ae8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 133/171] fix: user IDs that are only a name

---
 pgp/user_id.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 2708af5..6c24e58 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -317,6 +317,13 @@ class AddrlistClass:
 
 def parse_user_id(user_id):
     a = AddrlistClass(user_id)
+    a.gotonext()
+    names = a.getphraselist()
+    a.gotonext()
+    if a.pos >= len(user_id):
+        # Only a name, without an address
+        return SPACE.join(names).strip(), '', SPACE.join(a.commentlist)
+    a = AddrlistClass(user_id)
     user_name, user_email = (a.getaddress() or [('', '')])[0]
     user_comment = ' '.join(a.commentlist)
     if user_name == user_comment and '<' not in user_id:
-- 
2.43.0


From 9c99167e8b6e4a6ad61820a6f5be3ccfbb60a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 134/171] fix: do not submit local certifications to key
 servers

---
 pgp/keyserver/hkp.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 24f762c..0106c48 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -23,6 +23,7 @@ from urllib.parse import urlunparse
 import requests
 
 from pgp import armor
+from pgp.packets import constants as C
 from pgp.shortcuts import read_key
 
 
@@ -35,6 +36,16 @@ def _add_colons(line, number):
     return line
 
 
+def _is_local(packet):
+    # "[...] when an implementation prepares a user's copy of a key for
+    #  transport to another user (this is the process of "exporting" the
+    #  key), any local certification signatures are deleted from the key."
+    subpackets = (list(getattr(packet, 'hashed_subpackets', ()))
+                  + list(getattr(packet, 'unhashed_subpackets', ())))
+    return any(s.type == C.EXPORTABLE_SUBPACKET_TYPE and not s.exportable
+               for s in subpackets)
+
+
 def _parse_int(field):
     return int(field) if field else None
 
@@ -173,7 +184,8 @@ class HKPKeyserverClient(object):
         if hasattr(key, 'to_public_key'):
             # Never send secrets
             key = key.to_public_key()
-        key_data = b''.join(map(bytes, key.to_packets()))
+        key_data = b''.join(
+            bytes(p) for p in key.to_packets() if not _is_local(p))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
             'keytext': str(a),
-- 
2.43.0


From 9ec653a4b7d33da5b30af1f5fbf6de9e14ff3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 135/171] fix: use HTTPS for key servers with an https URL

---
 pgp/keyserver/hkp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 0106c48..15bbe8a 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -127,9 +127,10 @@ class HKPKeyserverClient(object):
 
     def __init__(self, base_url):
         parts = urlparse(base_url)
+        scheme, netloc = parts.scheme.lower(), parts.netloc
         base_url = urlunparse(
-            (('https' if parts.scheme.lower() == 'hkps' else 'http'),)
-            + parts[1:6])
+            (('https' if scheme in ('hkps', 'https') else 'http'), netloc)
+            + parts[2:6])
         self.base_url = base_url
 
     @property
-- 
2.43.0


From 09569dffa238cec6f386c216112db0fb161588e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 136/171] fix: use the default port of HKP

---
 pgp/keyserver/hkp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 15bbe8a..8baa150 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -128,6 +128,9 @@ class HKPKeyserverClient(object):
     def __init__(self, base_url):
         parts = urlparse(base_url)
         scheme, netloc = parts.scheme.lower(), parts.netloc
+        if scheme == 'hkp' and parts.port is None:
+            # The default port of HKP
+            netloc = '{0}:11371'.format(netloc.rstrip(':'))
         base_url = urlunparse(
             (('https' if scheme in ('hkps', 'https') else 'http'), netloc)
             + parts[2:6])
-- 
2.43.0


From 320d6580d50d2fe3133018772baa7784352a1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 137/171] fix: disconnect from an agent that does not welcome

---
 pgp/pinentry/gpg_agent.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index e625d33..2952c5f 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -32,9 +32,13 @@ class GPGAgentPinentry(object):
 
     def connect(self):
         self._sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
-        self._sock.connect(self.socket_path)
-        # Get welcome line
-        self.get_response()
+        try:
+            self._sock.connect(self.socket_path)
+            # Get welcome line
+            self.get_response()
+        except BaseException:
+            self.disconnect()
+            raise
 
     def disconnect(self):
         self._sock.close()
-- 
2.43.0


From 25c66d8e99c1f2be9ef44b207bb7968cfc01a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 138/171] fix: keep quoted local parts of addresses as they are

---
 pgp/user_id.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 6c24e58..d9ce429 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -12,10 +12,7 @@
 """User ID parsing code."""
 
 
-try:
-    from urllib.parse import quote
-except ImportError:
-    from urllib import quote
+from email.utils import quote
 
 
 EMPTYSTRING = ''
-- 
2.43.0


From c7acd97985a5db151c8c1d1a6db01582a322e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 139/171] fix: keep parentheses and backslashes in comments of
 user IDs

---
 pgp/transferrable_keys.py | 4 +++-
 pgp/user_id.py            | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index d0d2e22..99a8f4c 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -44,6 +44,7 @@ except NameError:
 
 
 SPECIALS = re.compile(r'[][\\()<>@,:;"]')
+COMMENT_SPECIALS = re.compile(r'[\\()]')
 
 
 class SignedMixin(object):
@@ -750,7 +751,8 @@ class UserID(SignedMixin):
                 name = u'"{0}"'.format(email.utils.quote(name))
             parts.append(name)
         if comment:
-            parts.append(u'({0})'.format(comment))
+            parts.append(u'({0})'.format(COMMENT_SPECIALS.sub(r'\\\g<0>',
+                                                              comment)))
         if emailaddr:
             parts.append(
                 u'<{0}>'.format(emailaddr) if parts else emailaddr)
diff --git a/pgp/user_id.py b/pgp/user_id.py
index d9ce429..7a80173 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -246,7 +246,7 @@ class AddrlistClass:
                 self.pos += 1
                 break
             elif allowcomments and self.field[self.pos] == '(':
-                slist.append(self.getcomment())
+                slist.append('(' + self.getcomment() + ')')
                 continue        # have already advanced pos from getcomment
             elif self.field[self.pos] == '\\':
                 quote = True
-- 
2.43.0


From ec95f9c8e34bc2332357833941a88e1d1cee48df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 140/171] fix: a repeated range is no reason to crash on a
 regular expression

---
 pgp/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/regex.py b/pgp/regex.py
index c748896..37b5ebe 100644
--- a/pgp/regex.py
+++ b/pgp/regex.py
@@ -135,7 +135,7 @@ def validate_partial_subpacket_regex(tokens):
                 else:
                     piece = current.piece
             elif isinstance(current, Piece):
-                if piece.complete:
+                if current.complete:
                     valid = False
                 piece = current
             else:
-- 
2.43.0


From ffd78befdf0b3624433386939710c1d47426f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 141/171] fix: backslashes in ranges and at the end of regular
 expressions

---
 pgp/regex.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pgp/regex.py b/pgp/regex.py
index 37b5ebe..ad162b0 100644
--- a/pgp/regex.py
+++ b/pgp/regex.py
@@ -27,7 +27,7 @@ import re
 from pgp.exceptions import RegexValueError
 
 
-re_tokenizer = re.compile(r'(\\.|[\]|*?+()\[]|[^\\])')
+re_tokenizer = re.compile(r'(\\.|[\]|*?+()\[]|[^\\]|\\\Z)', re.DOTALL)
 
 
 class Regex(object):
@@ -103,6 +103,15 @@ def validate_partial_subpacket_regex(tokens):
     unterminated = False
     while valid and tokens:
         tok = tokens.pop(0)
+        if (
+                tok[0] == '\\' and isinstance(current, Range)
+                and not current.complete
+            ):
+            # Nothing special within a range, and neither is what follows
+            # it escaped by it.
+            tokens[:0] = tok[1:]
+            current.content += tok[0]
+            continue
         if tok == '|':
             piece = None
             if isinstance(current, Range) and not current.complete:
@@ -232,6 +241,9 @@ def validate_partial_subpacket_regex(tokens):
                     piece.atom = current
 
             current.content += (tok)
+            if tok == '\\':
+                # Nothing to escape
+                unterminated = True
 
     if (
             valid and
-- 
2.43.0


From fc1f03ffa69972ddcdb487dc5b890d2692b35acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 142/171] fix: one-pass signatures of different versions are
 not equal

---
 pgp/packets/packets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index ea28354..de18c2f 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -690,6 +690,7 @@ class OnePassSignaturePacket(Packet):
     def __eq__(self, other):
         return (
             super(OnePassSignaturePacket, self).__eq__(other)
+            and self.version == other.version
             and self.signature_type == other.signature_type
             and self.hash_algorithm == other.hash_algorithm
             and self.public_key_algorithm == other.public_key_algorithm
-- 
2.43.0


From 77964ecece4929f9ff96e76cbe5a17951dc0c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 143/171] fix: unknown packets are equal when their content is

---
 pgp/packets/packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index de18c2f..ce02074 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -107,6 +107,9 @@ class Packet(object):
             self.__class__ == other.__class__
             and self.header_format == other.header_format
             and self.type == other.type
+            # Nothing is known of unknown packets but their content.
+            and (self.__class__ is not Packet
+                 or self.content == other.content)
             )
 
     def __repr__(self):
-- 
2.43.0


From 0bc2d4254d97c9196df7c8922a4cb2e705f2f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 144/171] fix: do not add comments before the address to the
 name of a user ID

---
 pgp/user_id.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 7a80173..f6c1a52 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -118,11 +118,7 @@ class AddrlistClass:
             # Address is a phrase then a route addr
             routeaddr = self.getrouteaddr()
 
-            if self.commentlist:
-                returnlist = [(SPACE.join(plist) + ' (' +
-                               ' '.join(self.commentlist) + ')', routeaddr)]
-            else:
-                returnlist = [(SPACE.join(plist), routeaddr)]
+            returnlist = [(SPACE.join(plist), routeaddr)]
 
         else:
             if plist:
@@ -326,7 +322,4 @@ def parse_user_id(user_id):
     if user_name == user_comment and '<' not in user_id:
         # Of an address without a name
         user_name = ''
-    suffix = ' ({0})'.format(user_comment)
-    if a.commentlist and user_name.endswith(suffix):
-        user_name = user_name[:-len(suffix)]
     return user_name.strip(), user_email, user_comment
-- 
2.43.0


From 1cb6c6da5fdc58e96faec5fc999ceb22c7d3887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:22 +0000
Subject: [PATCH 145/171] fix: skip folding white space after the domain of a
 user ID

---
 pgp/user_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index f6c1a52..f0ee6b0 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -200,7 +200,7 @@ class AddrlistClass:
         """Get the complete domain name from an address."""
         sdlist = []
         while self.pos < len(self.field):
-            if self.field[self.pos] in self.LWS:
+            if self.field[self.pos] in self.FWS:
                 self.pos += 1
             elif self.field[self.pos] == '(':
                 self.commentlist.append(self.getcomment())
-- 
2.43.0


From 040a94fecf00f0b8d86b1042904cb6bbbf8ac94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 146/171] fix: do not read comments within an address of a user
 ID twice

---
 pgp/user_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index f0ee6b0..934e0cf 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -82,7 +82,7 @@ class AddrlistClass:
         self.gotonext()
 
         oldpos = self.pos
-        oldcl = self.commentlist
+        oldcl = list(self.commentlist)
         plist = self.getphraselist()
 
         self.gotonext()
-- 
2.43.0


From 55b0bfb89805144940092b5ea4d3aef241819c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 147/171] fix: read the address after a list of routes

---
 pgp/user_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 934e0cf..a980364 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -153,7 +153,7 @@ class AddrlistClass:
             elif self.field[self.pos] == '@':
                 self.pos += 1
                 expectroute = True
-            elif self.field[self.pos] == ':':
+            elif self.field[self.pos] in ',:':
                 self.pos += 1
             else:
                 adlist = self.getaddrspec()
-- 
2.43.0


From 4dd79e3f8692811f7369bc9bab0cddacc7d7b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 148/171] fix: do not share lists between keys without
 self-signatures

---
 pgp/transferrable_keys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 99a8f4c..77f293e 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import datetime
 import email.utils
 import re
@@ -123,10 +124,11 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
-            result = default
+            # Not the same list for every key
+            result = copy.copy(default)
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
-                result = getattr(most_recent_selfsig, name, default)
+                result = getattr(most_recent_selfsig, name, result)
 
             return result
 
-- 
2.43.0


From e116b36f488e79488a280f7cb012bc13510a28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 149/171] fix: write literal data of the formats that can be
 read

---
 pgp/packets/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index ce02074..3a2de31 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1360,7 +1360,8 @@ class LiteralDataPacket(Packet):
     def content(self):
         if self.data_format in (b'l', b'1'):
             warnings.warn('Local mode for data is deprecated.')
-        elif self.data_format not in (b'b', b't', b'u'):
+        elif len(self.data_format) != 1:
+            # Other formats are read as binary data
             raise ValueError
         data = bytearray(self.data_format)
         # "Unless otherwise specified, the character set for text is the
-- 
2.43.0


From 89cbb04c032bbe9e7cb2b49209a65f600a0f5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 150/171] fix: write one-pass messages with signatures that
 name no issuer

---
 pgp/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index 3a60a7e..eeac1ad 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -714,7 +714,7 @@ class SignedMessageWrapper(BaseMessage):
                         sig.signature_type,
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
-                        sig.issuer_key_ids[0],
+                        (sig.issuer_key_ids or ['0' * 16])[0],
                         nested=int(sig is self.signatures[0])
                     ))
             pkts.extend(self.message.to_packets(header_format))
-- 
2.43.0


From e24750393fe71713dbc790fb49ceae80aa314a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 151/171] fix: show signatures that name no issuer

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 88b84bf..815aa0f 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -213,7 +213,7 @@ class BaseSignature(object):
         return '<{0} {1} by {2} {3}at 0x{4:x}>'.format(
             self.__class__.__name__,
             C.human_signature_types.get(self.signature_type, 'Unknown'),
-            self.issuer_key_ids[0],
+            (self.issuer_key_ids or ['nobody'])[0],
             validation,
             id(self))
 
-- 
2.43.0


From d4dad62fb988bb91dad15bd61c8027510f508914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:40 +0000
Subject: [PATCH 152/171] fix: read keys with signatures that have no creation
 time

---
 pgp/signature.py          | 18 +++++++++++++-----
 pgp/transferrable_keys.py |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 815aa0f..72d5186 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -319,8 +319,18 @@ class BaseSignature(object):
             value = self._get_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time')
+        if value is None:
+            # Not in the subpackets
+            return None
         return datetime.datetime.fromtimestamp(value)
 
+    def _get_creation_seconds(self):
+        creation_time = self.creation_time
+        if creation_time is None:
+            # Older than any other
+            return 0
+        return utils.datetime_to_int(creation_time)
+
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
@@ -382,14 +392,13 @@ class BaseSignature(object):
         if not seconds:
             return None
         return datetime.datetime.fromtimestamp(
-            utils.datetime_to_int(self.creation_time) + seconds)
+            self._get_creation_seconds() + seconds)
 
     def _set_signature_expiration_time(self, dt):
         if dt is None:
             value = 0
         else:
-            value = (utils.datetime_to_int(dt) -
-                     utils.datetime_to_int(self.creation_time))
+            value = utils.datetime_to_int(dt) - self._get_creation_seconds()
             # A value of zero would never expire
             if value <= 0:
                 raise ValueError
@@ -911,8 +920,7 @@ class BaseSignature(object):
         # All that the issuer signed before
         return (
             bool(set(self.issuer_key_ids) & set(sig.issuer_key_ids))
-            and utils.datetime_to_int(sig.creation_time)
-            <= utils.datetime_to_int(self.creation_time)
+            and sig._get_creation_seconds() <= self._get_creation_seconds()
             )
 
     @property
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 77f293e..191aeec 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -114,7 +114,7 @@ class SignedMixin(object):
                     self._revocation_sig_types
                     ):
                 continue
-            created = utils.datetime_to_int(signature.creation_time)
+            created = signature._get_creation_seconds()
             if last_signature_created < created:
                 last_signature_created = created
                 most_recent_selfsig = signature
-- 
2.43.0


From 16e74813283da35e99872b004aed859687824150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:45 +0000
Subject: [PATCH 153/171] fix: signatures of messages have no target

---
 pgp/signature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 72d5186..ac54993 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -853,10 +853,11 @@ class BaseSignature(object):
     @property
     def target(self):
         parent = self.parent
+        signatures = getattr(parent, 'signatures', [])
         # get target subpacket
         subpackets = self._get_subpackets(C.TARGET_SUBPACKET_TYPE)
         for sub in subpackets:
-            for sig in parent.signatures:
+            for sig in signatures:
                 if (
                         sig.public_key_algorithm != sub.public_key_algorithm
                         or sig.hash_algorithm != sub.hash_algorithm
@@ -875,7 +876,7 @@ class BaseSignature(object):
 
         # Fallback
         revocable = []
-        for sig in parent.signatures:
+        for sig in signatures:
             if sig is self:
                 continue
             if set(self.issuer_key_ids) & set(sig.issuer_key_ids):
-- 
2.43.0


From 1d79f1aa13c1f0a56c7a3a17d8099d940bab6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 154/171] fix: the target of a revocation may be of an unknown
 digest algorithm

---
 pgp/signature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index ac54993..12bf649 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -863,7 +863,10 @@ class BaseSignature(object):
                         or sig.hash_algorithm != sub.hash_algorithm
                         ):
                     continue
-                hash_ = utils.get_hash_instance(sig.hash_algorithm)
+                try:
+                    hash_ = utils.get_hash_instance(sig.hash_algorithm)
+                except exceptions.UnsupportedDigestAlgorithm:
+                    continue
                 hash_.update(parent.to_signable_data(sig.signature_type,
                                                      sig.version))
                 hash_.update(sig.to_signable_data(sig.signature_type,
-- 
2.43.0


From 7217e90396ab44ec81482ad93daa5fee06f6f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:02 +0000
Subject: [PATCH 155/171] fix: signatures within signatures are not revoked by
 others

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 12bf649..1560913 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -913,7 +913,7 @@ class BaseSignature(object):
                 # "Signatures that are not revocable have any later revocation
                 #  signatures ignored."
                 return False
-            for s in self.parent.signatures:
+            for s in getattr(self.parent, 'signatures', []):
                 if s.revocation and s._revokes(self):
                     return True
         return False
-- 
2.43.0


From 00e12175709330360539bb2f4f80dd1f90301b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 156/171] fix: write secret key packets without secret values

---
 pgp/packets/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 3a2de31..d37226b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1153,6 +1153,10 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 raise ValueError
 
+            if values == [None] * len(values):
+                # The secret values are missing altogether
+                return data
+
             key = self._get_key(self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-- 
2.43.0


From 6d1391c414de482965e2a18fccbb207a0bae85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 157/171] fix: trust packets without a cache of signatures are
 not checked

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index d37226b..b828511 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1420,11 +1420,11 @@ class TrustPacket(Packet):
 
     @property
     def checked(self):
-        return bool(self.sig_cache & 1)
+        return bool((self.sig_cache or 0) & 1)
 
     @property
     def valid(self):
-        return bool(self.sig_cache & 2)
+        return bool((self.sig_cache or 0) & 2)
 
     @property
     def content(self):
-- 
2.43.0


From 0c7e1b13807a7ba2c7b9aebf82c255e4757f2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 158/171] fix: keep all of the class octet of key subpackets

---
 pgp/packets/signature_subpackets.py | 31 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index f8728f3..8c01b64 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -213,9 +213,14 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
-        return cls(critical, strong_request, public_key_algorithm,
-                   fingerprint)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2)
+        result = cls(critical, strong_request, public_key_algorithm,
+                     fingerprint)
+        result._other_class_bits = sub_data[0] & 0x7f
+        return result
+
+    # Bits of the class octet that have no meaning yet
+    _other_class_bits = 0
 
     def __init__(self, critical, strong_request, public_key_algorithm,
                  fingerprint):
@@ -231,10 +236,12 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
         warnings.warn("The additional recipients request signature subpacket "
                       "type is deprecated.")
         data = bytearray([
-                    0x80 if self.strong_request else 0x00,
+                    (0x80 if self.strong_request else 0x00)
+                    | self._other_class_bits,
                     self.public_key_algorithm,
                 ])
-        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
+        data.extend(utils.hex_to_bytes(self.fingerprint,
+                                       len(self.fingerprint) // 2))
         return data
 
 
@@ -269,8 +276,15 @@ class RevocationKeySubpacket(SignatureSubpacket):
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
         fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
-        return cls(critical, fingerprint, public_key_algorithm,
-                   sensitive=sensitive)
+        result = cls(critical, fingerprint, public_key_algorithm,
+                     sensitive=sensitive)
+        # "Other bits are for future expansion to other kinds of
+        #  authorizations."
+        result._other_class_bits = tag & 0x3f
+        return result
+
+    # Bits of the class octet that have no meaning yet
+    _other_class_bits = 0
 
     def __init__(self, critical, fingerprint, public_key_algorithm,
                  sensitive=False):
@@ -288,7 +302,8 @@ class RevocationKeySubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        tag = 0x80 + (0x40 if self.sensitive else 0x00)
+        tag = (0x80 | (0x40 if self.sensitive else 0x00)
+               | self._other_class_bits)
         data = bytearray([tag, int(self.public_key_algorithm)])
         data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
-- 
2.43.0


From c6232f4215214e6c17888fabaa578ad4ab13cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:02 +0000
Subject: [PATCH 159/171] fix: refuse octets that are not the start of a packet

---
 pgp/packets/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b828511..525e660 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1700,6 +1700,8 @@ def packet_from_packet_stream(fh):
     packet_data = bytearray()
     incomplete = True
     first = ord(fh.read(1))
+    if not first & 0x80:
+        raise ValueError("Not a packet")
     tag = first & 0x3f
     header_type = (
             constants.NEW_PACKET_HEADER_TYPE
@@ -1741,6 +1743,8 @@ def packet_from_packet_data(data, offset=0):
     tag = None
     while incomplete:
         if tag is None:
+            if not data[offset] & 0x80:
+                raise ValueError("Not a packet")
             tag = data[offset] & 0x3f
             header_type = (
                     constants.NEW_PACKET_HEADER_TYPE
-- 
2.43.0


From 6b311a29ad9611fe5fe2de63fb4e26329f29cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:39 +0000
Subject: [PATCH 160/171] fix: refuse truncated image headers

---
 pgp/packets/user_attribute_subpackets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 600d9d7..e206fee 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -73,6 +73,8 @@ class ImageAttributeSubpacket(UserAttributeSubpacket):
             if not header_length == 16:
                 raise ValueError
             image_format = sub_data[3]
+            if len(sub_data) < header_length:
+                raise ValueError('Truncated image header')
             if any(sub_data[4:16]):
                 # Incorrect
                 raise ValueError
-- 
2.43.0


From 1142f11b2813f25ad77b59c50848bec10edca56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:50 +0000
Subject: [PATCH 161/171] fix: keep the octets of signatures within signatures

---
 pgp/packets/signature_subpackets.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 8c01b64..56f1703 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -641,7 +641,12 @@ class EmbeddedSignatureSubpacket(SignatureSubpacket):
         signature = SignaturePacket.from_packet_content(
                         constants.NEW_PACKET_HEADER_TYPE, 2, sub_data
                     )
-        return cls(critical, signature)
+        result = cls(critical, signature)
+        result._octets_read = bytes(signature.content), bytearray(sub_data)
+        return result
+
+    # What the signature is written as, and what it was read from
+    _octets_read = None, None
 
     def __init__(self, critical, signature):
         SignatureSubpacket.__init__(
@@ -650,7 +655,12 @@ class EmbeddedSignatureSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return self.signature.content
+        data = self.signature.content
+        written, read = self._octets_read
+        if bytes(data) == written:
+            # What was signed, even if its numbers have leading zeros
+            return bytearray(read)
+        return data
 
 
 SIGNATURE_SUBPACKET_TYPES = {
-- 
2.43.0


From d25a0cb60af0a27d4d8151ce75e49de85633f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 162/171] fix: set the offset table while the keyring is locked

---
 pgp/db/gpg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 79ffc18..aae0f6e 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -402,11 +402,11 @@ class Keyring(BaseResource):
                         offset_table[packet.fingerprint] = \
                             (last_offset, packet.key_id)
                     last_offset = fh.tell()
+            # Only while it is locked: another thread may be using it
+            self._offset_table = offset_table
         finally:
             self.unlock_db()
 
-        self._offset_table = offset_table
-
     def _get_offset(self, fingerprint):
         """The offset of a key from its fingerprint or its key ID."""
         fingerprint = fingerprint.upper()
-- 
2.43.0


From 1516b4acfc76f9585e70f3281fe31412d19baa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 163/171] fix: sign messages with a preferred digest that is
 known

---
 pgp/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index eeac1ad..26a4a56 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -45,7 +45,9 @@ class BaseMessage(object):
              hash_algorithm=None, one_pass=True):
 
         if hash_algorithm is None:
-            hash_algorithms = secret_key.preferred_hash_algorithms
+            hash_algorithms = [
+                a for a in secret_key.preferred_hash_algorithms
+                if a in utils.hash_lengths]
             if hash_algorithms:
                 hash_algorithm = hash_algorithms[0]
             else:
-- 
2.43.0


From 236d163f157995728146f1e13429be139df68640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:05 +0000
Subject: [PATCH 164/171] fix: read the index of a key server as UTF-8 lines

---
 pgp/keyserver/hkp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 8baa150..24518ce 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -145,7 +145,8 @@ class HKPKeyserverClient(object):
         return urljoin(self.base_url, 'pks/add')
 
     def _read_mr(self, data):
-        data = data.splitlines()
+        # Not all that is a line break of Unicode is one here
+        data = data.replace('\r\n', '\n').replace('\r', '\n').split('\n')
         results = []
         pub_key = None
         user_ids = []
@@ -182,6 +183,9 @@ class HKPKeyserverClient(object):
             'exact': 'yes' if exact else 'no'
             })
         response.raise_for_status()
+        if 'charset' not in response.headers.get('content-type', '').lower():
+            # User IDs are UTF-8
+            response.encoding = 'utf-8'
         return self._read_mr(response.text)
 
     def submit(self, key, no_modify=False):
-- 
2.43.0


From 0d729287c581650694600107c2f1fc44a06db559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:04 +0000
Subject: [PATCH 165/171] fix: the parts of a public copy are its own

---
 pgp/transferrable_keys.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 191aeec..fbf63c1 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -476,8 +476,9 @@ class BaseSecretKey(BasePublicKey):
         self.hash = hash_
 
     def to_signable_data(self, signature_type, signature_version=3):
-        return self.to_public_key().to_signable_data(signature_type,
-                                                     signature_version)
+        # Without the parts of a transferable key
+        return BaseSecretKey.to_public_key(self).to_signable_data(
+            signature_type, signature_version)
 
     def to_public_key(self):
         key = self._PublicClass(
@@ -1148,6 +1149,28 @@ class TransferablePublicKey(BasePublicKey):
         self.subkeys = []
 
 
+def _copy_signatures(signatures, target):
+    result = []
+    for signature in signatures:
+        signature = copy.copy(signature)
+        signature._target_ref = weakref.ref(target)
+        signature.hashed_subpackets = copy.deepcopy(
+            signature.hashed_subpackets)
+        signature.unhashed_subpackets = copy.deepcopy(
+            signature.unhashed_subpackets)
+        result.append(signature)
+    return result
+
+
+def _copy_part(part, key):
+    part = copy.copy(part)
+    part._primary_public_key_ref = weakref.ref(key)
+    part.signatures = _copy_signatures(part.signatures, part)
+    if isinstance(part, UserAttribute):
+        part.content_items = list(map(copy.copy, part.content_items))
+    return part
+
+
 @provider(interfaces.ITransferableSecretKeyFactory)
 @implementer(interfaces.ITransferableSecretKey)
 class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
@@ -1164,10 +1187,15 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         self.subkeys = []
 
     def to_public_key(self):
+        # The parts of a key only have weak references to it: those of the
+        # public key are its own, or they would be lost with the secret key.
         key = super(TransferableSecretKey, self).to_public_key()
-        key.user_ids = self.user_ids
-        key.user_attributes = self.user_attributes
-        key.subkeys = list(map(lambda k: k.to_public_key(), self.subkeys))
+        key.signatures = _copy_signatures(self.signatures, key)
+        key.user_ids = [_copy_part(u, key) for u in self.user_ids]
+        key.user_attributes = [_copy_part(u, key)
+                               for u in self.user_attributes]
+        key.subkeys = [_copy_part(k.to_public_key(), key)
+                       for k in self.subkeys]
         return key
 
     def unlock(self, passphrase):
-- 
2.43.0


From 00036c0b5468d808ac656378fe581df7aa27e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:25 +0000
Subject: [PATCH 166/171] fix: refuse numbers that do not fit into their octets

---
 pgp/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index 4a1da36..64a2221 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -622,6 +622,8 @@ def int_to_2byte(i):
     representation, big-endian.
     """
 
+    if not 0 <= i <= 0xffff:
+        raise ValueError(i)
     return bytearray([
             (i >> 8) & 0xff,
             i & 0xff
@@ -633,6 +635,8 @@ def int_to_4byte(i):
     representation, big-endian.
     """
 
+    if not 0 <= i <= 0xffffffff:
+        raise ValueError(i)
     return bytearray([
             (i >> 24) & 0xff,
             (i >> 16) & 0xff,
@@ -646,6 +650,8 @@ def int_to_8byte(i):
     representation, big-endian.
     """
 
+    if not 0 <= i <= 0xffffffffffffffff:
+        raise ValueError(i)
     return bytearray([
             (i >> 56) & 0xff,
             (i >> 48) & 0xff,
-- 
2.43.0


From 22d6809d90da40f7663362a7b178c20d8388c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:15 +0000
Subject: [PATCH 167/171] fix: go on to the next session key when one turns out
 wrong

---
 pgp/message.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index 26a4a56..e57cee5 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -624,6 +624,7 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Message."
         is_passphrase = isinstance(secret_key_or_passphrase,
                                    (str, bytes, bytearray))
+        error = None
         for sess_key_obj in self.session_keys:
             if isinstance(sess_key_obj, PublicKeySessionKey):
                 if is_passphrase or not sess_key_obj.is_for_key(
@@ -641,10 +642,17 @@ class EncryptedMessageWrapper(BaseMessage):
                 key_length = utils.symmetric_cipher_key_lengths.get(sym_algo)
                 if not key_length or len(sess_key) != key_length:
                     continue
-                return self.message_data_obj.decrypt(sym_algo, sess_key)
             except ValueError:
                 continue
+            try:
+                return self.message_data_obj.decrypt(sym_algo, sess_key)
+            except Exception as e:
+                # What the wrong key makes of the data may be any octets, and
+                # the two that are repeated be right by chance
+                error = e
 
+        if error is not None:
+            raise error
         # TODO: raise a better error
         raise ValueError()
 
-- 
2.43.0


From b1c1694593dba54bd0e7ed7f4b805639f045c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 168/171] fix: refuse to add keys that there is no keyring for

---
 pgp/db/gpg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index aae0f6e..a8073c0 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -629,11 +629,15 @@ class GPGDatabase(object):
                 if resource.secret:
                     resource.add_transferrable_key(key)
                     break
+            else:
+                raise ValueError('There is no secret keyring.')
         elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
                 if not resource.secret:
                     resource.add_transferrable_key(key)
                     break
+            else:
+                raise ValueError('There is no public keyring.')
         else:
             raise TypeError
 
-- 
2.43.0


From 10ca9b97202d1e8ddea9962721d505064e32bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:26 +0000
Subject: [PATCH 169/171] fix: search for all keys with a key ID

---
 pgp/db/gpg.py | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index a8073c0..155c8db 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -254,6 +254,14 @@ class BaseResource(object):
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
 
+    def get_transferrable_keys(self, fingerprint):
+        """All keys with a fingerprint or a key ID."""
+        try:
+            key = self.get_transferrable_key(fingerprint)
+        except KeyError:
+            return []
+        return [] if key is None else [key]
+
     def lock_db(self):
         self._lock.acquire()
 
@@ -407,16 +415,15 @@ class Keyring(BaseResource):
         finally:
             self.unlock_db()
 
-    def _get_offset(self, fingerprint):
-        """The offset of a key from its fingerprint or its key ID."""
+    def _get_offsets(self, fingerprint):
+        """The offsets of keys from their fingerprint or their key ID."""
         fingerprint = fingerprint.upper()
         if fingerprint in self._offset_table:
-            return self._offset_table[fingerprint][0]
+            return [self._offset_table[fingerprint][0]]
         if fingerprint and len(fingerprint) <= 16:
-            for offset, key_id in self._offset_table.values():
-                if key_id.endswith(fingerprint):
-                    return offset
-        raise KeyError(fingerprint)
+            return [offset for offset, key_id in self._offset_table.values()
+                    if key_id.endswith(fingerprint)]
+        return []
 
     def _get_key(self, offset):
         self.lock_db()
@@ -481,7 +488,19 @@ class Keyring(BaseResource):
         self.lock_db()
         try:
             self._update_offset_table()
-            return self._get_key(self._get_offset(fingerprint))
+            offsets = self._get_offsets(fingerprint)
+            if not offsets:
+                raise KeyError(fingerprint)
+            return self._get_key(offsets[0])
+        finally:
+            self.unlock_db()
+
+    def get_transferrable_keys(self, fingerprint):
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            return [self._get_key(offset)
+                    for offset in self._get_offsets(fingerprint)]
         finally:
             self.unlock_db()
 
@@ -702,15 +721,10 @@ class GPGDatabase(object):
             return results
         for resource in self._resources.values():
             if fingerprint or key_id:
-                try:
-                    key = resource.get_transferrable_key(fingerprint or key_id)
-                except KeyError:
-                    continue
-                if user_id is not None:
-                    if self._matches_user_id(key, user_id):
+                for key in resource.get_transferrable_keys(
+                        fingerprint or key_id):
+                    if user_id is None or self._matches_user_id(key, user_id):
                         results.append(key)
-                else:
-                    results.append(key)
             else:
                 # User ID only. Be really dumb and iterate.
                 for key in resource.values():
-- 
2.43.0


From 9b743e1e9c76d00ed86054dea2ff0141cef73f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:16 +0000
Subject: [PATCH 170/171] fix: keep armor headers on one line

---
 pgp/armor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index b138dae..a7712b5 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -38,6 +38,7 @@ data_types = {
 
 
 DASHES = '-----'
+LINE_END = re.compile('\r\n|\r|\n')
 header_line_expr = re.compile(
     '^{dashes}BEGIN (?:'
     '(?P<message>{message})(?:, PART '
@@ -72,7 +73,8 @@ class ASCIIArmor(object):
 
     @classmethod
     def from_ascii(cls, text):
-        lines = text.splitlines()
+        # Others that Python takes for ends of lines may be within headers
+        lines = LINE_END.split(text)
         line_no = 0
 
         # Skip blank lines before header line
@@ -233,8 +235,13 @@ class ASCIIArmor(object):
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
             for k, v in self.extra_headers.items():
+                if ': ' in k:
+                    raise ValueError('Invalid name of an armor header.')
                 result_lines.append('{0}: {1}'.format(k, v))
 
+        if any(map(LINE_END.search, result_lines)):
+            raise ValueError('Armor headers cannot have more than one line.')
+
         result_lines.append('')
 
         encoded_data = b64encode(self.data).decode('us-ascii')
-- 
2.43.0


From d67ea2b801222c5f9d248c61d70091ad904decc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:35 +0000
Subject: [PATCH 171/171] fix: read armor given as octets, with any characters
 in its headers

---
 pgp/armor.py           | 2 +-
 pgp/packets/parsers.py | 3 +++
 pgp/shortcuts.py       | 4 ----
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index a7712b5..61b3cf6 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -62,7 +62,7 @@ header_line_expr = re.compile(
 def is_armor(data):
     try:
         canary = data[:len(DASHES)]
-        if isinstance(canary, bytes):
+        if isinstance(canary, (bytes, bytearray)):
             canary = canary.decode('us-ascii')
     except UnicodeError:
         return False
diff --git a/pgp/packets/parsers.py b/pgp/packets/parsers.py
index ce27bbb..09f4445 100644
--- a/pgp/packets/parsers.py
+++ b/pgp/packets/parsers.py
@@ -40,5 +40,8 @@ def parse_binary_packet_data(data):
 
 
 def parse_ascii_packet_data(data):
+    if isinstance(data, (bytes, bytearray)):
+        # Armor headers may be of any characters
+        data = data.decode('utf8', 'surrogateescape')
     armor = ASCIIArmor.from_ascii(data)
     return parse_binary_packet_data(bytes(armor))
diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index ee7a8d4..97f796e 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -16,8 +16,6 @@ VERSION = pkg_resources.get_distribution('pgp').version
 def read_message(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
-        if isinstance(data, bytes):
-            data = data.decode('us-ascii')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
@@ -41,8 +39,6 @@ def read_message_file(filename, armored=False):
 def read_key(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
-        if isinstance(data, bytes):
-            data = data.decode('us-ascii')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
-- 
2.43.0

