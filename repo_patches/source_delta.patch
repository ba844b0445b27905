From f0df660e241fff2498c6a616436713c4dac4033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 01/45] fix: build encoded integers from bytes on Python 3 (use
 compat.chr)

---
 bitforge/encoding.py          | 1 +
 bitforge/transaction/input.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..429b866 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError
 
 
diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..4d7cd61 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -1,6 +1,7 @@
 from __future__ import unicode_literals
 import collections
 
+from bitforge.compat import chr
 from bitforge.encoding import *
 from bitforge.errors import *
 from bitforge.tools import Buffer
-- 
2.43.0


From c75b086143d913a7466f9134235ad3c94341a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:26 +0000
Subject: [PATCH 02/45] fix: encode_int() refuses negative and oversized
 integers instead of truncating

---
 bitforge/encoding.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 429b866..1d18bc3 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -4,7 +4,7 @@ import hashlib
 
 from . import utils
 from .compat import chr
-from .errors import StringError
+from .errors import StringError, NumberError
 
 
 class EncodingError(StringError):
@@ -27,6 +27,10 @@ class InvalidMinimalScriptNumber(EncodingError):
     "The script number {string} is not minimally encoded"
 
 
+class InvalidInteger(NumberError):
+    "The integer {number} is negative, or doesn't fit in the requested length"
+
+
 def encode_base58h(bytes):
     return utils.encoding.b2a_hashed_base58(bytes)
 
@@ -40,17 +44,24 @@ def decode_base58h(string):
 
 
 def encode_int(integer, big_endian = True, length = None):
+    if integer < 0:
+        raise InvalidInteger(integer)
+
     if integer == 0:
         return chr(0) if length is None else chr(0) * length
 
     data = bytearray()
+    number = integer
 
     while integer > 0:
         data.append(integer & 0xff)
         integer >>= 8
 
     if length is not None:
-        zeros = bytearray(length) # TODO if number can't fit in length, raise
+        if len(data) > length:
+            raise InvalidInteger(number)
+
+        zeros = bytearray(length)
         data = (data + zeros)[:length]
 
     if big_endian:
@@ -73,7 +84,6 @@ def decode_int(bytes, big_endian = True):
 
 
 def encode_varint(integer):
-    # TODO check integer is a postive number
     if integer < 253:
         return encode_int(integer)
 
-- 
2.43.0


From 3520dd66c64ae1d3c477840b7402d5e3a7057305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:31 +0000
Subject: [PATCH 03/45] fix: hash160() took the digest of a digest

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 1d18bc3..af3b20b 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -140,7 +140,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From 549596df91948ec443bd0bdea78133334e23bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:36 +0000
Subject: [PATCH 04/45] fix: decode_script_number() rejected numbers of exactly
 the allowed size

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index af3b20b..7804bec 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -151,7 +151,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From d6c51d2e3cbb7627e3a8d7d2b8965fd7ec2d8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:41 +0000
Subject: [PATCH 05/45] fix: BitforgeError.__str__() used an attribute Python 3
 exceptions lack

---
 bitforge/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..9e8d020 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -11,7 +11,7 @@ class BitforgeError(Exception):
         pass
 
     def __str__(self):
-        return self.message
+        return self.args[0]
 
 
 class ObjectError(BitforgeError):
-- 
2.43.0


From 54991a24cb53a04d4413912a3e25252bcb3c5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 06/45] fix: report undecodable text as InvalidHex and
 InvalidBase58h

---
 bitforge/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 7804bec..5433f4e 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -39,7 +39,7 @@ def decode_base58h(string):
     try:
         return utils.encoding.a2b_hashed_base58(string)
 
-    except utils.encoding.EncodingError:
+    except (utils.encoding.EncodingError, UnicodeEncodeError):
         raise InvalidBase58h(string)
 
 
@@ -122,8 +122,8 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws different exceptions (length, alphabet, non-ASCII)
         raise InvalidHex(string)
 
 
-- 
2.43.0


From cd81c205754da5cdd91b86477184689f4edeca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:49 +0000
Subject: [PATCH 07/45] fix: write the length of variable pushes as a
 fixed-width little-endian integer

---
 bitforge/script/instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..74aebb9 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
-                big_endian = False
-            ).rjust(length_nbytes, '\0')
+                big_endian = False,
+                length = length_nbytes
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From 928e9ea5ec0b5db8769f535d838ae3127249c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 08/45] fix: scripts parsed from binary held mutable,
 unhashable push data

---
 bitforge/script/script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..d73233f 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -79,6 +79,9 @@ class Script(BaseScript):
                 length = decode_int(length_bytes, big_endian = False)
                 data   = buffer.read(length)
 
+            if data is not None:
+                data = bytes(data) # immutable, like the rest of the Script
+
             instructions.append(Instruction(opcode, data))
 
         return Script.create(instructions)
-- 
2.43.0


From 5425bf2d4f3e4b74b14907ed5ca46bed2c3e02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:58 +0000
Subject: [PATCH 09/45] fix: RedeemMultisig.is_valid() crashed on scripts that
 start with a push

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index d73233f..1fa3fe4 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -281,8 +281,8 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
+            structure[0] != 'PUSH' and structure[0].is_number() and
+            structure[-2] != 'PUSH' and structure[-2].is_number() and
             structure[-1] == OP_CHECKMULTISIG and
             all(op == 'PUSH' for op in structure[1:-2])
         )
-- 
2.43.0


From 7f147ad323af411550ce316ee279c5ee3eef8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:04 +0000
Subject: [PATCH 10/45] fix: serialize Inputs, Outputs and Transactions to
 bytes on Python 3

---
 bitforge/transaction/input.py       | 2 +-
 bitforge/transaction/output.py      | 2 +-
 bitforge/transaction/transaction.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4d7cd61..c8597f3 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -73,7 +73,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From 587414151939319a0be2a733479f00e1d8d1f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:08 +0000
Subject: [PATCH 11/45] fix: Input.from_buffer() gave tx_id as bytes on Python
 3

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index c8597f3..339426a 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -108,7 +108,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode('utf-8') # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
-- 
2.43.0


From b2738424b006164612d6901992a6760db4a774aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:14 +0000
Subject: [PATCH 12/45] fix: Transaction.get_id() was not in the byte order
 tx_id uses

---
 bitforge/transaction/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..15fd45e 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,7 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        return encode_hex(self.get_id_bytes()[::-1]).decode('utf-8')
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From 6779bf2450a1f8f9ed20d28b6c490f9e84684aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:19 +0000
Subject: [PATCH 13/45] fix: Input.create() crashed on scripts that match no
 template

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 339426a..64c81e1 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -48,11 +48,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From ebd458c18e86834dd4379a3870a0a08abf878061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:24 +0000
Subject: [PATCH 14/45] fix: MultisigOutput.create() paid to the bare redeem
 script

---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..ea5b2d2 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,7 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        return super(MultisigOutput, cls).create(amount, redeem_script)
 
 
 class DataOutput(Output):
-- 
2.43.0


From 8d7b852859aca9834f33c052bcba30a428a3b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:30 +0000
Subject: [PATCH 15/45] fix: MultisigInput.can_sign() rejected keys of other
 networks

---
 bitforge/transaction/input.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 64c81e1..1379cce 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -182,10 +182,11 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        # Scripts don't know about networks, so compare serialized keys
+        expected_pubkeys = [ pk.to_bytes() for pk in self.script.get_public_keys() ]
 
         for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
+            if privkey.to_public_key().to_bytes() not in expected_pubkeys:
                 return False
 
         return True
-- 
2.43.0


From 6a5838f401f9c55e13e32110de5eb01d19c4dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:36 +0000
Subject: [PATCH 16/45] fix: PrivateKey.verify() rejected the signatures made
 by PrivateKey.sign()

---
 bitforge/privkey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..7ac2cee 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,10 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        try:
+            return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        except (ecdsa.BadSignatureError, ecdsa.der.UnexpectedDER):
+            return False
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From 1b93595955b355c2854f970a51d3ff7d9c3ba045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:42 +0000
Subject: [PATCH 17/45] fix: sec_to_public_pair() accepted truncated and
 overlong keys

---
 bitforge/utils/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..63e015e 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -231,8 +231,10 @@ def public_pair_to_sec(public_pair, compressed=True):
 
 def sec_to_public_pair(sec):
     """Convert a public key in sec binary format to a public pair."""
-    x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
+    if len(sec) != (65 if sec0 == b'\4' else 33):
+        raise EncodingError("bad sec length for public key")
+    x = from_bytes_32(sec[1:33])
     if sec0 == b'\4':
         y = from_bytes_32(sec[33:65])
         from .ecdsa import is_public_pair_valid
-- 
2.43.0


From 7af476bfbffc5b805ddfec52b070a02c582e6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:48 +0000
Subject: [PATCH 18/45] fix: public pairs with coordinates outside of the field
 were accepted

---
 bitforge/utils/ecdsa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..526e952 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,6 +122,9 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
+    p = generator.curve().p()
+    if not (0 <= public_pair[0] < p and 0 <= public_pair[1] < p):
+        return False
     return generator.curve().contains_point(public_pair[0], public_pair[1])
 
 def verify(generator, public_pair, val, signature):
-- 
2.43.0


From 9de3b7d9d3e67786b150cc934089089ad29e79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:52 +0000
Subject: [PATCH 19/45] fix: validate_signature() crashed on Python 3

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From d16fcf75ba0b466ede8afa5c61fd00e9a268d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:57 +0000
Subject: [PATCH 20/45] fix: intbytes.from_bytes() ignored byteorder

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From 3df03cd92d7a35a4e4a225134cc1a618a51bb3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:01 +0000
Subject: [PATCH 21/45] fix: modular_sqrt() used float division

---
 bitforge/utils/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/numbertheory.py b/bitforge/utils/numbertheory.py
index f2df00f..232a33d 100755
--- a/bitforge/utils/numbertheory.py
+++ b/bitforge/utils/numbertheory.py
@@ -56,7 +56,7 @@ def modular_sqrt(a, p):
     s = p - 1
     e = 0
     while s % 2 == 0:
-        s /= 2
+        s //= 2
         e += 1
 
     # Find some 'n' with a legendre symbol n|p = -1.
-- 
2.43.0


From 2edd2d09d72cff5e7dec8caec2d230747cabcd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:07 +0000
Subject: [PATCH 22/45] fix: ECDSA r is reduced modulo the group order

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 526e952..dd4e070 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -102,7 +102,7 @@ def sign(generator, secret_exponent, val):
     n = G.order()
     k = deterministic_generate_k(n, secret_exponent, val)
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( val + ( secret_exponent * r ) % n ) ) % n
-- 
2.43.0


From ad4b8532b851e8643e0791d6328faf5d6ebfc475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:13 +0000
Subject: [PATCH 23/45] fix: RFC6979 reduces hash values equal to the group
 order

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index dd4e070..03ccbc5 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0


From bb56fcf8ff1cd0d1e3c5c6a79be51e367dc9a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:17 +0000
Subject: [PATCH 24/45] fix: ECDSA verify() crashed when the point is at
 infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 03ccbc5..926a119 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -144,6 +144,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From fa80350d1f0b79c57ffb80f6ce0eb1ae861d44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:04 +0000
Subject: [PATCH 25/45] fix: HD keys could not be serialized on Python 3

---
 bitforge/hdprivkey.py | 4 ++--
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..6c1f78c 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..489fea6 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
-- 
2.43.0


From 49169090a49d12ec10ba3a67335609ad45374451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:09 +0000
Subject: [PATCH 26/45] fix: HD derivation used the index of the parent instead
 of the one requested

---
 bitforge/hdprivkey.py | 6 +++---
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6c1f78c..91cf844 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -84,17 +84,17 @@ class HDPrivateKey(BaseHDPrivateKey):
             index += HARDENED_START
 
         if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 489fea6..f729322 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -75,7 +75,7 @@ class HDPublicKey(BaseHDPublicKey):
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From 3e41c23cffda57fd799c542538b2e8f23353df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:14 +0000
Subject: [PATCH 27/45] fix: HD indexes past 2^31 are hardened even without the
 flag

---
 bitforge/hdprivkey.py | 2 +-
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 91cf844..e206065 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -83,7 +83,7 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index f729322..944f17e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -68,7 +68,7 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
             key = self.to_public_key().to_bytes()
-- 
2.43.0


From fb4c97e005e4c9dfc0c400e58064a2284c285902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:19 +0000
Subject: [PATCH 28/45] fix: HD keys of the wrong length or padding were
 accepted

---
 bitforge/hdprivkey.py | 6 ++++++
 bitforge/hdpubkey.py  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index e206065..3c2ec5f 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -49,6 +49,12 @@ class HDPrivateKey(BaseHDPrivateKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPrivateKey.DataLength:
+            raise ValueError("HDPrivateKey data must be exactly %d bytes long" % HDPrivateKey.DataLength)
+
+        if data[HDPrivateKey.ChainCodeEnd : HDPrivateKey.PrivateKeyStart] != b'\0':
+            raise ValueError("HDPrivateKey secrets must be prefixed by a zero byte")
+
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
         index   = int_from_bytes(data[HDPrivateKey.ChildIndexStart : HDPrivateKey.ChildIndexEnd])
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 944f17e..0a19f65 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -29,6 +29,9 @@ class HDPublicKey(BaseHDPublicKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPublicKey.DataSize:
+            raise ValueError("HDPublicKey data must be exactly %d bytes long" % HDPublicKey.DataSize)
+
         chain   = data[HDPublicKey.ChainCodeStart : HDPublicKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])
         index   = int_from_bytes(data[HDPublicKey.ChildIndexStart : HDPublicKey.ChildIndexEnd])
-- 
2.43.0


From e531f1074acdcbd99bcdef8f9ead7f039f3a1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:25 +0000
Subject: [PATCH 29/45] fix: Unit truncated amounts, losing satoshis to float
 error

---
 bitforge/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..6b2df7d 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -25,7 +25,7 @@ class Unit(object):
             raise ValueError('Invalid arguments')
 
     def _set_values(self, satoshis):
-        self.satoshis = int(satoshis)
+        self.satoshis = int(round(satoshis))
         self.bits = self.satoshis / Unit.bits
         self.mbtc = self.satoshis / Unit.mbtc
         self.btc = self.satoshis / Unit.btc
-- 
2.43.0


From 23a242eda5554d93c2201cdf0a372b2dc2253601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:31 +0000
Subject: [PATCH 30/45] fix: URI.is_valid() raised on infinite amounts

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..e98bcd0 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From 356ad521e49b4bdd3d456eb694aae746bc276669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:36 +0000
Subject: [PATCH 31/45] fix: URI accepted any scheme as a bitcoin URI

---
 bitforge/uri.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index e98bcd0..851b390 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -24,6 +24,9 @@ class URI(object):
     @staticmethod
     def parse(uri):
         parsed = urlparse(uri)
+        if parsed.scheme != 'bitcoin':
+            raise ValueError('Invalid URI scheme')
+
         data = dict(parse_qsl(parsed.query))
         data['address'] = parsed.path or parsed.netloc
         return data
-- 
2.43.0


From 283af94d7b13e270d4c3ce56e95a0eb0aff3fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:42 +0000
Subject: [PATCH 32/45] fix: URI wrote small amounts in scientific notation

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 851b390..a3d5785 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -57,7 +57,7 @@ class URI(object):
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-            query['amount'] = self.amount.btc
+            query['amount'] = ('%.8f' % self.amount.btc).rstrip('0').rstrip('.')
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From 22b732de610aff25f9722728a01a1c44bf3c357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:48 +0000
Subject: [PATCH 33/45] fix: OP_DROP removed two stack elements

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..a4ebd66 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -393,7 +393,6 @@ class Interpreter(object):
                     return False
 
                 self.stack.pop()
-                self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
                 # ( x -- x x )
-- 
2.43.0


From a404513a04b78c5a5ff6d1137666bd85be6f3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:53 +0000
Subject: [PATCH 34/45] fix: OP_ABS ignored its argument

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index a4ebd66..e9256eb 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -513,7 +513,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From b5bf86c8ef73250d16d192227448bbae5275c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:59 +0000
Subject: [PATCH 35/45] fix: OP_WITHIN ignored the minimal encoding flag

---
 bitforge/script/interpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e9256eb..7f44c51 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,9 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = (
+                    decode_script_number(item, f_required_minimal) for item in self.stack[-3:]
+                )
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From 28ab8a51d70809e0cab0b5291da46143b36d0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:05 +0000
Subject: [PATCH 36/45] fix: OP_CHECKLOCKTIMEVERIFY is a NOP unless its flag is
 set

---
 bitforge/script/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 7f44c51..360eb00 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -209,11 +209,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not (self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY):
+                    # Not enabled, treat as a NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
-- 
2.43.0


From 8936187353e8ddc71990cb2fa36bfb67346b9176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:10 +0000
Subject: [PATCH 37/45] fix: the stack size limit applies after every operation

---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 360eb00..83f9e68 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -132,9 +132,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From 2f95cf40280c24da9b7690b1c47a9beb8bb9c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 38/45] fix: Interpreter.verify() crashed on every P2SH
 evaluation

---
 bitforge/script/interpreter.py | 13 +++++++++----
 bitforge/script/script.py      |  6 ++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 83f9e68..8c95a76 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -80,7 +80,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_pubkey.is_script_hash_out():
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -93,9 +93,14 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
             stack_copy = stack_copy[:-1]
 
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             self.initialize()
             self.script = redeem_script
             self.stack = stack_copy
@@ -107,11 +112,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 1fa3fe4..aead5e1 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -156,6 +156,12 @@ class Script(BaseScript):
         """
         return all(i.opcode <= OP_16 for i in self.instructions)
 
+    def is_script_hash_out(self):
+        """
+        :returns: if the script is exactly OP_HASH160 <20 bytes> OP_EQUAL (see BIP 16)
+        """
+        return PayToScriptOut.is_valid(self) and self.instructions[1].opcode == Opcode(20)
+
     def __repr__(self):
         return str(self.instructions)
 
-- 
2.43.0


From bf28e8982b410ad531be1b24ef5710c3325e7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:20 +0000
Subject: [PATCH 39/45] fix: Instruction.is_minimal_push() crashed on every
 push

---
 bitforge/script/instruction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 74aebb9..cbf7764 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,21 +60,21 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
         if len(self.data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(self.data) == 1 and 1 <= decode_int(self.data) <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + decode_int(self.data) - 1
+        elif len(self.data) == 1 and decode_int(self.data) == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
         elif len(self.data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
+            return self.opcode.number == len(self.data)
         elif len(self.data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-- 
2.43.0


From 2c2c8c67243c23858afb2991c4e1749b32b9f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:26 +0000
Subject: [PATCH 40/45] fix: unnamed opcodes could not be printed

---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..0185af8 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, "OP_UNKNOWN_%d" % self.number)
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From 0c2dd817ec63f7751c9f4f1fb45fa2a92be9974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:32 +0000
Subject: [PATCH 41/45] fix: Transaction.sign() returned an unsigned
 Transaction for negative indexes

---
 bitforge/transaction/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 15fd45e..5044ed4 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -100,6 +100,9 @@ class Transaction(BaseTransaction):
         # other Input scripts are empty (0 bytes). The placeholder should be
         # there already, manually placed or auto-created by Input subclasses.
 
+        if not (0 <= txi_index < len(self.inputs)):
+            raise IndexError("Transaction has no input number %d" % txi_index)
+
         simplified_inputs = (
             input.remove_script() if i != txi_index else input
             for i, input in enumerate(self.inputs)
-- 
2.43.0


From 0538b68c2d5ac148f31f9f3c951fb76b34f66fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 42/45] fix: refuse push sizes in script text that are not
 numbers with a Script error

---
 bitforge/script/script.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index aead5e1..41174d6 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -91,12 +91,18 @@ class Script(BaseScript):
         instructions = []
         tokens = (i for i in string.split(' '))
 
+        def get_size(token):
+            try:
+                return int(token)
+            except ValueError: # not all digits are decimal ones
+                raise Script.InvalidPushSize(token)
+
         def get_opcode(token):
             try:
                 return Opcode.from_name(token)
             except Opcode.UnknownOpcodeName:
                 if token.isdigit():
-                    return Opcode.const_push_for(int(token))
+                    return Opcode.const_push_for(get_size(token))
                 else:
                     raise Script.UnknownOpcodeName(token)
 
@@ -125,7 +131,7 @@ class Script(BaseScript):
 
                     bytes = decode_hex(hex_bytes[2:])
 
-                    if int(size_string) != len(bytes):
+                    if get_size(size_string) != len(bytes):
                         raise Script.InvalidPushDataLength(len(bytes))
 
                     instructions.append(Instruction(opcode, data = bytes))
-- 
2.43.0


From 06392b78d91b225e4b36a1ecaf277451d89a4862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:46 +0000
Subject: [PATCH 43/45] fix: multiples of a point have reduced coordinates

---
 bitforge/utils/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index c225aa3..2e4244d 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -130,7 +130,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print "Multiplying %s by %d (e3 = %d):" % ( self, other, e3 )
-- 
2.43.0


From c51cd95d1dd4c2f9caf5699736925ff74d8b6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:46 +0000
Subject: [PATCH 44/45] fix: doubling a point of order two gives infinity

---
 bitforge/utils/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index 2e4244d..7b2be40 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -166,6 +166,9 @@ class Point( object ):
     p = self.__curve.p()
     a = self.__curve.a()
 
+    if ( 2 * self.__y ) % p == 0:
+      return INFINITY
+
     l = ( ( 3 * self.__x * self.__x + a ) * \
           numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
 
-- 
2.43.0


From 85db40c86943b7113f16db67d9144dcdab276705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:32 +0000
Subject: [PATCH 45/45] fix: PrivateKey.verify returns False for malformed
 signatures

---
 bitforge/privkey.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 7ac2cee..7263ca9 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -6,6 +6,7 @@ from . import networks, utils, ecdsa
 from .errors import *
 from .pubkey import PublicKey
 from .address import Address
+from .signature import validate_signature
 from .encoding import *
 from .compat import chr
 
@@ -132,6 +133,10 @@ class PrivateKey(BasePrivateKey):
         return signing_key.sign_digest(message, sigencode = ecdsa.util.sigencode_der_canonize)
 
     def verify(self, signature, message):
+        # the DER parser below expects well formed signatures
+        if not validate_signature(signature + b'\1'): # any hash type
+            return False
+
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-- 
2.43.0

