From 2ad3c436c6ab574b1d5ca5f89afb9f5dca64a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 01/53] fix: reading a bitstring's signed value no longer
 inverts the bitstring

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..7d12d49 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
-- 
2.43.0


From ed3dba6eba95dec1e5f3cc5476834f21418caae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 02/53] fix: the ~ operator leaves its bitstring operand
 unchanged

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 7d12d49..d790986 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -510,7 +510,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From 8c8352413dc9b621e28b659fea7516888baa0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:30 +0000
Subject: [PATCH 03/53] fix: a zero bitstring is false under Python 3

---
 cmdis/bitstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d790986..167fbf2 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,9 +185,11 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return self._value != 0
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return self._width
 
-- 
2.43.0


From 51555e0fd9e49fa92dd19d310eff7437065ae72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:40 +0000
Subject: [PATCH 04/53] fix: bitstring(1 << 32) keeps the value instead of
 truncating it to zero

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 167fbf2..d978a83 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From 8ef24ce5c19b2d89ad8d6279726ae63990128e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:13 +0000
Subject: [PATCH 05/53] fix: a bitstring built from a bytearray reads it as
 little endian bytes

---
 cmdis/bitstring.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d978a83..22b4acd 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
-            # Little endian byte array.
+            # Little endian byte array. Checked ahead of Sequence, since a bytearray is one too.
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From 7cca380c0e3fc85a3ac2d25013a69a73e1912b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:28 +0000
Subject: [PATCH 06/53] fix: empty strings and sequences make an empty
 bitstring

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 22b4acd..509fed3 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -38,7 +38,7 @@ class bitstring(object):
         elif isinstance(val, six.string_types):
             # String.
             self._width = len(val)
-            self._value = int(val, base=2)
+            self._value = int(val, base=2) if val else 0
         elif isinstance(val, bytearray):
             # Little endian byte array. Checked ahead of Sequence, since a bytearray is one too.
             self._width = len(val) * 8
@@ -49,7 +49,7 @@ class bitstring(object):
             # Iterable.
             # TODO support iterables of '0','1' as well as ints
             self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val, 0)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From 83daa8b29cf43411d9e2cd2bc60faea2a125ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:41 +0000
Subject: [PATCH 07/53] fix: comparing a bitstring with an unsupported type
 defers to the other operand

---
 cmdis/bitstring.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 509fed3..893c8c9 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -160,7 +160,8 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
 
     def __lt__(self, other):
         if isinstance(other, six.integer_types):
@@ -177,13 +178,16 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else (result or self.__eq__(other))
 
     def __gt__(self, other):
-        return not self.__le__(other)
+        result = self.__le__(other)
+        return result if result is NotImplemented else not result
 
     def __ge__(self, other):
-        return not self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else not result
 
     def __bool__(self):
         return self._value != 0
-- 
2.43.0


From bf945e00d4ffa64c7c5a07ff7c092ddeb6a6eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 08/53] fix: an arithmetic shift right by zero returns its
 operand

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From 9ab6354b09492e478f1a0c2023c404c63b19585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 09/53] fix: reading a float register and bounds of register
 indexing

---
 cmdis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..9fa864f 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,13 +31,13 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if self._first + index > self._last:
+        if not self._first <= index <= self._last:
             raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-        if index > self._last:
+        if not self._first <= index <= self._last:
             raise KeyError("out of range register index %d" % key)
         self._cpu.write_register(index, value)
 
-- 
2.43.0


From b5194f178a8f70ac7b5e00f967cc469359c85745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:47 +0000
Subject: [PATCH 10/53] fix: the IPSR view covers all nine exception number
 bits

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 9fa864f..5483717 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From 3e458ceeca5ec93bcf3e00bc9fc4f83a90f70296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 11/53] fix: MRS of the APSR views reads the flags from xPSR

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..fa31315 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -938,9 +938,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
-- 
2.43.0


From 078029a98d9287f19612e9c5411668098e10c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 12/53] fix: decoding PUSH.W of a register list

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index fa31315..958ce94 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From d4a6bce10e628e38b8571051b2a29707e7378b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:27 +0000
Subject: [PATCH 13/53] fix: executing MVN.W

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 958ce94..a80fae1 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From c66123599ccd44c31d03c43c8965c8751d79c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 14/53] fix: CMP and CMN of two registers use the second
 register

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index a80fae1..2d50577 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From eee38214102e15c5a806ba7384462e0ce8f2d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 15/53] fix: BLX LR branches to the value LR held before the
 link is written

---
 cmdis/instructions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2d50577..19159f3 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -559,17 +559,16 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
-                # Branch to register
+                # Branch to register. The target is read before the link register is written.
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From 867ae2b09159ea22583bd74ab81774e2191be4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:06 +0000
Subject: [PATCH 16/53] fix: fewer than two bytes decode as an undefined
 instruction

---
 cmdis/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..1cf5936 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -112,7 +112,8 @@ class DecoderTree(object):
     def decode(self, data, dataAddress=0):
         # Figure out if this is a 16-bit or 32-bit instruction and select the
         # appropriate decoder tree.
-        assert len(data) >= 2
+        if len(data) < 2:
+            raise UndefinedInstructionError()
         hw1 = bytes_to_le16(data)
         is32bit = hw1 & self._32bitMask in self._32bitPrefixes
         if is32bit:
-- 
2.43.0


From 92ce60e3ac85dcd08e801a1cf515880b9a389ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:17 +0000
Subject: [PATCH 17/53] fix: words that match no branch of the decoder tree are
 undefined instructions

---
 cmdis/decoder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 1cf5936..3c6548c 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -169,10 +169,12 @@ class DecoderTree(object):
             return DecoderTreeNode(mask=0, children=list(children.values())[0])
 
         # Recursively process each group of children with the same match value at this level.
+        # The result is a plain dict, so that looking up a missing value fails.
+        nodes = {}
         for k, subdecoders in children.items():
-            children[k] = self._build_tree(subdecoders)
+            nodes[k] = self._build_tree(subdecoders)
 
-        return DecoderTreeNode(mask=commonMask, children=children)
+        return DecoderTreeNode(mask=commonMask, children=nodes)
 
     def dump(self, t=None, depth=0):
         if t is None:
-- 
2.43.0


From 1f425e7340af6cd65c2d4392624720c1bd2ceef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:28 +0000
Subject: [PATCH 18/53] fix: dumping the decoder tree under Python 3

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 3c6548c..f2e4c97 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -189,7 +189,7 @@ class DecoderTree(object):
                 for i,d in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", d)
             else:
-                for i,k in enumerate(nodes.iterkeys()):
+                for i,k in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", hex(k))
                     self.dump(nodes[k], depth+2)
 
-- 
2.43.0


From c613685a005e1c42ddd9f94300223ba1f6540368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:39 +0000
Subject: [PATCH 19/53] fix: MSR shows the _nzcvqg suffix

---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..250e706 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -148,7 +148,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -171,7 +171,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From 1d0c445ca39ffba8eebe41f93afe0ca89caff40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:18 +0000
Subject: [PATCH 20/53] fix: ADR labels name the address that executing the ADR
 produces

---
 cmdis/formatter.py    | 12 ++++++++----
 cmdis/instructions.py |  5 +++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 250e706..0b4da93 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -16,7 +16,7 @@
 
 from .utilities import bytes_to_le16
 from .registers import CORE_REGISTER_NAMES
-from .helpers import SRType
+from .helpers import (SRType, Align)
 
 class Operand(object):
     def format(self, formatter):
@@ -80,15 +80,19 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, alignment=1):
         self._offset = offset
+        self._alignment = alignment
 
     def format(self, formatter):
+        address = formatter.instruction.address
+        target = Align(address + 4, self._alignment) + self._offset
+
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        comment = "0x%x" % target
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % (target - address)
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 19159f3..e444c29 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -267,14 +267,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, alignment=4)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(
+        i.imm32.unsigned if i.add else -i.imm32.unsigned, alignment=4)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From a86830b12436c10f933de43d40bd5b91173111a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:30 +0000
Subject: [PATCH 21/53] fix: label addresses wrap around at the ends of the
 address space

---
 cmdis/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 0b4da93..627776b 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -89,7 +89,7 @@ class LabelOperand(Operand):
         target = Align(address + 4, self._alignment) + self._offset
 
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % target
+        comment = "0x%x" % (target & 0xffffffff)
         formatter.add_comment(comment)
 
         return ".%+d" % (target - address)
-- 
2.43.0


From a9c5387e8f2d4e2191eb8b00814ea7fd9201a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 22/53] fix: byte accesses to mock memory read and write
 integers

---
 cmdis/mock_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..b4d9a7b 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -68,7 +68,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr)
         if mem:
             if size == 8:
-                return mem.data[offset:offset+1]
+                return mem.data[offset]
             elif size == 16:
                 return bytes_to_le16(mem.data[offset:offset+2])
             elif size == 32:
@@ -79,7 +79,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr)
         if mem:
             if size == 8:
-                mem.data[offset:offset+1] = [value]
+                mem.data[offset] = value & 0xff
             elif size == 16:
                 mem.data[offset:offset+2] = le16_to_bytes(value)
             elif size == 32:
-- 
2.43.0


From 696e1284eaa0e468df7d9fbf1845c7cc9d6a701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:54 +0000
Subject: [PATCH 23/53] fix: the mock CPU banks SP by CONTROL.SPSEL

---
 cmdis/mock_cpu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index b4d9a7b..1dca70b 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -48,8 +48,10 @@ class MockCpuModelDelegate(CpuModelDelegate):
         self._regs[reg] = value
 
         # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
-        if reg == CORE_REGISTER['sp']:
+        spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
+        if reg == CORE_REGISTER['control']:
+            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
+        elif reg == CORE_REGISTER['sp']:
             if spsel:
                 self._regs[CORE_REGISTER['psp']] = value
             else:
-- 
2.43.0


From 8cb933129015dc436d07e34342f9d861fb345475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:24 +0000
Subject: [PATCH 24/53] fix: mock memory accesses past the end of a region

---
 cmdis/mock_cpu.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 1dca70b..b3b3838 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -72,9 +72,10 @@ class MockCpuModelDelegate(CpuModelDelegate):
             if size == 8:
                 return mem.data[offset]
             elif size == 16:
-                return bytes_to_le16(mem.data[offset:offset+2])
+                # Bytes past the end of the region read as zero.
+                return bytes_to_le16(mem.data[offset:offset+2].ljust(2, b'\0'))
             elif size == 32:
-                return bytes_to_le32(mem.data[offset:offset+4])
+                return bytes_to_le32(mem.data[offset:offset+4].ljust(4, b'\0'))
         return 0
 
     def write_memory(self, addr, value, size=32):
@@ -83,14 +84,19 @@ class MockCpuModelDelegate(CpuModelDelegate):
             if size == 8:
                 mem.data[offset] = value & 0xff
             elif size == 16:
-                mem.data[offset:offset+2] = le16_to_bytes(value)
+                self._write_bytes(mem, offset, le16_to_bytes(value))
             elif size == 32:
-                mem.data[offset:offset+4] = le32_to_bytes(value)
+                self._write_bytes(mem, offset, le32_to_bytes(value))
+
+    def _write_bytes(self, mem, offset, data):
+        # Bytes past the end of the region are dropped, so that the region keeps its size.
+        data = data[:len(mem.data) - offset]
+        mem.data[offset:offset+len(data)] = data
 
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
         if mem:
-            mem.data[offset:offset+len(data)] = data
+            self._write_bytes(mem, offset, data)
 
     def read_memory_block(self, addr, length):
         mem, offset = self._find_mem(addr)
-- 
2.43.0


From 0bd453ba0414a879a8484c1e3669874abfb88f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:55 +0000
Subject: [PATCH 25/53] fix: registers always read as 32-bit values

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 5483717..0893621 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -225,7 +225,7 @@ class CpuModel(object):
     def read_register(self, reg):
         reg = register_name_to_index(reg)
         if self._delegate is not None:
-            return bitstring(self._delegate.read_register(reg))
+            return bitstring(self._delegate.read_register(reg), 32)
 
     def write_register(self, reg, value):
         reg = register_name_to_index(reg)
-- 
2.43.0


From 97afc74f334512c7e667642d74812478e8399c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 26/53] fix: bitfield helpers accept a field that starts at bit
 0

---
 cmdis/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..de6c8cc 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -139,13 +139,13 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From 80855786af77758c2f9a6d27b8884364e3e860be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:23 +0000
Subject: [PATCH 27/53] fix: word list and float conversions run under Python 3

---
 cmdis/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index de6c8cc..63fadd2 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import struct
+
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
 def hamming_weight(v):
     weight = 0
@@ -49,7 +51,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From 420ae91bf490e8e6fa875f5256599d2fe4430300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 28/53] fix: MOVS.W of a rotated immediate sets the carry flag

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index e444c29..10b6fac 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -368,7 +368,7 @@ class Move(DataProcessing):
         if self.negate:
             result = ~result
         cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
+        self._set_flags(cpu, result, getattr(self, 'carry', None), None)
         cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
@@ -406,7 +406,8 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    # A None carry leaves the C flag unchanged.
+    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, None)
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From 492c8cd5dd1d9f0720ed3d5be07bf37fd192daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:20 +0000
Subject: [PATCH 29/53] fix: MOV, ADD and LDR to PC branch to the value written

---
 cmdis/instructions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 10b6fac..b5e264d 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -55,7 +55,9 @@ class DataProcessing(Instruction):
                 cpu.apsr.v = overflow
 
     def _eval(self, cpu):
-        cpu.pc += self.size
+        # An instruction that wrote to PC has branched.
+        if self.d != 15:
+            cpu.pc += self.size
 
 class AddSub(DataProcessing):
     def __init__(self, mnemonic, word, is32bit):
@@ -369,7 +371,7 @@ class Move(DataProcessing):
             result = ~result
         cpu.r[self.d] = result
         self._set_flags(cpu, result, getattr(self, 'carry', None), None)
-        cpu.pc += self.size
+        super(Move, self)._eval(cpu)
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
 def mov0(i, D, Rm, Rd):
@@ -632,7 +634,9 @@ class Load(Instruction):
         else:
             data = data.zero_extend(32)
         cpu.r[self.t] = data
-        cpu.pc += self.size
+        # Loading PC is a branch.
+        if self.t != 15:
+            cpu.pc += self.size
 
 class Store(Instruction):
     def __init__(self, mnemonic, word, is32bit):
-- 
2.43.0


From d4f96eee5dea15d2a34e6b79cf6564738abadc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:22 +0000
Subject: [PATCH 30/53] fix: the reset command runs

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..35a8157 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From 26d6f1153a0e32fd87e4a8197f635ac55bfd6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:33 +0000
Subject: [PATCH 31/53] fix: 16 and 32-bit memory writes accept values above
 255

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 35a8157..abf9db1 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From 32f1014ed07c8b80ea525bd5178c8ea02af98d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 32/53] fix: start without a binary file under Python 3

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index abf9db1..db0ce97 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = bytearray()
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From b8adb7ae59e56b612a280b1ce7c161b4c189abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:57 +0000
Subject: [PATCH 33/53] fix: step looks only at the instruction it executes

---
 cmdis/__main__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index db0ce97..03cb979 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -503,15 +503,13 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
+            # Only use the first instruction. What follows it might not decode.
+            i = next(dis.disasm(code, pc), None)
 
-            if not len(ilist):
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
-- 
2.43.0


From 8bf0a1eefdc397e80c0990b1c2965f045ebf5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:10 +0000
Subject: [PATCH 34/53] fix: disassembling memory that holds no instruction
 prints nothing

---
 cmdis/__main__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 03cb979..b9cadd7 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -621,9 +621,8 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
-        if text[-1] == '\n':
-            text = text[:-1]
-        print text
+        if text:
+            print text.rstrip('\n')
 
 
 def main():
-- 
2.43.0


From e50db2481139205f2ade49fb23c34abbe884e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:22 +0000
Subject: [PATCH 35/53] fix: an invalid command option does not end the session

---
 cmdis/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index b9cadd7..27a288d 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -173,7 +173,11 @@ def cmdoptions(opts):
         for opt in opts:
             parser.add_option(opt)
         def foo(inst, args):
-            namespace, other_args = parser.parse_args(args)
+            try:
+                namespace, other_args = parser.parse_args(args)
+            except SystemExit:
+                # The parser has printed its error message.
+                raise ToolError("invalid arguments")
             return fn(inst, namespace, other_args)
         return foo
     return process_opts
-- 
2.43.0


From f3966e4d28b6a49b887a8ee9e3eb3d7601d42afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:34 +0000
Subject: [PATCH 36/53] fix: an empty line repeats every command of the last
 line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 27a288d..c9533db 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -199,7 +199,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
-- 
2.43.0


From f438f6d80a37532653ddbbf37fbd91e8a75f9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:47 +0000
Subject: [PATCH 37/53] fix: blank commands are ignored

---
 cmdis/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index c9533db..5cff8c7 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -214,7 +214,11 @@ class SimConsole(object):
 
     def process_command(self, cmd):
         try:
-            if (cmd.strip())[0] == '$':
+            cmd = cmd.strip()
+            if not cmd:
+                return
+
+            if cmd[0] == '$':
                 cmd = cmd[1:].strip()
                 self.tool.handle_python(cmd)
                 return
-- 
2.43.0


From 6287308dd9e95f25422a29072195e305e2dacde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:59 +0000
Subject: [PATCH 38/53] fix: writing an unknown register is an error

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 5cff8c7..5cd05cf 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -416,6 +416,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0


From 69f3db5beef9b6200b1b0283b79c013cbbf377c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:14 +0000
Subject: [PATCH 39/53] fix: hex dump lines of halfwords and words show their
 address

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 5cd05cf..e769c50 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


From 3fddced8bff864ba079164fb491e8ae2f3581a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:37 +0000
Subject: [PATCH 40/53] fix: the console reports unpredictable instructions
 like undefined ones

---
 cmdis/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index e769c50..67d20d0 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -526,6 +526,8 @@ class SimTool(object):
 
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
 
     def handle_memory_map(self, args):
         self.print_memory_map()
@@ -631,6 +633,8 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
         if text:
             print text.rstrip('\n')
 
-- 
2.43.0


From 92551f284ff1e9ecf09c9c22c05d46f01fff99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:23 +0000
Subject: [PATCH 41/53] fix: appending a bitstring to itself in place

---
 cmdis/bitstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 893c8c9..4de28bb 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -480,9 +480,10 @@ class bitstring(object):
 
     def __imod__(self, other):
         if isinstance(other, bitstring):
+            # The value comes first, since other may be this same object.
+            self._value = (self._value << other._width) | other._value
             self._width += other._width
             self._mask = (1 << self._width) - 1
-            self._value = (self._value << other._width) | other._value
             return self
         elif isinstance(other, six.string_types):
             return self.__imod__(bitstring(other))
-- 
2.43.0


From e828a765b8ef89d85be7806776753b554be818ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 42/53] fix: extending a bitstring to its own width returns a
 copy

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 4de28bb..12faac1 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -312,7 +312,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         d = width - self._width
@@ -323,7 +323,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         return bitstring(self, width)
 
     def invert(self):
-- 
2.43.0


From d5eb3c188b7b009b9c6637f7188404d2907f639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:48 +0000
Subject: [PATCH 43/53] fix: assigning a bitstring to a slice of itself

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 12faac1..8519060 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -271,8 +271,8 @@ class bitstring(object):
             elif not isinstance(value, bitstring):
                 raise TypeError("value must be a bitstring, integer, or string")
             mask = (((1 << (stop - start)) - 1) << start)
-            self._value &= ~mask
-            self._value |= (value.unsigned << start) & mask
+            # Set in one go, since the value may be this same object.
+            self._value = (self._value & ~mask) | ((value.unsigned << start) & mask)
             return
 
         if not isinstance(key, six.integer_types):
-- 
2.43.0


From 6d2407f46b5da7d219e45f344e9a76c27688b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:36 +0000
Subject: [PATCH 44/53] fix: the character after a fixed value or bit count in
 an encoding spec is not skipped

---
 cmdis/decoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index f2e4c97..2418261 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -360,10 +360,12 @@ def parse_spec(spec):
                 ident = ''
                 bitcount = ''
                 state = 0
-            elif c not in string.digits:
+            elif c in string.digits:
+                bitcount += c
+            elif c in string.whitespace:
                 state = 4
             else:
-                bitcount += c
+                raise ValueError("unexpected character '%s' at position %d" % (c, i))
         # Close bitcount state.
         elif state == 4:
             if c == ')':
@@ -380,10 +382,12 @@ def parse_spec(spec):
             if c in ('0', '1'):
                 bits += c
             else:
+                # Switch to default state and back up.
                 result.append((ident, bitstring(bits)))
                 bits = ''
                 ident = ''
                 state = 0
+                i -= 1
 
         i += 1
 
-- 
2.43.0


From 25771a9d6462d443e571b2e3a99490ce05750a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 45/53] fix: reset clears the Thumb bit of the PC it loads

---
 cmdis/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 67d20d0..0d0f273 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -345,7 +345,8 @@ class SimTool(object):
         pc = self.cpu.read32(4)
         mem, offset = self.cpu.delegate._find_mem(pc.unsigned)
         if mem:
-            self.cpu.pc = pc
+            # Clear the Thumb bit.
+            self.cpu.pc = pc.unsigned & ~1
 
         sp = self.cpu.read32(0)
         mem, offset = self.cpu.delegate._find_mem(sp.unsigned - 4)
-- 
2.43.0


From e86e32c62e7367a4e1340b693500f9ad70a472fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:56 +0000
Subject: [PATCH 46/53] fix: MOV from PC reads the address of the instruction
 plus 4

---
 cmdis/instructions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index b5e264d..9bcbb6c 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -364,6 +364,8 @@ class Move(DataProcessing):
         if hasattr(self, 'm'):
             result = cpu.r[self.m]
             if self.m == 15: # pc
+                # An instruction reads PC as its own address plus 4.
+                result = cpu.pc_for_instr
                 self.setflags = SetFlags.Never
         else:
             result = self.imm32
-- 
2.43.0


From f05157720ffc573205157e92a8488a8203fd6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 47/53] fix: CPS has no effect in unprivileged mode

---
 cmdis/instructions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 9bcbb6c..bc3d510 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -905,8 +905,10 @@ def ldm_t2(i, W, Rn, P, M, reglist):
 
 class ChangeProcessorState(Instruction):
     def _eval(self, cpu):
-        # TODO if privileged
-        if self.enable:
+        # Has no effect when unprivileged.
+        if not cpu.is_privileged:
+            pass
+        elif self.enable:
             if self.affectPri:
                 cpu.write_register(CORE_REGISTER['primask'], 0)
             if self.affectFault:
-- 
2.43.0


From 777c3a2cedbf04fa1d0b85b2e7e9286b47028bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 48/53] fix: handler mode is privileged whatever CONTROL.nPRIV
 holds

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 0893621..88dabb4 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -196,7 +196,7 @@ class CpuModel(object):
 
     @property
     def is_privileged(self):
-        return self.control[self.nPRIV] == '0'
+        return self._mode == CpuMode.Handler or self.control[self.nPRIV] == '0'
 
     @property
     def xpsr(self):
-- 
2.43.0


From f5152ea719615a7d45ec6640758b69f2eaa83b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:42 +0000
Subject: [PATCH 49/53] fix: block memory accesses give the back end plain
 integer addresses

---
 cmdis/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdis/model.py b/cmdis/model.py
index 88dabb4..51b5b91 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -267,10 +267,14 @@ class CpuModel(object):
         return self.write_memory(addr, value, 8)
 
     def write_memory_block(self, addr, data):
+        if isinstance(addr, bitstring):
+            addr = addr.unsigned
         if self._delegate is not None:
             self._delegate.write_memory_block(addr, data)
 
     def read_memory_block(self, addr, length):
+        if isinstance(addr, bitstring):
+            addr = addr.unsigned
         if self._delegate is not None:
             return self._delegate.read_memory_block(addr, length)
 
-- 
2.43.0


From 4b556a760c131c9099c56016d174a504adedc16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 50/53] fix: a mnemonic of eight or more characters is set off
 from the operands

---
 cmdis/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 627776b..b8689b7 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -217,7 +217,7 @@ class Formatter(object):
             hw2 = bytes_to_le16(b, 2)
             byteString += " %04x" % hw2
 
-        result = "{0:<12} {1:<8}".format(byteString, self.instruction.mnemonic)
+        result = "{0:<12} {1:<7} ".format(byteString, self.instruction.mnemonic)
 
         formattedOperands = []
         for o in self.instruction.operands:
-- 
2.43.0


From 7a66888a2993cf22ab2d11024062f07fc5b76784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:50 +0000
Subject: [PATCH 51/53] fix: comprehensions and functions in console
 expressions see the CPU

---
 cmdis/__main__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 0d0f273..ec26fb8 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -547,10 +547,9 @@ class SimTool(object):
 
     def handle_python(self, args):
         try:
-            env = {
-                    'cpu' : self.cpu,
-                }
-            result = eval(args, globals(), env)
+            # The names must be globals, or functions and comprehensions in the expression do not see them.
+            env = dict(globals(), cpu=self.cpu)
+            result = eval(args, env)
             if result is not None:
                 if type(result) is int:
                     print "0x%08x (%d)" % (result, result)
-- 
2.43.0


From 802c1a1df5aef6c9326bd8e52f32835edb32c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:46 +0000
Subject: [PATCH 52/53] fix: console help listed a status command that does not
 exist

---
 cmdis/__main__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ec26fb8..4c1fbf9 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -50,11 +50,6 @@ COMMAND_INFO = {
             'args' : "",
             'help' : "Display target type and IDs"
             },
-        'status' : {
-            'aliases' : ['stat'],
-            'args' : "",
-            'help' : "Show the target's current state"
-            },
         'reg' : {
             'aliases' : [],
             'args' : "[REG]",
-- 
2.43.0


From 1c5d4475ac307a1706c40be42c89b364041eeea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:01 +0000
Subject: [PATCH 53/53] fix: RRX operands are written without an amount, as
 assemblers expect

---
 cmdis/formatter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b8689b7..d7abd42 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -109,6 +109,9 @@ class ShiftRotateOperand(Operand):
     def format(self, formatter):
         if self._type == SRType.SRType_None:
             return None
+        if self._type == SRType.SRType_RRX:
+            # Always by one bit, which is not written.
+            return self.OP_NAMES[self._type.value]
         return "%s #%d" % (self.OP_NAMES[self._type.value], self._amount)
 
 class BarrierOperand(Operand):
-- 
2.43.0

