From c3399aac550531adea1f1738fc111a3aabe5cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 01/46] fix: BitQueue loses and misplaces the bits of a word
 that spans two 32-bit words

---
 semantic_codec/architecture/bits.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..50748f8 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -18,16 +18,19 @@ class BitQueue(object):
         Bits.check_range(0, from_bit)
 
         if self._eq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
-            w = max(0, BitQueue.WORD_SIZE - self._eq_bit - 1)
+            w = BitQueue.WORD_SIZE - self._eq_bit
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+                                                        from_bit, from_bit + w - 1, self._eq_bit)
             self._eq_word += 1
             self._bytes.append(0)
 
-            w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            # The bits that did not fit go at the beginning of the next word
+            from_bit += w
+            self._eq_bit -= BitQueue.WORD_SIZE
+            w = min(self._eq_bit + self.word_size, BitQueue.WORD_SIZE - from_bit)
+            if w > 0:
+                self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
+                                                            from_bit, from_bit + w - 1, 0)
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
@@ -55,9 +58,13 @@ class BitQueue(object):
             self._bytes.pop(0)
             self._eq_word -= 1
 
+            # The bits remaining are at the beginning of the next word
+            to_bit += w
             w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            n = min(w, BitQueue.WORD_SIZE - to_bit)
+            if n > 0:
+                value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + n - 1, to_bit)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From e20e07cd28db48951e9396666d4d93cbb5f72b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 02/46] fix: deinterleave drops the words of the last
 incomplete pass and fails when the last packet is lost

---
 semantic_codec/interleaver/interleaver2d.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..052ea28 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,24 +195,21 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [packets[p] for p in interleave_order if packets.get(p) is not None]
+    if len(received) == 0:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
 
     errors = []
 
     data = BitQueue(word_size)
-    while not last_queue.empty():
+    # In the last pass the words may not reach all packets
+    while any(not q.empty() for q in received):
         for p in interleave_order:
             a = 0
-            if not p in packets or packets[p] is None:
+            if packets.get(p) is None:
                 errors.append((data._eq_word, data._eq_bit))
+            elif packets[p].empty():
+                break
             else:
                 a = packets[p].dequeue(a, 0)
             data.enqueue(a, 0)
-- 
2.43.0


From 411dae7ef42f3143b7eaa520c92a323f54ce5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 03/46] fix: predict_corruption stops before the last pass when
 the first packet lost is interleaved after the others

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..c912f46 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -245,7 +245,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while min(b) < total_bits:
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From af1c2733ced35d80cc4ca431866a3a8731a616f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 04/46] fix: corrupt_bits does not generate all the
 combinations of the bits being flipped

---
 semantic_codec/corruption/corruption.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index c912f46..080caaa 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -101,10 +101,9 @@ def corrupt_bits(hi, lo, amount, instruction):
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if Bits.is_on(i, j) else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
-- 
2.43.0


From 7389dbb41363b4f424bf0b57d632f63e31951995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 05/46] fix: corrupt_program accepts percentages outside 0 -
 100

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 080caaa..cb020cb 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -150,7 +150,7 @@ def corrupt_program(program, err_percent, max_amount):
     :param max_amount: Maximal amount of bit errors per instructions, meaning that each corrupted instructions can
                        have up to this amount of errors
     """
-    if 0 > err_percent > 100:
+    if err_percent < 0 or err_percent > 100:
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
-- 
2.43.0


From b9f07348eaf38bbfbab9f2845e5459532b005530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 06/46] fix: corrupt_program cannot reach all the addresses of
 programs that are not contiguous

---
 semantic_codec/corruption/corruption.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index cb020cb..f2b2437 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -160,16 +160,11 @@ def corrupt_program(program, err_percent, max_amount):
 
     corrupted_amount = math.ceil(max(1, len_program * err_percent))
 
-    # Find the min and max address in the program
-    min_addr = sys.maxsize
-    max_addr = -sys.maxsize
-    for k in program:
-        min_addr = k if min_addr > k else min_addr
-        max_addr = k if max_addr < k else max_addr
+    addresses = list(program)
 
     while corrupted_amount > 0:
-        p = random.randint(0, len_program) * 4 + min_addr
-        if p in program and len(program[p]) == 1:
+        p = random.choice(addresses)
+        if len(program[p]) == 1:
             a = random.randint(1, max_amount)
             for r in corrupt_bits(31, 0, a, program[p][0].encoding):
                 if _encoding_not_in_list(r, program[p]):
-- 
2.43.0


From 54b8a54ece355e7a99c592d6242087e7b9f1fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 07/46] fix: the push/pop score is stored under a name that no
 scoring function reads

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..77ecbe4 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -326,7 +326,7 @@ class ProbabilisticRecuperator(Recuperator):
         if p2 > 0:
             p2 = self._model.push_given_pop_at_fn_middle
 
-        inst.scores_by_rule['popu'] = max(p1, p2, p3)
+        inst.scores_by_rule['pupo'] = max(p1, p2, p3)
 
     def _compute_proper_cfg(self, inst, cpmd, addr):
         """
-- 
2.43.0


From f6f4f2241ccdd6b38db82950633c73b01b3789ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 08/46] fix: push and pop instructions always score 0 in the
 remove step for lack of a register score

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 77ecbe4..0970fd5 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -123,7 +123,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
 
     hi = max(pc, po, pr)
     # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From 8fb9e3d3a83b6c0eca32f3935a25f5e52fed6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 09/46] fix: division by zero computing the push/pop score when
 an address has no valid candidates

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 0970fd5..be2c471 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -261,7 +261,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
-- 
2.43.0


From 22329a15d056974cd58fe03fac898a7afde8e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 10/46] fix: the push/pop score fails when the addresses of the
 function have gaps

---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index be2c471..2535790 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -241,7 +241,7 @@ class ProbabilisticRecuperator(Recuperator):
         """
         reg_equals_inst = False
         c, t = 0, 0
-        for i in self._program[addr]:
+        for i in self._program.get(addr, []):
             if not i.ignore:
                 t += 1
                 # Include the register information
@@ -298,7 +298,7 @@ class ProbabilisticRecuperator(Recuperator):
                 for a in range(last_addr, addr, -4):
                     cb2 = cb1
                     tb2 = tb1
-                    for i in self._program[a]:
+                    for i in self._program.get(a, []):
                         if not i.ignore:
                             tb1 += 1
                             tp1 += 1
-- 
2.43.0


From f00c8e24d8718a83addc091ad0e2f11142bf80be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 11/46] fix: the branch address score fails when the
 instruction belongs to no known function

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 2535790..8a76e51 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -514,7 +514,7 @@ class ProbabilisticRecuperator(Recuperator):
             # therefore the jmp_address will be unknown
             inst.scores_by_rule['pbd'] = self._model.just_any_jump_is_valid * 2
         # Award high prob to addresses inside this method or to the begin of other methods
-        elif jmp_addr >= current_fn and jmp_addr <= self._functions[current_fn][1]:
+        elif current_fn in self._functions and current_fn <= jmp_addr <= self._functions[current_fn][1]:
             inst.scores_by_rule['pbd'] = self._model.branch_to_this_method
         # Award medium-high prob to a branch to the start of other method
         elif jmp_addr in self._functions:
-- 
2.43.0


From bebd42268da22432e12a3e1b4d58d29c9a334781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 12/46] fix: the number of solutions is the product and not the
 sum of the candidates of the addresses

---
 semantic_codec/solution/solution_quality.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..d7ef1f4 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -68,10 +68,9 @@ class SolutionQuality(object):
             else:
                 bins[k] = 1
 
-        i = 1
-        amount = 0
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
-- 
2.43.0


From 0821e39e798438881aa97acf3f1561640502e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 13/46] fix: evaluating the solution erases the number of
 solutions

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d7ef1f4..386c55d 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -81,7 +81,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
-- 
2.43.0


From 60530b3be4a76c7a3231ddef0ca2321c7fd7c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 14/46] fix: division by zero evaluating a solution with an
 address without candidates

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index 386c55d..cf5cdb0 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -110,8 +110,8 @@ class SolutionQuality(object):
             if not ln in self._highest_depth_bin:
                 self._highest_depth_bin[ln] = 0
 
-            r = (i+1) / ln
             if ln > 0:
+                r = (i+1) / ln
                 if r > self._highest_depth_bin[ln]:
                     self._highest_depth_bin[ln] = r
                     max_addr_bin[ln] = addr
-- 
2.43.0


From 3621d058d587c4b1e3ed123e888c028de043d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 15/46] fix: the solution file stays open when its header
 cannot be read or written

---
 semantic_codec/solution/solution_io.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/solution/solution_io.py b/semantic_codec/solution/solution_io.py
index 566b8c7..bdef242 100644
--- a/semantic_codec/solution/solution_io.py
+++ b/semantic_codec/solution/solution_io.py
@@ -16,15 +16,15 @@ class SolutionReader(object):
 
         fin = open(file_name, 'rb')
 
-        magic_word = self.read_long(fin)
-
-        if magic_word != SolutionWriter.MAGIC_WORD:
-            raise RuntimeError('The file is not a binary solution file')
-
         program = {}
         original = {}
 
         try:
+            magic_word = self.read_long(fin)
+
+            if magic_word != SolutionWriter.MAGIC_WORD:
+                raise RuntimeError('The file is not a binary solution file')
+
             addr_count = self.read_int(fin)
             for i in range(0, addr_count):
                 addr = self.read_int(fin)
@@ -55,9 +55,8 @@ class SolutionWriter(object):
 
         fout = open(file_name, 'wb')
 
-        self.write_long(fout, SolutionWriter.MAGIC_WORD)
-
         try:
+            self.write_long(fout, SolutionWriter.MAGIC_WORD)
             self.write_int(fout, len(program))
             for k, v in program.items():
                 self.write_int(fout, k)
-- 
2.43.0


From f501e5b644823f1ff59032562d2cdfcfe41ac3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 16/46] fix: the solution does not have bits enough for the
 index when the candidates are not a power of two

---
 semantic_codec/solution/solution_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..5dae655 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -251,7 +251,7 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            size = (ln - 1).bit_length()
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From d67aaf37bf6e5bbd0cf32ae3a83af7dabb3a57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 17/46] fix: division by zero reporting a program without
 errors

---
 recover_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recover_program.py b/recover_program.py
index d773027..62bbc63 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -116,7 +116,7 @@ def print_report(instructions_output_file, original_program, recovered_program):
     print("------------")
 
     print("ERRORS: {} -- LOSING: {} -- TIDE: {} --RECOVERED: {} -- RATIO: {} ".format(
-        errors, fail_looses, fail_tide, recovered, recovered / errors))
+        errors, fail_looses, fail_tide, recovered, recovered / errors if errors > 0 else 1))
 
     print("DEPTHS: {}".format(depths))
 
-- 
2.43.0


From 82ee7aed1709cbc1e4858bfddc3bd5461f909c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 18/46] fix: TextDisassembleReader.read returns its results in
 the opposite order of the other reader

---
 semantic_codec/architecture/disassembler_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/disassembler_readers.py b/semantic_codec/architecture/disassembler_readers.py
index fa43390..bd97d47 100644
--- a/semantic_codec/architecture/disassembler_readers.py
+++ b/semantic_codec/architecture/disassembler_readers.py
@@ -125,7 +125,7 @@ class TextDisassembleReader(DisassembleReader):
         return result
 
     def read(self):
-        return (self.read_instructions(), self.read_functions())
+        return self.read_functions(), self.read_instructions()
 
     def read_instructions(self):
         if self._instruction_set != DisassembleReader.ARM_SET:
-- 
2.43.0


From 3b84c33c62d16ef55abd16e213f7b9fa0f3d849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 19/46] fix: SSA renaming discards the wrong names when leaving
 a block

---
 semantic_codec/static_analysis/ssa.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 6708f3e..efc3620 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -195,16 +195,15 @@ class SSAFormBuilder(object):
                 val.append((var, stack[var][0]))
 
         # Continue the renaming process in the successors
-        for n in n.dom_successors:
-            self._rename_node(n, counter, stack)
+        for s in n.dom_successors:
+            self._rename_node(s, counter, stack)
 
         # Roll back the indexing
         for phi in n.phi_functions:
-            var = phi[0]
-            for inst in n.instructions:
-                if var in inst.storages_written():
-                    stack[var].pop()
-            stack[var].pop()
+            stack[phi[0]].pop(0)
+        for inst in n.instructions:
+            for w in inst.storages_written():
+                stack[w].pop(0)
 
     def _remove_dead_phi(self):
         """
-- 
2.43.0


From e95784cb71461c9e5b04580504092cda35785cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 20/46] fix: forward branches have no edge to the instruction
 they jump to in the control flow graph

---
 semantic_codec/static_analysis/cfg.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 806d0ca..dc4e7fb 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -131,6 +131,9 @@ class ARMControlFlowGraph(digraph):
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
                 r.add_edge((last_conditional, b))
 
+            if inst in self._pending_jumps:
+                self._add_multiple_edges(b, self._pending_jumps[inst])
+
             # There no need for a last conditional node since the last block was not conditionally executed
             return b, None
 
@@ -163,6 +166,8 @@ class ARMControlFlowGraph(digraph):
             branch = self._add_node(CFGBlock([inst]))
         if cb is not None:
             r.add_edge((cb, branch))
+            if inst in self._pending_jumps:
+                self._add_multiple_edges(branch, self._pending_jumps[inst])
 
         # Find the instruction where we are going to branch to
         # It may be None as is not possible to find out using an static analysis
@@ -187,10 +192,10 @@ class ARMControlFlowGraph(digraph):
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
                 # the node is not built yet
-                self._add_pending_jump(inst, branch)
+                self._add_pending_jump(instruction_to_branch, branch)
             elif to_node.kind == CFGBlock.COND:
                 # the node is a conditional
-                self.add_edge(branch, to_node)
+                self.add_edge((branch, to_node))
             else:
                 # the node is a block of instructions
                 self._split_node(to_node, branch, instruction_to_branch)
@@ -270,8 +275,8 @@ class ARMControlFlowGraph(digraph):
                     last_cond_field = None
                 elif inst in self._pending_jumps:
                     b = self._add_node(CFGBlock([inst]))
-                    self._add_multiple_edges(b, self._pending_jumps[inst])
                     r.add_edge((cb, b))
+                    self._add_multiple_edges(b, self._pending_jumps[inst])
                     cb = b
                 else:
                     cb.instructions.append(inst)
-- 
2.43.0


From fff06dd8b8c4f9ac463cd516ca2d86ff770545c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 21/46] fix: instructions following a branch are placed in the
 block of the branch in the control flow graph

---
 semantic_codec/static_analysis/cfg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index dc4e7fb..2bc050d 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -286,7 +286,9 @@ class ARMControlFlowGraph(digraph):
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-                    self._branch_instruction(None, cb, inst, end)
+                    # The next instruction does not belong to the block of the branch
+                    cb = self._branch_instruction(None, cb, inst, end) or cb
+                    last_cond_field = None
 
         if not r.has_edge((cb, end)):
             r.add_edge((cb, end))
-- 
2.43.0


From 977a7a908ff4c2f30e95c43b7b6881e4bfb885da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 22/46] fix: SSA renaming fails with the storages that are not
 modeled (floating point registers)

---
 semantic_codec/static_analysis/ssa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index efc3620..aeff141 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -164,6 +164,12 @@ class SSAFormBuilder(object):
         for v in range(0, AReg.STORAGE_COUNT):
             counter[v] = 0
             stack[v] = [0]
+        # Storages that are not modeled by AReg (i.e. the floating point registers)
+        for n in self._graph:
+            for inst in n.instructions:
+                for v in inst.storages_read() + inst.storages_written():
+                    counter.setdefault(v, 0)
+                    stack.setdefault(v, [0])
 
         self._rename_node(self._root, counter, stack)
 
-- 
2.43.0


From 37696b0732794b2d96cb7cf7d81e705b62fb7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 23/46] fix: the disassembly files stay open after being read

---
 semantic_codec/architecture/disassembler_readers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/architecture/disassembler_readers.py b/semantic_codec/architecture/disassembler_readers.py
index bd97d47..a217bf4 100644
--- a/semantic_codec/architecture/disassembler_readers.py
+++ b/semantic_codec/architecture/disassembler_readers.py
@@ -21,6 +21,10 @@ class DisassembleReader (object):
         self._filename = filename
         self._instruction_set = instruction_set
 
+    def _read_lines(self):
+        with open(self._filename) as f:
+            return f.readlines()
+
     def read_instructions(self):
         """
         Read a disassemble file
@@ -51,7 +55,7 @@ class ElfioTextDisassembleReader(DisassembleReader):
 
         self.instructions = []
         section = None
-        for line in open(self._filename):
+        for line in self._read_lines():
             if line.strip() == "":
                 continue
             elif line.startswith('.'):
@@ -108,7 +112,7 @@ class TextDisassembleReader(DisassembleReader):
 
         k, i = "no_method", 0
         result.append(ElfFunction(k))
-        for line in open(self._filename):
+        for line in self._read_lines():
             line = line.rstrip('\n')
             if p.match(line):
                 k = line
@@ -133,7 +137,7 @@ class TextDisassembleReader(DisassembleReader):
 
         result = []
 
-        for line in open(self._filename):
+        for line in self._read_lines():
             if line[0] == ' ':
                 e = line.rstrip('\n').split(":", 1)[1].split("  ", 1)[0].split(" ", 1)
                 encoding = Instruction.reverse_endianess(e[1])
-- 
2.43.0


From b256ed9fb2e25fad954f2a1dcdfeda2d8fcbf84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 24/46] fix: R0 is not reported as used when it is the base or
 the index of a memory operand

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..2aaa0e9 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -69,10 +69,10 @@ class CAPSInstruction(Instruction):
                     result.append(register)
             if i.type == ARM_OP_MEM:
                 register = AReg.CAPSTONE_REGS[i.value.mem.base]
-                if register != 0 and not register in result:
+                if i.value.mem.base != 0 and not register in result:
                     result.append(register)
                 register = AReg.CAPSTONE_REGS[i.value.mem.index]
-                if register != 0 and not register in result:
+                if i.value.mem.index != 0 and not register in result:
                     result.append(register)
 
         return result
-- 
2.43.0


From a279a8ac8263a63bc5dbb8165672c263451141a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 25/46] fix: store instructions are not recognized and count as
 reads from memory

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 2aaa0e9..40c9087 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM
+    ARM_INS_STRT, ARM_OP_IMM
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -132,7 +132,7 @@ class CAPSInstruction(Instruction):
 
     def _writes_to_memory(self):
         # If its an store
-        return ARM_INS_STR >= self._cap.id >= ARM_INS_STRBT
+        return ARM_INS_STR <= self._cap.id <= ARM_INS_STRT
 
     def _read_from_memory(self):
         for op in self._cap.operands:
-- 
2.43.0


From 0f432645bc305c859d5ecae6759dc3a23113ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 26/46] fix: the report file stays open and the standard output
 redirected when the report fails

---
 recover_program.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recover_program.py b/recover_program.py
index 62bbc63..022b056 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -12,13 +12,20 @@ from semantic_codec.solution.solution_quality import SolutionQuality
 
 
 def print_report(instructions_output_file, original_program, recovered_program):
+    orig_stdout = sys.stdout
+    with open(instructions_output_file, 'w') as f:
+        sys.stdout = f
+        try:
+            _print_report(original_program, recovered_program)
+        finally:
+            sys.stdout = orig_stdout
+
+
+def _print_report(original_program, recovered_program):
 
     depths ={}
 
     errors, recovered, fail_looses, fail_tide = 0, 0, 0, 0
-    orig_stdout = sys.stdout
-    f = open(instructions_output_file, 'w')
-    sys.stdout = f
 
     bad_rules = {}
     aver_instr_tie_sum = 0
@@ -120,8 +127,6 @@ def print_report(instructions_output_file, original_program, recovered_program):
 
     print("DEPTHS: {}".format(depths))
 
-    sys.stdout = orig_stdout
-
 
 def remove_bad_candidates_at_addr(v):
     previous = len(v)
-- 
2.43.0


From 2d5242eee4693f17e1faf31999cf9458cbcde798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 27/46] fix: JSONCorruptor does not initialize its base class

---
 semantic_codec/corruption/corruptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..af16b48 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -25,7 +25,7 @@ class JSONCorruptor(Corruptor):
     """
 
     def __init__(self, path=None):
-        super(JSONCorruptor).__init__()
+        super(JSONCorruptor, self).__init__()
         self.corrupted_program_path = path
 
     def corrupt(self, program):
-- 
2.43.0


From fe8e1b151331674a65d3dce8d57773a92798eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 28/46] fix: rank candidates by score also when one of them is
 encoded as zero

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index cf5cdb0..6e5af45 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -97,7 +97,7 @@ class SolutionQuality(object):
             for inst in v:
                 if inst.encoding < min_encoding:
                     min_encoding = inst.encoding
-            v.sort(key=lambda x: 0 if min_encoding == 0 else (x.score() * 1000000000 + min_encoding/ x.encoding), reverse=True)
+            v.sort(key=lambda x: x.score() * 1000000000 + (min_encoding / x.encoding if x.encoding != 0 else 1), reverse=True)
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
-- 
2.43.0


From 3a156ff3b2c2fca78986d1e3591df1b0070b8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 29/46] fix: counting rules take the valid candidate of a
 decided address

---
 .../metadata/probabilistic_rules/counting_rules.py        | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index e7d51df..e1ea6d4 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -28,9 +28,11 @@ class CountingRule(Rule):
             len_inst = self.candidate_count(instructions)
             if len_inst == 1:
                 # Remove one of the available elements
-                if not instructions[0].ignore:
-                    for v in self._counting_field(instructions[0]):
-                        remaining[v] -= 1
+                for c in instructions:
+                    if not c.ignore:
+                        for v in self._counting_field(c):
+                            if v in remaining:
+                                remaining[v] -= 1
             else:
                 # Count the candidates to obtain that element
                 for c in instructions:
-- 
2.43.0


From d2d231c4beb79755c1bd53531b9e15b57fa82312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 30/46] fix: share of previous candidates with the same
 condition leaves ignored candidates out

The control flow score counts valid candidates only, but in two of its cases divided
by all candidates of the previous address, ignored ones included.
---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 8a76e51..a4bb8b4 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -404,7 +404,7 @@ class ProbabilisticRecuperator(Recuperator):
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
 
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
 
@@ -425,7 +425,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if after_same_cond > 0:
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
             elif after_same_cond > 0:
-- 
2.43.0


From 90b51937f47acca5d6e50c3eea65a3add680fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:40 +0000
Subject: [PATCH 31/46] fix: register distance looks at the whole window

The search for a writer stopped at the first address, the farthest one, that had no
candidate writing the storage, so nearer writers were ignored; it can only stop early
when a writer is certain.
---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index a4bb8b4..4c11d41 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -476,7 +476,7 @@ class ProbabilisticRecuperator(Recuperator):
                             count += 1
                 if t > 0:
                     p *= 1 - count / t
-                    if p == 1:
+                    if p == 0:
                         break
 
             prd = min(p, prd)
-- 
2.43.0


From 12530efa8106b2d8cfe877313bfe8a6b8fd9d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 32/46] fix: control flow score recognises instructions that
 set the flags

The list of registers written never holds the flag register for instructions decoded
with capstone, so no previous instruction ever counted as setting the flags.
---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 4c11d41..3dfab3b 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -366,7 +366,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if not i.ignore:
                     ln_prev += 1
                     a = i.conditional_field == inst.conditional_field
-                    b = AReg.CPSR in i.registers_written()
+                    b = i.modifies_flags()
                     if a:
                         same_cond += 1
                     if b:
-- 
2.43.0


From fbd62f46232ff6c3d45ff0a3a0a13893c37c5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 33/46] fix: only BL and BLX are branches with link

---
 semantic_codec/architecture/instruction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/instruction.py b/semantic_codec/architecture/instruction.py
index 4870905..5f50742 100644
--- a/semantic_codec/architecture/instruction.py
+++ b/semantic_codec/architecture/instruction.py
@@ -204,7 +204,12 @@ class Instruction(object):
 
     @property
     def is_branch_with_link(self):
-        return self.is_branch and (self.encoding & Bits.on(24))
+        if not self.is_branch:
+            return False
+        # BL, BLX to a label and BLX to a register. In other instructions bit 24 does not mean link
+        return (self.encoding & 0x0F000000) == 0x0B000000 or \
+               (self.encoding & 0xFE000000) == 0xFA000000 or \
+               (self.encoding & 0x0FFFFFF0) == 0x012FFF30
 
     def branch_to(self, instructions):
         """
-- 
2.43.0


From 8aab888671b90418d469988f4e93ebf708b05643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 34/46] fix: immediate operands of other instructions are not
 jump targets

---
 semantic_codec/architecture/capstone_instruction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 40c9087..59f79e7 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRT, ARM_OP_IMM
+    ARM_INS_STRT, ARM_INS_MOV, ARM_OP_IMM
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -169,7 +169,9 @@ class CAPSInstruction(Instruction):
         Jumping address for branching instructions
         """
         if self.is_branch:
-            if self._jumping_address is None:
+            # In other instructions that write PC the immediate is an operand, not an address
+            if self._jumping_address is None and \
+                    self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX, ARM_INS_MOV]:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
                         self._jumping_address = op.value.imm
-- 
2.43.0


From 61d4d079781a8b77f0c2cfe570ee0bfc792051bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 35/46] fix: jump targets above 2 GB are addresses, not
 negative numbers

---
 semantic_codec/architecture/capstone_instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 59f79e7..7ad6fb4 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -174,7 +174,8 @@ class CAPSInstruction(Instruction):
                     self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX, ARM_INS_MOV]:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
-                        self._jumping_address = op.value.imm
+                        # Capstone gives the address as a signed number
+                        self._jumping_address = op.value.imm & 0xffffffff
                         break
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
-- 
2.43.0


From 75b6a3ea745661fd0e17110765ba6a4c97af1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 36/46] fix: a pop finds the push with equal registers

A push writes no registers of its list, so comparing what the candidate push
writes with what the pop writes never matched and pops were never rewarded.
---
 semantic_codec/metadata/recuperator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 3dfab3b..3b303e5 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -233,10 +233,11 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
         return c / t if t > 0 else 0
 
-    def _op_prob_and_check_equal_registers(self, opcode, addr, push_reg_readed):
+    def _op_prob_and_check_equal_registers(self, opcode, addr, regs):
         """
         This method computes the probability of a instruction with a given opcode of existing in an address.
-        It also checks if it has the same registers than the ones given in push_reg_readed.
+        It also checks if it has the same registers than the ones given in regs: the registers read by a push when
+        searching for a pop, the registers written by a pop when searching for a push.
         Is ONLY meant for being called from _compute_push_pop
         """
         reg_equals_inst = False
@@ -250,7 +251,10 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
                     if not reg_equals_inst:
                         a = True
-                        pop_reg_read = i.registers_written()
+                        if opcode == 'push':
+                            push_reg_readed, pop_reg_read = i.registers_read(), regs
+                        else:
+                            push_reg_readed, pop_reg_read = regs, i.registers_written()
                         for r in pop_reg_read:
                             if not (r in push_reg_readed or r is AReg.PC):
                                 a = False
-- 
2.43.0


From c7e8e9e25729163049b0fee96a31b72cc45e596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 37/46] fix: hide a candidate once when several of its fields
 exceed their count

---
 semantic_codec/solution/solution_builders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index 5dae655..ab00f72 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -61,6 +61,7 @@ class ExactFieldSumConstraint(Constraint):
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
                                     domain.hideValue(value)
+                                    break
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From 0ea2022e6eff5c85f953a1c6ba2d2ad48a4c8cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 38/46] fix: the registers written by a load or store multiple
 are its register list

---
 semantic_codec/architecture/arm_instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/arm_instruction.py b/semantic_codec/architecture/arm_instruction.py
index 6c3e9ce..953ea75 100644
--- a/semantic_codec/architecture/arm_instruction.py
+++ b/semantic_codec/architecture/arm_instruction.py
@@ -107,7 +107,7 @@ class ARMInstruction(Instruction):
             result.append(self._rd_field_())
         # Load Store multiple
         if t == AOpType.LOAD_STORE_MULTIPLE:
-            result.append(self._get_register_list())
+            result.extend(Instruction._get_register_list(self.encoding))
 
         return result
 
-- 
2.43.0


From 3fa9bcef803559284dd4301b019db9c22fdba939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 39/46] fix: give the instructions made of encodings a position

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 semantic_codec/architecture/darm_instruction.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 7ad6fb4..6fe8fb7 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -193,10 +193,10 @@ class CAPSInstruction(Instruction):
         #return AReg.CPSR in self.storages_written()
 
     @staticmethod
-    def encodings_to_inst(encodings, return_undefined=False):
+    def encodings_to_inst(encodings, return_undefined=False, position=0):
         result = []
         for e in encodings:
-            d = CAPSInstruction(e)
+            d = CAPSInstruction(e, position)
             if not d.is_undefined or return_undefined:
                 result.append(d)
         return result
diff --git a/semantic_codec/architecture/darm_instruction.py b/semantic_codec/architecture/darm_instruction.py
index 1c31a10..e13034f 100644
--- a/semantic_codec/architecture/darm_instruction.py
+++ b/semantic_codec/architecture/darm_instruction.py
@@ -150,10 +150,10 @@ class DARMInstruction(Instruction):
         return AReg.CPSR in self.storages_written()
 
     @staticmethod
-    def encodings_to_darm(encodings, return_undefined=False):
+    def encodings_to_darm(encodings, return_undefined=False, position=0):
         result = []
         for e in encodings:
-            d = DARMInstruction(e)
+            d = DARMInstruction(e, position)
             if not d.is_undefined or return_undefined:
                 result.append(d)
         return result
-- 
2.43.0


From 934b3766580e8d5a6b82a34d877bb9124ce28b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 40/46] fix: list every register written once

---
 semantic_codec/architecture/darm_instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/darm_instruction.py b/semantic_codec/architecture/darm_instruction.py
index e13034f..064d35a 100644
--- a/semantic_codec/architecture/darm_instruction.py
+++ b/semantic_codec/architecture/darm_instruction.py
@@ -65,7 +65,7 @@ class DARMInstruction(Instruction):
         if self._darm.Rd:
             result.append(self._darm.Rd.idx)
         if self._darm.reglist.reglist > 0 and not self._inst_is('push'):
-            result.extend(Instruction._get_register_list(self._darm.reglist.reglist, result))
+            result = Instruction._get_register_list(self._darm.reglist.reglist, result)
 
         return result
 
-- 
2.43.0


From 884651bdc62da7bf0173839a626f9888c2bd6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 41/46] fix: no edge from a call to an instruction of the
 program to the instruction it returns to in the control flow graph

---
 semantic_codec/static_analysis/cfg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 2bc050d..25a8321 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -108,9 +108,9 @@ class ARMControlFlowGraph(digraph):
             # Add an outgoing edge to the new block from the conditional
             r.add_edge((new_cond, b))
 
-            # if the last block is a branch, we cannot receive control from it
+            # if the last block is a branch, we cannot receive control from it, unless the call returns,
             # therefore only add and edge if is not a branch
-            if not cb.last_is_branch:
+            if not cb.last_is_branch or cb.last_is_branch_with_link:
                 r.add_edge((cb, new_cond))
 
             # if a previous conditional existed, we must connect them both
@@ -124,8 +124,8 @@ class ARMControlFlowGraph(digraph):
             return b, new_cond
         else:
             # If the new conditional is ALWAYS, then, there is no need for a conditional node,
-            # just jump to here, unless of course the previous node was a branch
-            if not cb.last_is_branch:
+            # just jump to here, unless of course the previous node was a branch without link
+            if not cb.last_is_branch or cb.last_is_branch_with_link:
                 r.add_edge((cb, b))
             # Make the last conditional jump here
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
-- 
2.43.0


From c1328b81ede35b18eddfe32e8aa7c40eb9e41984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 42/46] fix: edge from the block before an unconditional branch
 to the instruction after it in the control flow graph

---
 semantic_codec/static_analysis/cfg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 25a8321..a1d8f7d 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -200,6 +200,10 @@ class ARMControlFlowGraph(digraph):
                 # the node is a block of instructions
                 self._split_node(to_node, branch, instruction_to_branch)
 
+        if inst.conditional_field == AOpType.COND_ALWAYS and not inst.is_branch_with_link:
+            # The previous block always goes to the branch and never to the next instruction
+            cb = branch
+
         return cb
 
     def _add_multiple_edges(self, dest, sources):
-- 
2.43.0


From 4ea4eb65f9b91cd8d816a31e6e5e2865a6cab54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 43/46] fix: dominators cannot be computed when a block that
 cannot be reached precedes one that can

---
 semantic_codec/static_analysis/dominators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index ab8e497..74337d6 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -24,6 +24,9 @@ def build_dominator_tree(graph, root):
     """
     # Initialization
     vertex = dominator_tree_dfs(graph, root, [])
+    # The blocks that cannot be reached (i.e. after an unconditional branch) are not dominated
+    for n in vertex:
+        n.predecessors = [p for p in n.predecessors if p.dom_idx >= 0]
 
     for i in range(len(vertex) - 1, 0, -1):
         w = vertex[i]
-- 
2.43.0


From 766f596f4c73e13bb7ad1e74a08da34aac4ab206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 44/46] fix: backward jumps to a conditional instruction go
 around its condition in the control flow graph

---
 semantic_codec/static_analysis/cfg.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index a1d8f7d..d646c0b 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -65,6 +65,16 @@ class ARMControlFlowGraph(digraph):
                 return b
         return None
 
+    def _get_conditional(self, node, instruction):
+        """
+        Get the conditional that decides whether the first instruction of a node is executed, if there is one
+        """
+        if node.first is instruction and instruction.conditional_field != AOpType.COND_ALWAYS:
+            for p in self.incidents(node):
+                if p.kind == CFGBlock.COND:
+                    return p
+        return None
+
     def _find_instruction_by_address(self, instruction):
         """
         Returns the instruction located in a given address
@@ -193,9 +203,9 @@ class ARMControlFlowGraph(digraph):
             if to_node is None:
                 # the node is not built yet
                 self._add_pending_jump(instruction_to_branch, branch)
-            elif to_node.kind == CFGBlock.COND:
-                # the node is a conditional
-                self.add_edge((branch, to_node))
+            elif self._get_conditional(to_node, instruction_to_branch) is not None:
+                # the instruction is the first one of a conditional block
+                self.add_edge((branch, self._get_conditional(to_node, instruction_to_branch)))
             else:
                 # the node is a block of instructions
                 self._split_node(to_node, branch, instruction_to_branch)
-- 
2.43.0


From 5344627ef191ff3d4df9c8cecc8cacc5a4a2e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 45/46] fix: collecting metadata again starts from empty tables

---
 semantic_codec/metadata/metadata_collector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantic_codec/metadata/metadata_collector.py b/semantic_codec/metadata/metadata_collector.py
index 6222733..40dc8a0 100644
--- a/semantic_codec/metadata/metadata_collector.py
+++ b/semantic_codec/metadata/metadata_collector.py
@@ -55,6 +55,12 @@ class MetadataCollector(object):
 
         # TODO: Collect the number of instructions writing to no register
 
+        self._storage_count = {}
+        self._condition_count = {}
+        self._instruction_count = {}
+        self._storage_min_dist = {}
+        self._storage_max_dist = {}
+        self._storage_mean_dist = {}
         self.empty_spaces = []
 
         # Lazy me
-- 
2.43.0


From bc69f9a3b1f50d46c52bacf51384fa5a38c067b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:42 +0000
Subject: [PATCH 46/46] fix: the shift compressor removes the first lost bits
 too

---
 semantic_codec/compressor/shiftcompressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 46366e9..a93d704 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -30,7 +30,7 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
             del a[k:k + self._shift_count]
-- 
2.43.0

