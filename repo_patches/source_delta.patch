From f735bd0967d4f25722749947cebf4906fd18ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 01/55] fix: deinterleave stops at the end of the data, not of
 the last packet in the order

Driving the loop with the last packet dropped the final partial pass whenever
the number of chunks was not a multiple of the number of packets, failed with a
KeyError when that packet was missing, and reported all packets lost when only
the first one of the order had been received.
---
 semantic_codec/interleaver/interleaver2d.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..7749a4c 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,24 +195,24 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [p for p in interleave_order if p in packets and packets[p] is not None]
+    if not received:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
+
+    # The first packet received holds at least as many chunks as any other one received
+    first_queue = packets[received[0]]
 
     errors = []
 
     data = BitQueue(word_size)
-    while not last_queue.empty():
+    while not first_queue.empty():
         for p in interleave_order:
             a = 0
             if not p in packets or packets[p] is None:
                 errors.append((data._eq_word, data._eq_bit))
+            elif packets[p].empty():
+                # The data ends in the middle of this pass
+                break
             else:
                 a = packets[p].dequeue(a, 0)
             data.enqueue(a, 0)
-- 
2.43.0


From 518f4cd38cc6fff9fd9f252a47862c2c870fc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 02/55] fix: BitQueue keeps the bits of a value that crosses a
 32 bit word

The part of the value that fell in the next word was read again from the start
of the value, and taken out again to the start of the destination.
---
 semantic_codec/architecture/bits.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..dfda5aa 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -18,16 +18,17 @@ class BitQueue(object):
         Bits.check_range(0, from_bit)
 
         if self._eq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
-            w = max(0, BitQueue.WORD_SIZE - self._eq_bit - 1)
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            # Bits that still fit in the current word
+            w = BitQueue.WORD_SIZE - self._eq_bit
+            self._bytes[self._eq_word] = Bits.copy_bits(value >> from_bit, self._bytes[self._eq_word],
+                                                        0, w - 1, self._eq_bit)
             self._eq_word += 1
             self._bytes.append(0)
 
-            w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            # The rest of the bits go at the beginning of the next word
+            self._bytes[self._eq_word] = Bits.copy_bits(value >> (from_bit + w), self._bytes[self._eq_word],
+                                                        0, self.word_size - w - 1, 0)
+            self._eq_bit -= BitQueue.WORD_SIZE
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
@@ -55,9 +56,13 @@ class BitQueue(object):
             self._bytes.pop(0)
             self._eq_word -= 1
 
+            head = self._dq_bit
             w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            # The rest goes after the bits already taken, as long as there is place in the destination
+            to_bit += BitQueue.WORD_SIZE - head
+            if to_bit < BitQueue.WORD_SIZE:
+                value = Bits.copy_bits(self._bytes[0], value, 0, min(w, BitQueue.WORD_SIZE - to_bit) - 1, to_bit)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From 7a225ab705854ab87f3b4958cc004d17dba267e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 03/55] fix: predict_corruption reports the errors of every
 lost packet up to the end of the data

The loop stopped as soon as the first lost packet of the list ran out of the
data, and failed when no packet was lost.
---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..9f3bb2b 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -245,7 +245,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while any(x < total_bits for x in b):
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From 7623b4b86747feb57918157f7b27299aa4362db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 04/55] fix: corrupt_bits combines all the bits it picked

The bits were indexed by powers of two, so the third bit was never corrupted
and the fourth one was taken for the third.
---
 semantic_codec/corruption/corruption.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 9f3bb2b..7f868c8 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -101,10 +101,9 @@ def corrupt_bits(hi, lo, amount, instruction):
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if i & Bits.on(j) else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
-- 
2.43.0


From 0259272b460d11426cf2568cddbf0e6f7f039a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 05/55] fix: corrupt_program rejects percents out of 0 - 100

The chained comparison could never be true; a percent over 100 never ended.
---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 7f868c8..6680649 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -150,7 +150,7 @@ def corrupt_program(program, err_percent, max_amount):
     :param max_amount: Maximal amount of bit errors per instructions, meaning that each corrupted instructions can
                        have up to this amount of errors
     """
-    if 0 > err_percent > 100:
+    if not 0 <= err_percent <= 100:
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
-- 
2.43.0


From cadb5dc8dd31c0da7b39096d5e8200f899188429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 06/55] fix: corrupt_program picks among the addresses of the
 program

It guessed them as if the program had no gaps, so it could not reach the last
addresses of a program with gaps, and never ended when it needed them.
---
 semantic_codec/corruption/corruption.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 6680649..48f9a72 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -160,16 +160,12 @@ def corrupt_program(program, err_percent, max_amount):
 
     corrupted_amount = math.ceil(max(1, len_program * err_percent))
 
-    # Find the min and max address in the program
-    min_addr = sys.maxsize
-    max_addr = -sys.maxsize
-    for k in program:
-        min_addr = k if min_addr > k else min_addr
-        max_addr = k if max_addr < k else max_addr
+    # The addresses of a program are not always contiguous
+    addresses = sorted(program)
 
     while corrupted_amount > 0:
-        p = random.randint(0, len_program) * 4 + min_addr
-        if p in program and len(program[p]) == 1:
+        p = addresses[random.randint(0, len_program - 1)]
+        if len(program[p]) == 1:
             a = random.randint(1, max_amount)
             for r in corrupt_bits(31, 0, a, program[p][0].encoding):
                 if _encoding_not_in_list(r, program[p]):
-- 
2.43.0


From 67965a092e2025bcb936060e89d1c0750591f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 07/55] fix: PacketCorruptor does not repeat candidates

Instructions have no equality, so looking for them in the list of candidates
never found the ones having the same encoding.
---
 semantic_codec/corruption/corruptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..297dc0f 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -54,12 +54,12 @@ class PacketCorruptor(Corruptor):
         self.corrupted_program_path = save_corrupted_path
 
     def _corrupt_address(self, tuples, address, program):
-        corrupted = []
+        corrupted, encodings = [], set()
         for inst in program[address]:
             for c_inst in corrupt_all_bits_tuples(tuples, inst.encoding):
-                arm_inst = CAPSInstruction(c_inst, program[address][0].address)
-                if not arm_inst in corrupted:
-                    corrupted.append(arm_inst)
+                if c_inst not in encodings:
+                    encodings.add(c_inst)
+                    corrupted.append(CAPSInstruction(c_inst, program[address][0].address))
         program[address] = corrupted
 
     def corrupt(self, program):
-- 
2.43.0


From d1d15e2ed3dfcca38e11a2afbbf0c8d8d377fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 08/55] fix: SolutionQuality counts the combinations of
 candidates

The number of solutions is the product of the candidates of each address, not
the sum of the products of the addresses having equal amount of candidates.
Evaluating the quality also lost the count.
---
 semantic_codec/solution/solution_quality.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..ab26db2 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -68,10 +68,10 @@ class SolutionQuality(object):
             else:
                 bins[k] = 1
 
-        i = 1
-        amount = 0
+        # One candidate is picked per address, independently of the others
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
@@ -82,7 +82,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
@@ -127,5 +127,6 @@ class SolutionQuality(object):
         a = self
         print('[INFO]: Solutions: {}'.format(a.solution_count_bins))
         print('[INFO]: Solutions size: {}'.format(a.solution_size))
-        print('[INFO]: Solutions count: {}'.format(a.solution_count))
+        # In hexadecimal, as python refuses to print the decimals of very large numbers
+        print('[INFO]: Solutions count: {:#x}'.format(a.solution_count))
 
-- 
2.43.0


From 5f640aa9d012096d04976913021d4032cf9faa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 09/55] fix: SolutionQuality evaluates programs having
 addresses without candidates

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index ab26db2..f76ef45 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -111,8 +111,8 @@ class SolutionQuality(object):
             if not ln in self._highest_depth_bin:
                 self._highest_depth_bin[ln] = 0
 
-            r = (i+1) / ln
             if ln > 0:
+                r = (i+1) / ln
                 if r > self._highest_depth_bin[ln]:
                     self._highest_depth_bin[ln] = r
                     max_addr_bin[ln] = addr
-- 
2.43.0


From b22238fd6b55c96307b1f840a14952407d605087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 10/55] fix: the forward builder uses enough bits for every
 index

Rounding down the logarithm cut the highest bit of the index of the solution
when the number of candidates was not a power of two.
---
 semantic_codec/solution/solution_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..ffe1326 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -251,7 +251,7 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            size = (ln - 1).bit_length() if ln > 1 else 0
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From 6711279757eafd43ea77e9f2d9cbf8f437600aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 11/55] fix: ExactFieldSumConstraint hides a value only once

An instruction exceeding the sum of two of its fields was hidden twice from its
domain, which fails with a ValueError.
---
 semantic_codec/solution/solution_builders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index ffe1326..7f60919 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -61,6 +61,7 @@ class ExactFieldSumConstraint(Constraint):
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
                                     domain.hideValue(value)
+                                    break
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From 7d49454111c9203021912242270fc47b4e8a4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 12/55] fix: the remove step of the recovery does not discard
 original instructions

Push and pops have no register score, which made their score 0. A register
score of 1 only tells that the original uses those registers, not that it is
one of the candidates using no others.
---
 semantic_codec/metadata/recuperator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..64acf6e 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -109,7 +109,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Conditional register score
     pc = scores_dict['pc'] if 'pc' in scores_dict else 1
     # Register score
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
     # Register distance score
     prd = scores_dict['prd'] if 'prd' in scores_dict else 1
     # Opcode score
@@ -121,9 +121,9 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Branch distance score
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
-    hi = max(pc, po, pr)
-    # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    # All the instructions of an address having a certain conditional, or opcode, also include the original one.
+    # The same cannot be told of the registers, since the original may use others as well
+    hi = max(pc, po)
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From abde6131966ab63aee5dda21e9c08ffd32ff943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 13/55] fix: the push and pop score is taken into account

It was stored with a name different to the one used to read it.
---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 64acf6e..b1254b5 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -326,7 +326,7 @@ class ProbabilisticRecuperator(Recuperator):
         if p2 > 0:
             p2 = self._model.push_given_pop_at_fn_middle
 
-        inst.scores_by_rule['popu'] = max(p1, p2, p3)
+        inst.scores_by_rule['pupo'] = max(p1, p2, p3)
 
     def _compute_proper_cfg(self, inst, cpmd, addr):
         """
-- 
2.43.0


From 3a426540d546ce7f1396ce0ef7141aaa972a4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 14/55] fix: the recovery accepts functions having gaps between
 their instructions

The address of the last instruction of a function was computed as if its
instructions were contiguous, and the ones in between looked up without
checking that they exist.
---
 semantic_codec/architecture/functions.py | 2 +-
 semantic_codec/metadata/recuperator.py   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/functions.py b/semantic_codec/architecture/functions.py
index 76a92e7..eb31547 100644
--- a/semantic_codec/architecture/functions.py
+++ b/semantic_codec/architecture/functions.py
@@ -16,7 +16,7 @@ class ElfFunction(object):
 
     def final_addr(self):
         if len(self.instructions) > 0:
-            return self.instructions[0].address + self.length_in_bytes() - 4
+            return self.instructions[-1].address
         else:
             return 0
 
diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index b1254b5..5f5d97a 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -261,7 +261,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
@@ -296,6 +296,8 @@ class ProbabilisticRecuperator(Recuperator):
                 cb2, tb2 = 0, 0
                 p2 = 0
                 for a in range(last_addr, addr, -4):
+                    if a not in self._program:
+                        continue
                     cb2 = cb1
                     tb2 = tb1
                     for i in self._program[a]:
-- 
2.43.0


From 11d83eadcf232427c16520d80e1330bc59ff625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 15/55] fix: report programs without errors left

A fully recovered program failed with a ZeroDivisionError.
---
 recover_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recover_program.py b/recover_program.py
index d773027..62bbc63 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -116,7 +116,7 @@ def print_report(instructions_output_file, original_program, recovered_program):
     print("------------")
 
     print("ERRORS: {} -- LOSING: {} -- TIDE: {} --RECOVERED: {} -- RATIO: {} ".format(
-        errors, fail_looses, fail_tide, recovered, recovered / errors))
+        errors, fail_looses, fail_tide, recovered, recovered / errors if errors > 0 else 1))
 
     print("DEPTHS: {}".format(depths))
 
-- 
2.43.0


From 347dc51a8685422ef33b1b40c7cc57e295b4eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 16/55] fix: the recovery keeps the words that were received
 without errors

Words that are not instructions, like the ones in literal pools, have no score
and were removed even if they had no errors.
---
 recover_program.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recover_program.py b/recover_program.py
index 62bbc63..ac059a3 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -125,6 +125,9 @@ def print_report(instructions_output_file, original_program, recovered_program):
 
 def remove_bad_candidates_at_addr(v):
     previous = len(v)
+    if previous < 2:
+        # There is nothing to choose from, the word was received as it is
+        return 0
     one_count = 0
     less_than_one_count = 0
     i = 0
-- 
2.43.0


From 0aa3bc36369f40c3d0b4a7a664b9f1e921d9675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 17/55] fix: ShiftCompressor removes the first of the listed
 bits too

---
 semantic_codec/compressor/shiftcompressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 46366e9..a93d704 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -30,7 +30,7 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
             del a[k:k + self._shift_count]
-- 
2.43.0


From d7fb2e4dc76293b03246b34e4c0be4bef4bd45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 18/55] fix: stores write into the memory

The range of store instructions was checked the other way round, hence stores
were taken as if they read the memory.
---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..727cbd9 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM
+    ARM_INS_STRT, ARM_OP_IMM
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -132,7 +132,7 @@ class CAPSInstruction(Instruction):
 
     def _writes_to_memory(self):
         # If its an store
-        return ARM_INS_STR >= self._cap.id >= ARM_INS_STRBT
+        return ARM_INS_STR <= self._cap.id <= ARM_INS_STRT
 
     def _read_from_memory(self):
         for op in self._cap.operands:
-- 
2.43.0


From e2036f354181177e8694b31b958069c2db73f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 19/55] fix: R0 is used by the instructions having it in their
 address

The base and index registers were compared with 0, the number of R0, after
being translated, as if it was the absence of register.
---
 semantic_codec/architecture/capstone_instruction.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 727cbd9..c1af579 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -68,12 +68,10 @@ class CAPSInstruction(Instruction):
                 if not register in result:
                     result.append(register)
             if i.type == ARM_OP_MEM:
-                register = AReg.CAPSTONE_REGS[i.value.mem.base]
-                if register != 0 and not register in result:
-                    result.append(register)
-                register = AReg.CAPSTONE_REGS[i.value.mem.index]
-                if register != 0 and not register in result:
-                    result.append(register)
+                for mem_reg in [i.value.mem.base, i.value.mem.index]:
+                    # Capstone uses 0 for no register, while 0 is also our R0
+                    if mem_reg != 0 and not AReg.CAPSTONE_REGS[mem_reg] in result:
+                        result.append(AReg.CAPSTONE_REGS[mem_reg])
 
         return result
 
-- 
2.43.0


From ec44cb66dd9cdecff331d433dcb3bd0fedeccb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 20/55] fix: instructions use the register giving the amount to
 shift an operand

---
 semantic_codec/architecture/capstone_instruction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index c1af579..8eef3da 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRT, ARM_OP_IMM
+    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_ROR_REG
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -67,6 +67,11 @@ class CAPSInstruction(Instruction):
                     register = AReg.CAPSTONE_REGS[i.value.reg]
                 if not register in result:
                     result.append(register)
+                # The amount to shift the operand may be in a register too
+                if ARM_SFT_ASR_REG <= i.shift.type <= ARM_SFT_ROR_REG:
+                    register = AReg.CAPSTONE_REGS[i.shift.value]
+                    if not register in result:
+                        result.append(register)
             if i.type == ARM_OP_MEM:
                 for mem_reg in [i.value.mem.base, i.value.mem.index]:
                     # Capstone uses 0 for no register, while 0 is also our R0
-- 
2.43.0


From f295810153ce949c1239a611a4f3b62bedd8becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 21/55] fix: instructions read the registers that they also
 write

The first operand was only considered as written, even for instructions like
add r1, r1, r2.
---
 .../architecture/capstone_instruction.py      | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 8eef3da..1e32ed9 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -59,23 +59,30 @@ class CAPSInstruction(Instruction):
         if self.is_push_pop:
             result.append(AReg.SP)
 
+        for register in self._operand_registers():
+            if not register in result:
+                result.append(register)
+
+        return result
+
+    def _operand_registers(self):
+        """
+        Returns the registers of the operands, in the order they appear and as many times as they do
+        """
+        result = []
         for i in self._cap.operands:
             if i.type == ARM_OP_REG:
                 if i.value.reg not in AReg.CAPSTONE_REGS:
-                    register = AReg.STORAGE_COUNT + i.value.reg
+                    result.append(AReg.STORAGE_COUNT + i.value.reg)
                 else:
-                    register = AReg.CAPSTONE_REGS[i.value.reg]
-                if not register in result:
-                    result.append(register)
+                    result.append(AReg.CAPSTONE_REGS[i.value.reg])
                 # The amount to shift the operand may be in a register too
                 if ARM_SFT_ASR_REG <= i.shift.type <= ARM_SFT_ROR_REG:
-                    register = AReg.CAPSTONE_REGS[i.shift.value]
-                    if not register in result:
-                        result.append(register)
+                    result.append(AReg.CAPSTONE_REGS[i.shift.value])
             if i.type == ARM_OP_MEM:
                 for mem_reg in [i.value.mem.base, i.value.mem.index]:
                     # Capstone uses 0 for no register, while 0 is also our R0
-                    if mem_reg != 0 and not AReg.CAPSTONE_REGS[mem_reg] in result:
+                    if mem_reg != 0:
                         result.append(AReg.CAPSTONE_REGS[mem_reg])
 
         return result
@@ -102,6 +109,10 @@ class CAPSInstruction(Instruction):
             result = []
         else:
             result = self.registers_used()[1:]
+            # The first register is read as well when it is also one of the other operands
+            first = self.registers_written()
+            if first and self._operand_registers().count(first[0]) > 1:
+                result.insert(0, first[0])
 
         if self.is_push_pop and not AReg.SP in result:
             result.append(AReg.SP)
-- 
2.43.0


From f4c127cc930c177617bc21f3bdaa17cc8427be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 22/55] fix: number the nodes of the dominator tree by the
 order of the search

Lengauer Tarjan needs a different number per node, the depth in the search tree
was giving wrong dominators.
---
 semantic_codec/static_analysis/dominators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index ab8e497..2added1 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -1,19 +1,20 @@
 from pygraph.classes.digraph import digraph
 
 
-def dominator_tree_dfs(graph, node, visited, index=0):
+def dominator_tree_dfs(graph, node, visited):
     """
     Makes the lengauer tarjan dominator tree algorithm Deep First Search
     """
     result = [node]
-    node.dom_idx = index
+    # Number of the node in the order of the search
+    node.dom_idx = len(visited)
     node.predecessors = graph.incidents(node)
     node.successors = graph.neighbors(node)
     visited.append(node)
     for n in node.successors:
         if n not in visited:
             n.dom_parent = node
-            result.extend(dominator_tree_dfs(graph, n, visited, index + 1))
+            result.extend(dominator_tree_dfs(graph, n, visited))
 
     return result
 
-- 
2.43.0


From cd9077a63dd8180056b659ef6df050587596ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 23/55] fix: dominators of graphs having nodes not reachable
 from the root

Such a node being the predecessor of another raised an error.
---
 semantic_codec/static_analysis/dominators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index 2added1..c1d5bfd 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -26,6 +26,10 @@ def build_dominator_tree(graph, root):
     # Initialization
     vertex = dominator_tree_dfs(graph, root, [])
 
+    # The nodes that cannot be reached from the root do not take part in the dominance
+    for n in vertex:
+        n.predecessors = [p for p in n.predecessors if p in vertex]
+
     for i in range(len(vertex) - 1, 0, -1):
         w = vertex[i]
         p = w.dom_parent
-- 
2.43.0


From 712cd00799adf4b539d5c94cdec8e2cc839c87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 24/55] fix: restore the names of the variables after renaming
 a node

The names given in a node were left in use for the nodes that it does not
dominate.
---
 semantic_codec/static_analysis/ssa.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 6708f3e..efc3620 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -195,16 +195,15 @@ class SSAFormBuilder(object):
                 val.append((var, stack[var][0]))
 
         # Continue the renaming process in the successors
-        for n in n.dom_successors:
-            self._rename_node(n, counter, stack)
+        for s in n.dom_successors:
+            self._rename_node(s, counter, stack)
 
         # Roll back the indexing
         for phi in n.phi_functions:
-            var = phi[0]
-            for inst in n.instructions:
-                if var in inst.storages_written():
-                    stack[var].pop()
-            stack[var].pop()
+            stack[phi[0]].pop(0)
+        for inst in n.instructions:
+            for w in inst.storages_written():
+                stack[w].pop(0)
 
     def _remove_dead_phi(self):
         """
-- 
2.43.0


From 3b670e6d031c0639a7052fc931dc474ea6ebea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 25/55] fix: SSA of instructions using registers other than R0
 to R15

Any of them, e.g. the ones of the floating point unit, raised a KeyError.
---
 semantic_codec/static_analysis/ssa.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index efc3620..fb5c808 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -1,6 +1,7 @@
+from collections import defaultdict
+
 from pygraph.classes.digraph import digraph
 
-from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.static_analysis.cfg import CFGBlock
 from semantic_codec.static_analysis.dominators import build_dominator_tree
 
@@ -159,11 +160,9 @@ class SSAFormBuilder(object):
         """
         Rename the variables in the SSA
         """
-        counter = {}
-        stack = {}
-        for v in range(0, AReg.STORAGE_COUNT):
-            counter[v] = 0
-            stack[v] = [0]
+        # Some instructions use registers other than the ones listed as storages
+        counter = defaultdict(int)
+        stack = defaultdict(lambda: [0])
 
         self._rename_node(self._root, counter, stack)
 
-- 
2.43.0


From b235ab12f89dbae736b732f703b1108b82caa5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 26/55] fix: the control flow graph has the edges of the
 branches going forward

The pending jumps were indexed by the branch instead of by the instruction it
goes to, and they were not looked up for every new block.
---
 semantic_codec/static_analysis/cfg.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 806d0ca..87c7090 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -131,6 +131,9 @@ class ARMControlFlowGraph(digraph):
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
                 r.add_edge((last_conditional, b))
 
+            if inst in self._pending_jumps:
+                self._add_multiple_edges(b, self._pending_jumps[inst])
+
             # There no need for a last conditional node since the last block was not conditionally executed
             return b, None
 
@@ -187,7 +190,7 @@ class ARMControlFlowGraph(digraph):
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
                 # the node is not built yet
-                self._add_pending_jump(inst, branch)
+                self._add_pending_jump(instruction_to_branch, branch)
             elif to_node.kind == CFGBlock.COND:
                 # the node is a conditional
                 self.add_edge(branch, to_node)
@@ -261,23 +264,18 @@ class ARMControlFlowGraph(digraph):
             inst = self._instructions[i]
             if inst.is_undefined:
                 continue  # Ignore undefined instructions
-            if inst.conditional_field == last_cond_field:
+            if inst.conditional_field == last_cond_field and inst not in self._pending_jumps:
                 last_cond_field = inst.conditional_field
                 # First case, just add the instruction to the current block
                 # unless the current instruction is a branch:
                 if inst.is_branch:
                     cb = self._branch_instruction(cb, None, inst, end)
                     last_cond_field = None
-                elif inst in self._pending_jumps:
-                    b = self._add_node(CFGBlock([inst]))
-                    self._add_multiple_edges(b, self._pending_jumps[inst])
-                    r.add_edge((cb, b))
-                    cb = b
                 else:
                     cb.instructions.append(inst)
             else:
                 last_cond_field = inst.conditional_field
-                # Second case, the conditional is different. Make the current node the last
+                # Second case, the conditional is different, or a previous branch jumps here. Make the current node the last
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-- 
2.43.0


From 9c5c52075cb8f50675eae158469e3dc2a15f4e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 27/55] fix: a branch ends its block in the control flow graph

A branch with a conditional different to the one of the previous instruction
kept receiving the instructions after it, the block before a branch went on to
the instruction after the branch, and a call to a known address never returned.
---
 semantic_codec/static_analysis/cfg.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 87c7090..3cc7ccc 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -110,7 +110,7 @@ class ARMControlFlowGraph(digraph):
 
             # if the last block is a branch, we cannot receive control from it
             # therefore only add and edge if is not a branch
-            if not cb.last_is_branch:
+            if not cb.last_is_branch or cb.last_is_branch_with_link:
                 r.add_edge((cb, new_cond))
 
             # if a previous conditional existed, we must connect them both
@@ -125,7 +125,7 @@ class ARMControlFlowGraph(digraph):
         else:
             # If the new conditional is ALWAYS, then, there is no need for a conditional node,
             # just jump to here, unless of course the previous node was a branch
-            if not cb.last_is_branch:
+            if not cb.last_is_branch or cb.last_is_branch_with_link:
                 r.add_edge((cb, b))
             # Make the last conditional jump here
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
@@ -166,6 +166,8 @@ class ARMControlFlowGraph(digraph):
             branch = self._add_node(CFGBlock([inst]))
         if cb is not None:
             r.add_edge((cb, branch))
+        # The block ends here
+        cb = branch
 
         # Find the instruction where we are going to branch to
         # It may be None as is not possible to find out using an static analysis
@@ -180,12 +182,7 @@ class ARMControlFlowGraph(digraph):
                 # self._add_pending_jump(self._next_instruction(i), unknown_node)
         else:
             # 1 - Branch to the known address
-            # if we branch with link we must put the next instruction in the pending jumps
-            if inst.is_branch_with_link:
-                cb = branch
-                # raise RuntimeError("Not implemented yey")
-                # cb = self._add_pending_jump(self._next_instruction(i), branch_node)
-
+            # if we branch with link the control also comes back to the next instruction
             # find out to what node the address jumps to
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
@@ -279,7 +276,8 @@ class ARMControlFlowGraph(digraph):
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-                    self._branch_instruction(None, cb, inst, end)
+                    cb = self._branch_instruction(None, cb, inst, end)
+                    last_cond_field = None
 
         if not r.has_edge((cb, end)):
             r.add_edge((cb, end))
-- 
2.43.0


From 17e250f3ee18532cc269cab24d5b2138ae0c6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 28/55] fix: jumps to conditional blocks go through their
 conditional in the control flow graph

---
 semantic_codec/static_analysis/cfg.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 3cc7ccc..32902b5 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -83,6 +83,7 @@ class ARMControlFlowGraph(digraph):
         index = split.instructions.index(instruction)
         if index > 0:
             up = self._add_node(CFGBlock(split.instructions[:index]))
+            up.conditional = split.conditional
             split.instructions = split.instructions[index:]
             successors = []
             successors.extend(self.incidents(split))
@@ -91,7 +92,12 @@ class ARMControlFlowGraph(digraph):
                 self.add_edge((i, up))
             self.add_edge((up, split))
 
-        self.add_edge((branch, split))
+        # A conditional block receives the jump through its conditional, which is also the way to skip the block
+        conditional = split.conditional
+        if conditional is not None:
+            self._add_multiple_edges(conditional, [branch])
+        if conditional is None or not self.has_edge((conditional, split)):
+            self._add_multiple_edges(split, [branch])
 
     def _branch_conditional(self, inst, cb, last_conditional):
         """
@@ -107,6 +113,7 @@ class ARMControlFlowGraph(digraph):
             new_cond = self._add_node(CFGBlock([], kind=CFGBlock.COND))
             # Add an outgoing edge to the new block from the conditional
             r.add_edge((new_cond, b))
+            b.conditional = new_cond
 
             # if the last block is a branch, we cannot receive control from it
             # therefore only add and edge if is not a branch
@@ -164,6 +171,7 @@ class ARMControlFlowGraph(digraph):
         # Create the node with the explicit branch
         if branch is None:
             branch = self._add_node(CFGBlock([inst]))
+            branch.conditional = cb.conditional
         if cb is not None:
             r.add_edge((cb, branch))
         # The block ends here
@@ -188,9 +196,6 @@ class ARMControlFlowGraph(digraph):
             if to_node is None:
                 # the node is not built yet
                 self._add_pending_jump(instruction_to_branch, branch)
-            elif to_node.kind == CFGBlock.COND:
-                # the node is a conditional
-                self.add_edge(branch, to_node)
             else:
                 # the node is a block of instructions
                 self._split_node(to_node, branch, instruction_to_branch)
@@ -281,6 +286,9 @@ class ARMControlFlowGraph(digraph):
 
         if not r.has_edge((cb, end)):
             r.add_edge((cb, end))
+        # The last block may be not executed
+        if last_cond_node is not None:
+            r.add_edge((last_cond_node, end))
         return self
 
 
@@ -315,6 +323,9 @@ class CFGBlock(object):
 
         self.branching_address = None
 
+        # Conditional node deciding if this block is executed, if any
+        self.conditional = None
+
         # Instructions belonging to the node
         self.instructions = instructions if type(instructions) is list else [instructions]
 
-- 
2.43.0


From 325a509b25dcb0c7c1a42e99a0e293973d983819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 29/55] fix: SolutionQuality sorts by score the candidates
 having very low scores

---
 semantic_codec/solution/solution_quality.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index f76ef45..6f3fda0 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -1,4 +1,3 @@
-import sys
 from math import log
 
 from semantic_codec.metadata.recuperator import probabilistic_rules
@@ -94,11 +93,8 @@ class SolutionQuality(object):
                 continue
             addr = self._original_program[k].address
             v = self._program[addr]
-            min_encoding = sys.maxsize
-            for inst in v:
-                if inst.encoding < min_encoding:
-                    min_encoding = inst.encoding
-            v.sort(key=lambda x: 0 if min_encoding == 0 else (x.score() * 1000000000 + min_encoding/ x.encoding), reverse=True)
+            # The lower encodings go first among the ones having equal score
+            v.sort(key=lambda x: (x.score(), -x.encoding), reverse=True)
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
-- 
2.43.0


From 4ace95d1a2605d09d121a913db638e3d090f8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 30/55] fix: immediates of computed jumps are not taken as
 their address

---
 semantic_codec/architecture/capstone_instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 1e32ed9..1a455fb 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_ROR_REG
+    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_ROR_REG, ARM_INS_MOV
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -183,7 +183,8 @@ class CAPSInstruction(Instruction):
         Jumping address for branching instructions
         """
         if self.is_branch:
-            if self._jumping_address is None:
+            # The immediates of other instructions (i.e. an addition or the offset of a load) are not addresses
+            if self._jumping_address is None and self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX, ARM_INS_MOV]:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
                         self._jumping_address = op.value.imm
-- 
2.43.0


From 124726f0a23346bfd5327aacebca483acc74b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 31/55] fix: block transfers write and read the registers of
 their list, and may branch

---
 .../architecture/capstone_instruction.py       | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 1a455fb..ea23ea0 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,11 +2,16 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_ROR_REG, ARM_INS_MOV
+    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_ROR_REG, ARM_INS_MOV, \
+    ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
 
+LOAD_MULTIPLE = [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB]
+STORE_MULTIPLE = [ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB]
+
+
 class CAPSInstruction(Instruction):
 
     def __init__(self, encoding, position):
@@ -96,6 +101,13 @@ class CAPSInstruction(Instruction):
             return self.registers_used()
         elif self.is_a('push'):
             return []
+        elif self.opcode_field in LOAD_MULTIPLE or self.opcode_field in STORE_MULTIPLE:
+            # The first register is the address, which only changes with write back
+            base, listed = self._operand_registers()[0], self._operand_registers()[1:]
+            result = listed if self.opcode_field in LOAD_MULTIPLE else []
+            if self._cap.writeback and base not in result:
+                result.insert(0, base)
+            return result
         else:
             return self.registers_used()[:1]
 
@@ -107,6 +119,10 @@ class CAPSInstruction(Instruction):
 
         if self.is_a('pop'):
             result = []
+        elif self.opcode_field in LOAD_MULTIPLE:
+            result = self.registers_used()[:1]
+        elif self.opcode_field in STORE_MULTIPLE:
+            result = self.registers_used()
         else:
             result = self.registers_used()[1:]
             # The first register is read as well when it is also one of the other operands
-- 
2.43.0


From e4404a12a90a4c608a613de1b04353b8148bc90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:28 +0000
Subject: [PATCH 32/55] fix: long multiplications and double loads write two
 registers

---
 .../architecture/capstone_instruction.py       | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index ea23ea0..d8aae34 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -3,13 +3,17 @@ import struct
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_ROR_REG, ARM_INS_MOV, \
-    ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB
+    ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB, \
+    ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL, ARM_INS_LDRD
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
 
 LOAD_MULTIPLE = [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB]
 STORE_MULTIPLE = [ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB]
+# These write their first two registers
+WRITES_TWO = [ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL, ARM_INS_LDRD]
+ACCUMULATES_TWO = [ARM_INS_UMLAL, ARM_INS_SMLAL]
 
 
 class CAPSInstruction(Instruction):
@@ -108,6 +112,8 @@ class CAPSInstruction(Instruction):
             if self._cap.writeback and base not in result:
                 result.insert(0, base)
             return result
+        elif self.opcode_field in WRITES_TWO:
+            return self.registers_used()[:2]
         else:
             return self.registers_used()[:1]
 
@@ -123,12 +129,12 @@ class CAPSInstruction(Instruction):
             result = self.registers_used()[:1]
         elif self.opcode_field in STORE_MULTIPLE:
             result = self.registers_used()
+        elif self.opcode_field in ACCUMULATES_TWO:
+            result = self.registers_used()
         else:
-            result = self.registers_used()[1:]
-            # The first register is read as well when it is also one of the other operands
-            first = self.registers_written()
-            if first and self._operand_registers().count(first[0]) > 1:
-                result.insert(0, first[0])
+            # The registers written are read as well when they are also one of the other operands
+            written, operands = self.registers_written(), self._operand_registers()
+            result = [r for r in self.registers_used() if r not in written or operands.count(r) > 1]
 
         if self.is_push_pop and not AReg.SP in result:
             result.append(AReg.SP)
-- 
2.43.0


From 0b0c88e6f08ccf9d3ff344122188b25fb256b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 33/55] fix: returns and computed jumps are not calls, the
 control does not come back

---
 semantic_codec/architecture/capstone_instruction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index d8aae34..4a95e65 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -185,6 +185,11 @@ class CAPSInstruction(Instruction):
         return self.opcode_field in [ARM_INS_B, ARM_INS_BX, ARM_INS_BL, ARM_INS_BLX] or \
                AReg.PC in self.registers_written()
 
+    @property
+    def is_branch_with_link(self):
+        # Other ways of branching use the bit of the link for something else
+        return self.opcode_field in [ARM_INS_BL, ARM_INS_BLX]
+
     @property
     def is_push_pop(self):
         return self._inst_is('push') or self._inst_is('pop')
-- 
2.43.0


From ba04a5e7a716d1be3f2c9ee677864158b951d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 34/55] fix: instructions modifying the flags are seen by the
 evidence of the control flow

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 5f5d97a..a8dea58 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -368,7 +368,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if not i.ignore:
                     ln_prev += 1
                     a = i.conditional_field == inst.conditional_field
-                    b = AReg.CPSR in i.registers_written()
+                    b = i.modifies_flags()
                     if a:
                         same_cond += 1
                     if b:
-- 
2.43.0


From 5505fbf8f8bdf8cefa94826f3f97651d2ee385cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 35/55] fix: discarded candidates do not count in the evidence
 of the others

---
 semantic_codec/metadata/recuperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index a8dea58..20cef0a 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -320,7 +320,7 @@ class ProbabilisticRecuperator(Recuperator):
         else:
             return None
 
-        p3 = 1 / len(self._program[addr])
+        p3 = 1 / len([i for i in self._program[addr] if not i.ignore])
         if reg_equals:
             p3 = self._model.push_given_pop_at_fn_end_equal_registers
         if p1 > 0:
@@ -406,7 +406,7 @@ class ProbabilisticRecuperator(Recuperator):
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
 
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
 
@@ -427,7 +427,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if after_same_cond > 0:
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
             elif after_same_cond > 0:
-- 
2.43.0


From 54adeb263b75a0751f696013cc7ed1ddfa69a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 36/55] fix: pops restoring the registers of the push of their
 function get its evidence

---
 semantic_codec/metadata/recuperator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 20cef0a..5cfd89f 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -233,10 +233,10 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
         return c / t if t > 0 else 0
 
-    def _op_prob_and_check_equal_registers(self, opcode, addr, push_reg_readed):
+    def _op_prob_and_check_equal_registers(self, opcode, addr, registers):
         """
         This method computes the probability of a instruction with a given opcode of existing in an address.
-        It also checks if it has the same registers than the ones given in push_reg_readed.
+        It also checks if it has the same registers than the ones given, read by a push or written by a pop.
         Is ONLY meant for being called from _compute_push_pop
         """
         reg_equals_inst = False
@@ -245,12 +245,15 @@ class ProbabilisticRecuperator(Recuperator):
             if not i.ignore:
                 t += 1
                 # Include the register information
-                # i.e. we are looking for a pop with equal registers
+                # i.e. we are looking for a pop (or a push) with equal registers
                 if i.is_a(opcode):
                     c += 1
                     if not reg_equals_inst:
                         a = True
-                        pop_reg_read = i.registers_written()
+                        if opcode == 'pop':
+                            push_reg_readed, pop_reg_read = registers, i.registers_written()
+                        else:
+                            push_reg_readed, pop_reg_read = i.registers_read(), registers
                         for r in pop_reg_read:
                             if not (r in push_reg_readed or r is AReg.PC):
                                 a = False
-- 
2.43.0


From d46c44ca20b2c1c75dc75d1626c9f5cdbabc76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 37/55] fix: the only candidate left of an address takes its
 occurrence wherever it is in the list

---
 .../metadata/probabilistic_rules/counting_rules.py     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index e7d51df..0c65905 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -27,10 +27,12 @@ class CountingRule(Rule):
         for instructions in self._program.values():
             len_inst = self.candidate_count(instructions)
             if len_inst == 1:
-                # Remove one of the available elements
-                if not instructions[0].ignore:
-                    for v in self._counting_field(instructions[0]):
-                        remaining[v] -= 1
+                # Remove one of the available elements: the one of the only valid candidate, wherever it is
+                for c in instructions:
+                    if not c.ignore:
+                        for v in self._counting_field(c):
+                            if v in remaining:
+                                remaining[v] -= 1
             else:
                 # Count the candidates to obtain that element
                 for c in instructions:
-- 
2.43.0


From 3283b17556ffd80e12cdd8f9f92ad6346b866895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 38/55] fix: every register written by an instruction counts in
 the distance rule

---
 .../metadata/probabilistic_rules/distance_rule.py          | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index da06ebe..e95bd41 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -114,12 +114,7 @@ class RegisterReadDistance(RegisterDistanceRule):
                     for w in prev_w:
                         if w in storages:
                             c_reg_score[w] += 1 / (len(prev_w) * self.candidate_count(prev_candidates))
-                    try:
-                        register_score[w] = max(register_score[w], c_reg_score[w])
-                    except UnboundLocalError:
-                        print("What??")
-                    except IndexError:
-                        print("W:"+str(w))
+                            register_score[w] = max(register_score[w], c_reg_score[w])
 
                 # Find the score of the candidate so far
                 s = 0
-- 
2.43.0


From ff14996637e4ffde462c9da299ff8f9f89b730be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 39/55] fix: the distance rule counts the distances as the
 metadata does

---
 semantic_codec/metadata/probabilistic_rules/distance_rule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index e95bd41..eab5a8b 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -91,8 +91,9 @@ class RegisterReadDistance(RegisterDistanceRule):
 
             # We are going backwards, so in fact prev_max is < than prev
             # Go backwards searching for registers writting to the registers we read_instructions from
-            prev_pos = position - INST_SIZE * min_d # Position of the first previous instruction
-            prev_pos_max = position - INST_SIZE * max_d # Position of the last previous instruction (going backwards)
+            # A distance of zero is the one of the instruction right before, as the collector counts them
+            prev_pos = position - INST_SIZE * (min_d + 1) # Position of the first previous instruction
+            prev_pos_max = position - INST_SIZE * (max_d + 1) # Position of the last previous instruction (going backwards)
             register_score = [EPSILON] * AReg.STORAGE_COUNT
 
             candidate_score = 0
-- 
2.43.0


From d6e412ec7f5441f47f95c25116be6a88480522ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 40/55] fix: listing instructions by their encodings gives them
 an address

---
 semantic_codec/architecture/capstone_instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 4a95e65..3eecc67 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -235,7 +235,7 @@ class CAPSInstruction(Instruction):
     def encodings_to_inst(encodings, return_undefined=False):
         result = []
         for e in encodings:
-            d = CAPSInstruction(e)
+            d = CAPSInstruction(e, 0)
             if not d.is_undefined or return_undefined:
                 result.append(d)
         return result
-- 
2.43.0


From d6187c92a3823443f6d4be1b4dae41b53266ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 41/55] fix: graphs in dot format can be read with the pydot
 that returns them in a list

---
 libs/dot/dotio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index fbd31bd..1b11fd7 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -54,7 +54,7 @@ def read(string):
     @return: Graph
     """
 
-    dotG = pydot.graph_from_dot_data(string)
+    dotG = pydot.graph_from_dot_data(string)[0]
 
     if (dotG.get_type() == "graph"):
         G = graph()
@@ -185,7 +185,7 @@ def read_hypergraph(string):
     @return: Hypergraph
     """
     hgr = hypergraph()
-    dotG = pydot.graph_from_dot_data(string)
+    dotG = pydot.graph_from_dot_data(string)[0]
 
     # Read the hypernode nodes...
     # Note 1: We need to assume that all of the nodes are listed since we need to know if they
-- 
2.43.0


From 9ab959de27a9bcbea9f1255c77930b9949e6db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 42/55] fix: edges between nodes with dashes in their names are
 all written in dot

---
 libs/dot/dotio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index 1b11fd7..04b2764 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -145,10 +145,10 @@ def write(G, weighted=False):
     #  our own set to keep track of what's been added or not.
     seen_edges = set([])
     for edge_from, edge_to in G.edges():
-        if (str(edge_from) + "-" + str(edge_to)) in seen_edges:
+        if (str(edge_from), str(edge_to)) in seen_edges:
             continue
 
-        if (not directed) and (str(edge_to) + "-" + str(edge_from)) in seen_edges:
+        if (not directed) and (str(edge_to), str(edge_from)) in seen_edges:
             continue
 
         attr_list = {}
@@ -168,7 +168,7 @@ def write(G, weighted=False):
 
         dotG.add_edge(newEdge)
 
-        seen_edges.add(str(edge_from) + "-" + str(edge_to))
+        seen_edges.add((str(edge_from), str(edge_to)))
 
     return dotG.to_string()
 
-- 
2.43.0


From 0e7baf614027ca703e25c2bd7c530712f94226d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 43/55] fix: the 2D interleaving of clusters repeated packets
 in near cells

---
 semantic_codec/interleaver/interleaver2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index 7749a4c..db4593b 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -159,7 +159,7 @@ def build_2d_interleave_matrix_blaum(message_size, packet_size, data_width=-1, d
     m = round(message_size / packet_size)
     b = round(sqrt(2 * m - 1))
 
-    return [[int(abs(fmod(x - y * b, m))) for x in range(data_width)] for y in range(data_height)]
+    return [[(x - y * b) % m for x in range(data_width)] for y in range(data_height)]
 
 
 def interleave(data, interleave_order, word_size=8):
-- 
2.43.0


From dca3e66fb56b450b0628b4b9a350ad1720e6c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 44/55] fix: functions without instructions were taken as one
 at address 0

---
 semantic_codec/metadata/probabilistic_rules/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/rules.py b/semantic_codec/metadata/probabilistic_rules/rules.py
index adbe6a9..7fa4102 100644
--- a/semantic_codec/metadata/probabilistic_rules/rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/rules.py
@@ -29,7 +29,9 @@ def from_functions_to_list_and_addr(functions):
     fns = {}
 
     for f in functions:
-        fns[f.start_addr()] = (f.start_addr(), f.final_addr())
+        # Symbols out of the code are functions without instructions, and have no address
+        if f.instructions:
+            fns[f.start_addr()] = (f.start_addr(), f.final_addr())
         for inst in f.instructions:
             result.append(inst)
 
-- 
2.43.0


From fe1aa9e14c97c59bd6710f0cf33902604920c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 45/55] fix: programs whose last packet is not complete could
 not be stored

---
 store_packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store_packets.py b/store_packets.py
index a9a7b76..01eb742 100644
--- a/store_packets.py
+++ b/store_packets.py
@@ -42,7 +42,8 @@ if __name__ == '__main__':
     # Interleave the file using the SP algorithm
     bits_per_interlave = 2
     packet_size = 16
-    packet_count = len(original_program) * 4 / packet_size  # <- Total bytes in data divided by packet_size
+    # Total bytes in data divided by packet_size, the last packet may be incomplete
+    packet_count = (len(original_program) * 4 + packet_size - 1) // packet_size
 
     # Build the 2D interleave order
     m = build_2d_interleave_sp(packet_count, flat=True)
-- 
2.43.0


From e66be4f0ddb20978c772ecc03f950f1103193fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 46/55] fix: jumps to addresses from 2 GB on had a negative
 address

---
 semantic_codec/architecture/capstone_instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 3eecc67..97d28d1 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -214,7 +214,8 @@ class CAPSInstruction(Instruction):
             if self._jumping_address is None and self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX, ARM_INS_MOV]:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
-                        self._jumping_address = op.value.imm
+                        # Capstone gives it signed, while the addresses are not
+                        self._jumping_address = op.value.imm & 0xffffffff
                         break
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
-- 
2.43.0


From 7892fbc49e98237a917d032b0c1b4af205b4d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 47/55] fix: the constraints left do not depend on which
 candidate reads as the original

---
 semantic_codec/solution/solution_builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index 7f60919..72cbda6 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -197,7 +197,8 @@ class AbstractForwardConstraintSolutionBuilder(object):
 
             if self._forward_update:
                 # Update the constrains now that we have updated the solution
-                self._update_constraints(pa[index])
+                # The candidate that reads as the original may be another one, even discarded
+                self._update_constraints(ori)
                 # With the constrains updated, remove all instructions which are invalid
                 self._remove_invalid_instructions(addresses)
 
-- 
2.43.0


From a323f3ee13c84b66fb4f35d62a2353704ed990c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 48/55] fix: the distance rule also scores the registers of the
 coprocessors

---
 .../metadata/probabilistic_rules/distance_rule.py     | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index eab5a8b..3b8d6e4 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -1,6 +1,6 @@
 import sys
+from collections import defaultdict
 
-from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.arm_instruction import ARMInstruction
 from semantic_codec.metadata.probabilistic_rules.rules import Rule
 
@@ -94,7 +94,7 @@ class RegisterReadDistance(RegisterDistanceRule):
             # A distance of zero is the one of the instruction right before, as the collector counts them
             prev_pos = position - INST_SIZE * (min_d + 1) # Position of the first previous instruction
             prev_pos_max = position - INST_SIZE * (max_d + 1) # Position of the last previous instruction (going backwards)
-            register_score = [EPSILON] * AReg.STORAGE_COUNT
+            register_score = defaultdict(lambda: EPSILON)
 
             candidate_score = 0
 
@@ -109,7 +109,7 @@ class RegisterReadDistance(RegisterDistanceRule):
                         # Can't analyze undefined instructions
                         continue
 
-                    c_reg_score = [EPSILON] * AReg.STORAGE_COUNT
+                    c_reg_score = defaultdict(lambda: EPSILON)
                     prev_w = prev_c.storages_written()
                     # Find the score this previous candidate contributes to the candidate being evaluated
                     for w in prev_w:
@@ -120,10 +120,7 @@ class RegisterReadDistance(RegisterDistanceRule):
                 # Find the score of the candidate so far
                 s = 0
                 for r in storages:
-                    try:
-                        s += register_score[r]
-                    except IndexError:
-                        print("R:"+str(r))
+                    s += register_score[r]
 
                 candidate_score = max(s / len(storages), candidate_score)
 
-- 
2.43.0


From 06ad372797e920dc29262663a6630c0f0f925344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 49/55] fix: the distances of the registers of the coprocessors
 are collected too

---
 semantic_codec/metadata/metadata_collector.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/semantic_codec/metadata/metadata_collector.py b/semantic_codec/metadata/metadata_collector.py
index 6222733..27dfe37 100644
--- a/semantic_codec/metadata/metadata_collector.py
+++ b/semantic_codec/metadata/metadata_collector.py
@@ -1,4 +1,4 @@
-from semantic_codec.architecture.arm_constants import AReg
+from collections import defaultdict
 
 
 def _inc_key(d, key):
@@ -60,8 +60,8 @@ class MetadataCollector(object):
         # Lazy me
         encodings = []
 
-        dist = [0] * (AReg.STORAGE_COUNT + 1)
-        defined = [False] * (AReg.STORAGE_COUNT + 1)
+        dist = defaultdict(int)
+        defined = defaultdict(bool)
         storage_mean_dist = {}
 
         for inst in instructions:
@@ -75,7 +75,7 @@ class MetadataCollector(object):
             _inc_keys(self._storage_count, inst.storages_used())
 
             read = inst.storages_read()
-            for s in range(0, AReg.STORAGE_COUNT):
+            for s in defined:
                 if defined[s]:
                     if s in read:
                         if s not in storage_mean_dist:
@@ -98,11 +98,8 @@ class MetadataCollector(object):
 
             # Count the distances between write and read_instructions of storages
             for s in inst.storages_written():
-                try:
-                    defined[s] = True
-                    dist[s] = 0
-                except IndexError:
-                    print('[ERROR]: Uknown storage when collecting metadata: R{}'.format(s))
+                defined[s] = True
+                dist[s] = 0
 
         # Compute the mean distance between a register being read_instructions and a register being written
         for k in storage_mean_dist:
-- 
2.43.0


From eda9115d13d194d4398d1d3a505e557b9fb7c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 50/55] fix: the dominators of a graph may be computed again

---
 semantic_codec/static_analysis/dominators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index c1d5bfd..cca78fa 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -24,6 +24,14 @@ def build_dominator_tree(graph, root):
     Builds the Lengauer Tarjan dominator tree algorithm
     """
     # Initialization
+    # The dominators may have been computed before, when the graph was another one
+    for n in graph:
+        n.dom_idx = -1
+        n.dom_parent = n.dom_ancestor = n.idom = None
+        n.dom_semi = n
+        n.dom_bucket, n.dom_successors, n.dom_frontier = [], [], []
+        n.predecessors, n.successors = [], []
+
     vertex = dominator_tree_dfs(graph, root, [])
 
     # The nodes that cannot be reached from the root do not take part in the dominance
-- 
2.43.0


From 26cbfb250d5d125bd4afeb125fbb805a83de3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 51/55] fix: the SSA form of a graph may be built again

---
 semantic_codec/static_analysis/ssa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index fb5c808..6f04289 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -108,6 +108,12 @@ class SSAFormBuilder(object):
         self._instructions = instructions
 
     def build(self):
+        # Forget the SSA form that the nodes, or the instructions, may have already
+        for n in self._graph:
+            n.phi_functions = {}
+            for inst in n.instructions:
+                inst.ssa_read.clear()
+                inst.ssa_written.clear()
         # Compute the Dominators tree
         build_dominator_tree(self._graph, self._root)
         # Compute dominance frontiers
-- 
2.43.0


From 43213c2dee8b3ef2a0ac401a1ea65d4b2c094cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 52/55] fix: losing packets that carry no data damages nothing
 instead of failing

---
 semantic_codec/corruption/corruptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 297dc0f..5f226a6 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -85,7 +85,7 @@ class PacketCorruptor(Corruptor):
         errors.sort(key=lambda x: x[0] * vv + x[1])
 
         # Corrupt the program
-        k, tuples, e = 0, [], errors[0]
+        k, tuples, e = 0, [], errors[0] if errors else (0, 0)
         current = e[0]
 
         # Create a nice progress bar. TODO: Factor this out so other widgets can be used as well.
-- 
2.43.0


From b898951aca5f438fdceed7431cbfa6b7b6c36987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 53/55] fix: jumps where the function is not known have
 evidence, without or with only some functions given

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 5cfd89f..705570d 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -519,7 +519,7 @@ class ProbabilisticRecuperator(Recuperator):
             # therefore the jmp_address will be unknown
             inst.scores_by_rule['pbd'] = self._model.just_any_jump_is_valid * 2
         # Award high prob to addresses inside this method or to the begin of other methods
-        elif jmp_addr >= current_fn and jmp_addr <= self._functions[current_fn][1]:
+        elif current_fn in self._functions and current_fn <= jmp_addr <= self._functions[current_fn][1]:
             inst.scores_by_rule['pbd'] = self._model.branch_to_this_method
         # Award medium-high prob to a branch to the start of other method
         elif jmp_addr in self._functions:
-- 
2.43.0


From 1120a3b96bb32b61ea0f00586dd49dd0f205dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 54/55] fix: the recovery by rules uses the probabilistic model
 it is given

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 705570d..05635b7 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -34,7 +34,7 @@ class Recuperator(object):
 
     def _recover(self, progress_bar):
         for i in range(0, self.passes):
-            rules = [ControlFlowBehavior(self._program),
+            rules = [ControlFlowBehavior(self._program, model=self._model),
                      ConditionalCount(self._program, collector=self._collector),
                      InstructionCount(self._program, collector=self._collector),
                      RegisterCount(self._program, collector=self._collector),
-- 
2.43.0


From 6ac5aea11e0a6b84664cc910c195d1ac59f2a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 55/55] fix: the constraint problem of a program of a single
 address can be solved

---
 semantic_codec/solution/solution_builders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index 72cbda6..bb54c9f 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -74,6 +74,10 @@ class ExactFieldSumConstraint(Constraint):
                     return False
         return True
 
+    def preProcess(self, variables, domains, constraints, vconstraints):
+        # The library cannot do it for a single variable, which is judged when it is assigned like any others
+        pass
+
 
 class ProblemBuilder(object):
     def build(self, program, metadata):
-- 
2.43.0

