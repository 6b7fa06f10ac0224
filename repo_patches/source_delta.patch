From 40e4caa8bd666a71bad5b94b7b8e73e2ab478b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:06 +0000
Subject: [PATCH 01/48] fix: report overflow of integer exponentiation instead
 of wrapping around

---
 simulator/virtual_stack.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..d86cdcb 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -273,16 +273,24 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 
 //
 // Iterative function to calculate integer pow(x, n).
+// Throw exception in case the result does not fit into integer.
 //
 static int power(int x, unsigned n)
 {
-    int result = 1;
+    const int64_t limit = BITS(26);
+    int64_t result      = 1;
+    int64_t factor      = x;
     while (n) {
         if (n & 1) {
-            result *= x;
+            result *= factor;
         }
         n = n >> 1;
-        x *= x;
+        if (n) {
+            factor *= factor;
+        }
+        if (result > limit || result < -limit || factor > limit) {
+            throw std::runtime_error("Overflow in integer arithmetic");
+        }
     }
     return result;
 }
-- 
2.43.0


From 7bad5ea04848204702671b1796808d986ccc3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:28 +0000
Subject: [PATCH 02/48] fix: report overflow when a real power exceeds the
 native floating-point range

---
 simulator/x1_arch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..1fb1c23 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -31,6 +31,10 @@ Real x1_words_to_real(Word hi, Word lo)
 //
 Real ieee_to_x1(long double input)
 {
+    if (!std::isfinite(input)) {
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
+
     const bool negate_flag = std::signbit(input);
     if (negate_flag) {
         input = -input;
-- 
2.43.0


From 49a4132fd42f24389acd1e06a93f2d84369875d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 03/48] fix: report overflow when a real value too large for an
 integer is converted

---
 simulator/opcodes.cpp   |  4 ++--
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 13 +++++++++++++
 simulator/x1_arch.h     |  5 +++++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..71a4516 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -535,7 +535,7 @@ bool Processor::call_opc(unsigned opc)
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+                                                 : ieee_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
@@ -976,7 +976,7 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(integer_to_x1(ieee_to_integer(x1_to_ieee(load_real(actual + 2 * i)))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..26a54b1 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -531,7 +531,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = integer_to_x1(ieee_to_integer(x1_to_ieee(src.get_real())));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 1fb1c23..d076c43 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -129,6 +129,19 @@ Word integer_to_x1(int input)
     return result;
 }
 
+//
+// Round a floating-point value to the nearest integer.
+// Throw exception when it does not fit into X1 integer format.
+//
+int ieee_to_integer(long double input)
+{
+    auto const result = roundl(input);
+    if (fabsl(result) > BITS(26)) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return (int)result;
+}
+
 int x1_to_integer(Word input)
 {
     if (input & ONEBIT(26)) {
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..abd1a0c 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -58,6 +58,11 @@ long double x1_to_ieee(Real word);
 Word integer_to_x1(int d);
 int x1_to_integer(Word word);
 
+//
+// Round a floating-point value to the nearest integer.
+//
+int ieee_to_integer(long double d);
+
 //
 // Print X1 word.
 //
-- 
2.43.0


From e34f933a5ec2c6ff92a6fbd1ab83b0737a0b5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 04/48] fix: keep 20 bits of the frame pointer in formal
 parameter descriptors

---
 simulator/processor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 26a54b1..7b80be2 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -376,7 +376,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     // the block in which the corresponding procedure statement is given." (E.W.Dijkstra)
     //
     auto parent_level   = get_block_level();
-    auto parent_display = parent_level << 15 | frame_ptr;
+    auto parent_display = parent_level << 20 | frame_ptr;
 
     for (unsigned i = 0; i < num_args; i++) {
         // Allocate formal parameters: two cells per parameter.
@@ -512,8 +512,8 @@ void Processor::get_arg_display(unsigned const dynamic_addr, unsigned &block_lev
     auto const addr           = address_in_stack(dynamic_addr);
     auto const formal_display = stack.get(addr + 1).get_int();
 
-    block_level  = formal_display >> 15;
-    prev_display = formal_display & BITS(15);
+    block_level  = formal_display >> 20;
+    prev_display = formal_display & BITS(20);
 }
 
 //
-- 
2.43.0


From fd7bd12577e617cc3e9d7da8b7af749d77642f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 05/48] fix: apply the stack size limit to every push

---
 simulator/virtual_stack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index d86cdcb..a555559 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -551,6 +551,9 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
+    if (storage.size() >= SIZE_LIMIT) {
+        throw std::runtime_error("Stack overflow");
+    }
     storage.push_back({});
     auto &item = storage.back();
     item.type  = type;
-- 
2.43.0


From 696f489d993718661a00fa439d53a9d9ef2b619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 06/48] fix: do not fall from round shift into clear shift

---
 simulator/processor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 7b80be2..d04d32c 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -278,6 +278,7 @@ bool Processor::step()
             core.L = core.S & ONEBIT(26);
             break;
         }
+        break;
     }
 
     case 077'00: {
-- 
2.43.0


From 47e0f1c4c2d89c4c1d3b3fc5e7b185ffd841e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 07/48] fix: do not reserve the same local variables again in a
 later declaration

---
 compiler/x1algc.c    | 1 +
 compiler/x1algol.pas | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6696895..78b1f9e 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1485,6 +1485,7 @@ Local Void reservation_of_local_variables()
     fill_result_list(0, lvc + 4718592); /*4A 17X1*/
     fill_result_list(0, 8388657);       /*4A 18X1*/
     fill_result_list(0, 8388658);
+    lvc = 0; /*reserved: not to be counted again*/
 } /*reservation_of_local_variables*/
 
 Local Void address_to_register()
diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index c9c7d0f..56c74b3 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -802,7 +802,8 @@ procedure main_scan;                                               {EL}
   begin if lvc > 0
     then begin fill_result_list(0,4718592+lvc) {2A 'lvc' A};
            fill_result_list(0,8388657) {4A 17X1};
-           fill_result_list(0,8388658) {4A 18X1}
+           fill_result_list(0,8388658) {4A 18X1};
+           lvc:= 0 {reserved: not to be counted again}
          end
   end {reservation_of_local_variables};
 
-- 
2.43.0


From 850fe7f0b09eea5c4e15f2cbb8a5eb99e9b5abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:12 +0000
Subject: [PATCH 08/48] fix: reject a real literal below the range of reals
 instead of wrapping its exponent

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 78b1f9e..1753dd0 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -663,6 +663,8 @@ _L3: /*float*/
             bexp++;
         }
     }
+    if (bexp < 0)
+        stop(4, "Real too small");
     if (bexp > 4095)
         stop(4, "Real too large");
     inw   = inw / 4096 * 4096 + bexp;
-- 
2.43.0


From cfb215453d5b4d04af7487b8738373561cdf8ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 09/48] fix: drop the operands left on the stack by a goto out
 of a function

---
 simulator/processor.cpp | 26 ++++++++++++++------------
 simulator/processor.h   |  4 ++++
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index d04d32c..9b4984b 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -386,6 +386,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     }
     frame_ptr  = new_frame_ptr;
     stack_base = stack.count();
+    frames.push_back(frame_ptr);
 
     // Default post-operation is to leave value on stack.
     eis_operation[stack_base] = Formal_Op::PUSH_VALUE;
@@ -401,6 +402,9 @@ unsigned Processor::frame_release()
     if (frame_ptr >= stack.count()) {
         throw std::runtime_error("No frame stack to release");
     }
+    while (!frames.empty() && frames.back() >= frame_ptr) {
+        frames.pop_back();
+    }
     auto new_stack_ptr = frame_ptr;
     auto ret_addr      = stack.get(frame_ptr + Frame_Offset::PC).get_addr();
     stack_base         = stack.get(frame_ptr + Frame_Offset::SP).get_addr();
@@ -427,21 +431,19 @@ void Processor::allocate_stack(unsigned nwords)
 
 //
 // Roll stack back to the 'goto' frame.
+// Everything above the base of that frame is dropped, including operands
+// of expressions which were left unfinished by the goto.
 //
 void Processor::roll_back(unsigned goto_frame)
 {
-    unsigned fp = frame_ptr;
-    while (fp > 0) {
-        unsigned prev_fp = stack.get(fp + Frame_Offset::FP).get_addr();
-        if (prev_fp == goto_frame) {
-            frame_ptr = fp;
-            frame_release();
-            stack.pop();
-            return;
-        }
-        fp = prev_fp;
-    }
-    throw std::runtime_error("Cannot find goto frame");
+    // Find the frame which was entered directly from the 'goto' frame.
+    auto const callee = std::upper_bound(frames.begin(), frames.end(), goto_frame);
+    if (callee == frames.end()) {
+        throw std::runtime_error("Cannot find goto frame");
+    }
+    frame_ptr = *callee;
+    frame_release();
+    stack.erase(stack_base);
 }
 
 //
diff --git a/simulator/processor.h b/simulator/processor.h
index 4bbba6f..94d16a8 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include "virtual_stack.h"
 #include "x1_arch.h"
@@ -80,6 +81,9 @@ private:
     unsigned frame_ptr{};
     unsigned last_frame_ptr{};
 
+    // Pointers to all active frames, in order of creation.
+    std::vector<unsigned> frames;
+
     // Base of stack in current block.
     unsigned stack_base{};
 
-- 
2.43.0


From beb98585dc6ff613c5cd569bbfeddcee433c03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:53 +0000
Subject: [PATCH 10/48] fix: do not take a constant argument for a standard
 function after a call of one

---
 compiler/x1algc.c    | 2 +-
 compiler/x1algol.pas | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 1753dd0..23e002f 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2142,7 +2142,7 @@ _L8702:
         if (aflag == 0) {
             if (store[tlsc - 2] == rlsc && (fflag == 0 || pass_formals) &&
                 jflag == 0 && nflag == 1) {
-                if (nid > nlscop) {
+                if (nid > nlscop || kflag == 1) { /*not a standard function*/
                     if (pflag == 1 && fflag == 0) /*non-formal procedure:*/
                         test_first_occurrence();
                     /*PORD construction:*/
diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index 56c74b3..9bcdc45 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -1200,7 +1200,7 @@ begin {body of main scan}                                          {EL}
       then if aflag = 0
            then if (store[tlsc-2] = rlsc)
                    and (fflag = 0) and (jflag = 0) and (nflag = 1)
-                then begin if nid > nlscop
+                then begin if (nid > nlscop) or (kflag = 1)
                        then begin if (pflag = 1) and (fflag = 0)
                               then {non-formal procedure:}
                                    test_first_occurrence;
-- 
2.43.0


From ac14c22cda954dc2f23448b643f7a32b6a0fa114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 11/48] fix: call a formal procedure in the context in which it
 was passed, also through another formal

---
 simulator/processor.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 9b4984b..e42535a 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -586,16 +586,27 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
 
 //
 // Get address of procedure parameter at dynamic address.
+// Restore display[] of the context in which the procedure was given as parameter.
 //
 unsigned Processor::get_formal_proc(unsigned dynamic_addr)
 {
-    unsigned const arg_descr = arg_descriptor(dynamic_addr);
-    unsigned const arg_addr  = arg_descr & BITS(15);
-    switch (arg_descr >> 15 & 077) {
-    case 040:
-        return arg_addr;
-    default:
-        throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
+    for (;;) {
+        unsigned const arg_descr = arg_descriptor(dynamic_addr);
+        unsigned const arg_addr  = arg_descr & BITS(15);
+        unsigned arg_level, arg_frame;
+        get_arg_display(dynamic_addr, arg_level, arg_frame);
+        update_display(arg_level, arg_frame);
+        switch (arg_descr >> 15 & 077) {
+        case 006:
+            // Indirection: argument point to another argument in parent's frame.
+            dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+            break;
+        case 040:
+            return arg_addr;
+        default:
+            throw std::runtime_error("Unknown descriptor of formal procedure: " +
+                                     to_octal(arg_descr));
+        }
     }
 }
 
-- 
2.43.0


From db43f7ce31a0189cf167ba76b18d7d199cc23778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:39 +0000
Subject: [PATCH 12/48] fix: compute array element addresses exactly, also for
 large subscripts and bounds

---
 simulator/opcodes.cpp   | 23 ++++++++++++-----------
 simulator/processor.cpp | 23 ++++++++++++++++++++---
 simulator/processor.h   |  1 +
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 71a4516..46973e6 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -524,23 +524,25 @@ bool Processor::call_opc(unsigned opc)
         // 2+ndim: number of words in the array, negated
         unsigned addr = storage_fn.get_addr();
         int location  = x1_to_integer(load_word(addr));
-        int base      = load_word(addr + 1);
+        int base      = location + storage_offset(load_word(addr + 1) - location);
         int limit     = x1_to_integer(load_word(addr + 2 + ndim));
         // The limit must look like a negative number with a reasonable absolute value.
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
-        int idx0     = 0; // for the error message
+        int64_t elt_addr = base;
+        int idx0         = 0; // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
-            int dimsize = x1_to_integer(load_word(addr + 2 + i));
-            int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : ieee_to_integer(x1_to_ieee(idxs[i].get_real()));
+            int64_t dimsize = x1_to_integer(load_word(addr + 2 + i));
+            if (dimsize <= 0) {
+                throw std::runtime_error("A wrong number of indexes for an array");
+            }
+            int idx = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
+                                             : ieee_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
         if (elt_addr < location || elt_addr + limit >= location) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
@@ -927,8 +929,8 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        // Offset of the indexing base, taken with its sign.
+        int offset = -storage_offset(stack.get(storage_fn + 1).get_addr() - actual);
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -964,8 +966,7 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
-        offset     = offset * mul / div;
+        offset = offset * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
             switch (elt_size) {
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index e42535a..7778620 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -891,6 +891,17 @@ void Processor::update_display(unsigned level, unsigned fp)
     }
 }
 
+//
+// Offset of the element with all indexes zero from the first element of an array,
+// given as difference of two addresses from the storage function.
+// The compiler computes it modulo 2^26, while for dynamic arrays it is modulo 2^27.
+//
+int Processor::storage_offset(unsigned diff)
+{
+    diff &= BITS(26);
+    return (diff & ONEBIT(25)) ? (int)diff - (int)ONEBIT(26) : (int)diff;
+}
+
 void Processor::make_storage_function_frame(int elt_size)
 {
     int nitems = core.S;
@@ -908,12 +919,18 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
         stack.push_int_value(stride);
         offset += stride * dims[i].first;
-        stride *= (dims[i].second - dims[i].first + 1);
+        stride *= ((int64_t)dims[i].second - dims[i].first + 1);
+        if (stride <= 0) {
+            throw std::runtime_error("Upper bound of an array is less than the lower bound");
+        }
+        if (stride > (int64_t)BITS(20) || std::abs(offset) > (int64_t)BITS(25)) {
+            throw std::runtime_error("Array bounds are too large");
+        }
     }
     stack.set_int_value(zero_base, integer_to_x1(offset));
     stack.push_int_value(integer_to_x1(-stride));
diff --git a/simulator/processor.h b/simulator/processor.h
index 94d16a8..a5ef8a9 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -195,6 +195,7 @@ private:
     void set_display(unsigned block_level, unsigned value);
 
     // Helper methods for dynamic arrays.
+    static int storage_offset(unsigned diff);
     void make_storage_function_frame(int elt_size);
     void make_value_array_function_frame(int elt_size);
     Word load_word(unsigned addr);
-- 
2.43.0


From 24c441c4c90d3f1c4149ebd50e4d6cf6fa2c86c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:09 +0000
Subject: [PATCH 13/48] fix: refuse programs whose variables do not fit in the
 memory below the program

---
 compiler/x1algc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 23e002f..d0a7434 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -130,6 +130,7 @@ Static int opc_table[113];
 Static int alnum_table[64];
 
 Static int rlib, mcpe;
+Static long long aoff; /*offset of the array element with all indexes zero*/
 
 Static FILE *source_tape;
 Static FILE *lib_tape;
@@ -2609,6 +2610,7 @@ _L1102: /*static bounds, constants only:*/
             fill_name_list(); /*[*/
         } while (dl != 100);
         arrc = 0;
+        aoff = 0;
         fill_t_list(2 - ibd); /*delta[0]*/
         do {                  /*read bound-pair list:*/
             /*lower bound:*/
@@ -2623,6 +2625,9 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw;
+            aoff += (long long)arrd * store[tlsc - 1];
+            if (llabs(aoff) >= d25)
+                stop(26, "Array bounds too large");
             arrc = (arrc - arrd * store[tlsc - 1]) & (d26 - 1);
             /*upper bound:*/
             read_until_next_delimiter();
@@ -2636,6 +2641,8 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw - arrd;
+            if ((arrd + 1LL) * store[tlsc - 1] > klie)
+                stop(26, "Array too large");
             if (dl == 101) /*[*/
                 fill_t_list(-(((arrd + 1) * store[tlsc - 1]) & (d26 - 1)));
             else
@@ -2653,6 +2660,8 @@ _L1102: /*static bounds, constants only:*/
                 tlsc++;
             } while (store[tlsc - 1] > 0);
             gvc -= store[tlsc - 1];
+            if (gvc > klie)
+                stop(26, "No room for arrays");
             tlsc = arrb;
             if ((store[nlib + arrd - 2] & (d3 - 1)) == 0)
                 arrd -= 2;
@@ -3303,6 +3312,8 @@ Static Void program_loader()
         }
         V.ll = read_crf_item(&V);
     }
+    if (gvc > mcpe)
+        stop(26, "No room for variables");
     /*load result list RLI:*/
     V.ll            = rlsc;
     V.read_location = rnsb;
-- 
2.43.0


From f428870849742e0a359e27e0170fe4de509499c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:16 +0000
Subject: [PATCH 14/48] fix: stop when the translation list overflows instead
 of overwriting the object program

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index d0a7434..dd1aba5 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -677,6 +677,8 @@ _L5:;
 
 Static Void fill_t_list(int n)
 {
+    if (tlsc >= mcpb)
+        stop(27, "Too deeply nested");
     store[tlsc] = n;
     tlsc++;
 } /*fill_t_list*/
-- 
2.43.0


From 5d835732e1d7bdc9c862be042b14fee6ebd39229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:41 +0000
Subject: [PATCH 15/48] fix: give variables declared after a procedure their
 own place in the block

---
 compiler/x1algc.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index dd1aba5..36cac2a 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -130,6 +130,9 @@ Static int opc_table[113];
 Static int alnum_table[64];
 
 Static int rlib, mcpe;
+/* State of declarations, by block number: value of pnlv outside of a procedure,
+   and whether the arrays of the block have already been positioned on the stack */
+Static int decl_pnlv[mcpb - tlib], decl_done[mcpb - tlib];
 Static long long aoff; /*offset of the array element with all indexes zero*/
 
 Static FILE *source_tape;
@@ -1450,6 +1453,7 @@ Local Void new_block_by_declaration1()
     fill_result_list(89, 0);
     pnlv = bn + 160;
     vlam = pnlv;
+    decl_done[bn] = 0;
 } /*new_block_by_declaration1*/
 
 Local Void new_block_by_declaration()
@@ -1568,6 +1572,7 @@ Local Void reservation_of_arrays()
                 address_to_register();
                 fill_result_list(94, 0);
             }
+            decl_done[bn] = 1;
         }
         if ((store[rlab - 2] & (d3 - 1)) == 0)
             rlab -= 2;
@@ -1578,6 +1583,16 @@ Local Void reservation_of_arrays()
         id = store[nlib + nid];
 } /*reservation_of_arrays*/
 
+Local Void end_of_block()
+{
+    if (decl_pnlv[bn] != 0) {
+        /*end of procedure: more declarations may follow*/
+        pnlv          = decl_pnlv[bn];
+        decl_pnlv[bn] = 0;
+    }
+    bn--;
+} /*end_of_block*/
+
 Local Void procedure_statement(struct LOC_main_scan *LINK)
 {
     /*LH*/
@@ -2064,7 +2079,7 @@ _L8401:
         nlsc = store[tlsc + 1];
         fill_future_list(flib + store[tlsc], rlsc + 1); /*RET*/
         fill_result_list(12, 0);
-        bn--;
+        end_of_block();
         goto _L8401;
     }
     /*2T 'flsc'*/
@@ -2472,7 +2487,7 @@ _L105: /*end*/
             nlsc = store[tlsc + 1];
             fill_future_list(flib + store[tlsc], rlsc + 1); /*RET*/
             fill_result_list(12, 0);
-            bn--;
+            end_of_block();
             goto _L105;
         }
     } else {
@@ -2552,6 +2567,8 @@ _L1082: /*static addressing*/
     }
     goto _L1;
 _L1083: /*dynamic addressing*/
+    if (decl_done[bn])
+        stop(28, "Variables must be declared before procedures and switches");
     id = pnlv + d15;
     if (ibd == 1) {
         id += d19;
@@ -2674,9 +2691,12 @@ _L1102: /*static bounds, constants only:*/
     } while (dl == 87);
     goto _L91; /*;*/
 _L1103:        /*dynamic bounds,arithmetic expressions:*/
-    ic  = 0;
-    aic = 0;
-    id  = 0;
+    if (decl_done[bn])
+        stop(28, "Arrays must be declared before procedures and switches");
+    vlam = pnlv;
+    ic   = 0;
+    aic  = 0;
+    id   = 0;
     do {
         aic++;
         read_until_next_delimiter();
@@ -2704,6 +2724,7 @@ _L112: /*procedure*/
     look_for_name();
     label_declaration();
     intro_new_block();
+    decl_pnlv[bn] = pnlv;
     new_block_by_declaration1();
     if (dl == 91) /*;*/
         goto _L1;
-- 
2.43.0


From b6fb4c794faac67a7227e1dbf8ccc2e0e4538dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:21 +0000
Subject: [PATCH 16/48] fix: print the zeros after the decimal point in FIXT
 and ABSFIXT without integer part

---
 simulator/machine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..18d7536 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -476,7 +476,7 @@ void Machine::print_fixed_point(std::ostream &out, int n, int m, long double x0,
         assert(digit >= 0 && digit <= 9);
         x -= digit;
 
-        if (count + 1 == n) {
+        if (count + 1 >= n) {
             suppress_zeroes = false;
         }
         if (count == n && m > 0) {
-- 
2.43.0


From 18ef92b83f1f07d69771fd33b177a5b42c8a9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 17/48] fix: decide whether the exponent fits the FLOT layout
 after rounding, and allow two digits for m = 2

---
 simulator/machine.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 18d7536..a891244 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -528,6 +528,19 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     }
 
     int exponent = (x == 0) ? 0 : 1 + floor(log10l(x));
+
+    // Scale to range [0, 1).
+    if (exponent != 0) {
+        x /= powl(10.0, exponent);
+    }
+
+    // Round.
+    x += 0.5 / powl(10.0, n);
+    if (x >= 1) {
+        x /= 10;
+        exponent++;
+    }
+
     switch (m) {
     case 1:
         if (exponent > 9 || exponent < -9) {
@@ -535,7 +548,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
@@ -544,18 +557,6 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         break;
     }
 
-    // Scale to range [0, 1).
-    if (exponent != 0) {
-        x /= powl(10.0, exponent);
-    }
-
-    // Round.
-    x += 0.5 / powl(10.0, n);
-    if (x >= 1) {
-        x /= 10;
-        exponent++;
-    }
-
     // Print mantissa.
     out << sign_symbol << '.';
     for (int count = 0; count < n; count++) {
-- 
2.43.0


From ddf142ec132278acf6485810fdb339fdc843decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:26 +0000
Subject: [PATCH 18/48] fix: determine the exponent in FLOT exactly for numbers
 just below a power of ten

---
 simulator/machine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index a891244..241b897 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -533,6 +533,11 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     if (exponent != 0) {
         x /= powl(10.0, exponent);
     }
+    if (x != 0 && x < 0.1L) {
+        // The logarithm of a number just below a power of ten was rounded up.
+        x *= 10;
+        exponent--;
+    }
 
     // Round.
     x += 0.5 / powl(10.0, n);
-- 
2.43.0


From cc9a42e6d23c873919596b57f04588725ba04ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 19/48] fix: a line end inside a string is one new line symbol,
 not two

---
 compiler/x1algc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 36cac2a..3d2f8b7 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -207,8 +207,10 @@ _L1:
             input_eof_seen = true;
             return 123; /*space*/
         }
-        if (getline(&input_line, &input_line_len, source_tape))
-            ;
+        if (getline(&input_line, &input_line_len, source_tape) > 0) {
+            // The end of line is delivered separately, see below.
+            input_line[strcspn(input_line, "\n")] = 0;
+        }
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
-- 
2.43.0


From ad4ca941637174a836edaaf98cd6d9ed69cffdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 20/48] fix: read loses the sign of a number which directly
 follows another one

---
 simulator/input.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 8e3e563..633c674 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -85,6 +85,12 @@ long double Machine::input_real(std::istream &orig_stream)
 
         if (input_stream) {
             // Number is valid.
+            // The character after it has been consumed.
+            // When it's the sign of the next number, put it back.
+            int ch = input_stream.peek();
+            if (ch == '+' || ch == '-') {
+                orig_stream.unget();
+            }
             return x;
         }
 
-- 
2.43.0


From 6fe3b8d110cc0c09bbd01b39c6d575d6fc29b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 21/48] fix: a real argument of SPACE, XEEN, or for the layout
 of FIXT, ABSFIXT and FLOT is rounded to integer

---
 simulator/opcodes.cpp       | 16 ++++++++--------
 simulator/virtual_stack.cpp | 12 ++++++++++++
 simulator/virtual_stack.h   |  1 +
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 46973e6..15c1a7c 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1073,13 +1073,13 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer();
+        auto bitmask = stack.pop_integer_param();
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
     case OPC_SPACE: {
         // Print N spaces.
-        auto a = stack.pop_integer();
+        auto a = stack.pop_integer_param();
         while (a-- > 0) {
             std::cout << ' ';
         }
@@ -1103,11 +1103,11 @@ bool Processor::call_opc(unsigned opc)
             m = 2;
         } else if (stack.count() == stack_base + 2) {
             // Invoked with three arguments: FLOT(n, m, x);
-            m = stack.pop_integer();
+            m = stack.pop_integer_param();
         } else {
             throw std::runtime_error("Wrong arguments for FLOT()");
         }
-        auto n = stack.pop_integer();
+        auto n = stack.pop_integer_param();
         Machine::print_floating_point(std::cout, n, m, x);
         std::cout << std::flush;
         break;
@@ -1115,8 +1115,8 @@ bool Processor::call_opc(unsigned opc)
     case OPC_FIXT: {
         // Print number in fixed-point representation, with sign.
         auto x = stack.pop_ieee();
-        auto m = stack.pop_integer();
-        auto n = stack.pop_integer();
+        auto m = stack.pop_integer_param();
+        auto n = stack.pop_integer_param();
         Machine::print_fixed_point(std::cout, n, m, x, true);
         std::cout << std::flush;
         break;
@@ -1124,8 +1124,8 @@ bool Processor::call_opc(unsigned opc)
     case OPC_ABSFIXT: {
         // Print absolute value in fixed-point representation, no sign.
         auto x = stack.pop_ieee();
-        auto m = stack.pop_integer();
-        auto n = stack.pop_integer();
+        auto m = stack.pop_integer_param();
+        auto n = stack.pop_integer_param();
         Machine::print_fixed_point(std::cout, n, m, x, false);
         std::cout << std::flush;
         break;
diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index a555559..0c1655f 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -466,6 +466,18 @@ int Virtual_Stack::pop_integer()
     }
 }
 
+//
+// Remove one item from stack, and return it as integer parameter
+// of a standard procedure: real value is rounded.
+//
+int Virtual_Stack::pop_integer_param()
+{
+    if (storage.size() != 0 && storage.back().is_real_value()) {
+        return ieee_to_integer(pop_ieee());
+    }
+    return pop_integer();
+}
+
 //
 // Remove one item from stack, and return it as memory address.
 //
diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index 03c2cc6..aa39d4a 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -94,6 +94,7 @@ public:
 
     // Remove one item from stack, and return it as standard integer value.
     int pop_integer();
+    int pop_integer_param();
 
     // Remove one item from stack, and return it as memory address.
     unsigned pop_addr();
-- 
2.43.0


From 92765689f1abaeed565a16ab6eb130b531c79519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 22/48] fix: read as an actual parameter

---
 compiler/x1algc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 3d2f8b7..7ff5aca 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2187,7 +2187,8 @@ _L8702:
                     goto _L8704;
                 } else {
                     tfpflag = 1;
-                    fill_result_list(98, 0);
+                    if ((store[nlib + nid] & (d8 - 1)) != 102 + 40) /*read has no parameter to take*/
+                        fill_result_list(98, 0);
                     goto _L8703;
                 }
             } else {
-- 
2.43.0


From 9f24f35d52083ca2559293ce71d993d9aaee183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 23/48] fix: a letter Z after the ninth character ended an
 identifier

---
 compiler/x1algc.c    | 2 +-
 compiler/x1algol.pas | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 7ff5aca..31ac3b9 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -550,7 +550,7 @@ Static Void read_until_next_delimiter()
                 marker = (fnw & (d6 - 1)) * d21;
                 fnw    = fnw / d6 + d21 * 63;
             }
-            while (dl < 62)
+            while (dl < 63)
                 read_next_symbol();
         }
         goto _L4;
diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index 9bcdc45..84dad2c 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -321,7 +321,7 @@ begin {body of read_until_next_delimiter}
                 begin marker:= fnw mod d6 * d21;
                   fnw:= fnw div d6 + 63 * d21
                 end;
-                while dl < 62 do read_next_symbol;
+                while dl < 63 do read_next_symbol;
               end;
          goto 4;
        end;
-- 
2.43.0


From 9df5e54c2d0ae6e7fe20ba41ef63aef3c41b8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:39 +0000
Subject: [PATCH 24/48] fix: skip the comment after end in the prescan, it is
 no part of the program

---
 compiler/x1algc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 31ac3b9..367b9b5 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -842,8 +842,14 @@ _L3:
         if (vht != 0)
             stop(23, "In prescan after end");
         tlsc--; /*remove corresponding begin from t_list*/
-        if (tlsc > tlib)
-            goto _L1;
+        if (tlsc > tlib) {
+            /*skip comment until ;, else or end:*/
+            do {
+                read_next_symbol();
+            } while (dl != 91 && dl != 84 && dl != 105);
+            bflag = 0;
+            goto _L3;
+        }
         goto _L7; /*end of prescan*/
     }
     if (dl <= 105) /*dl = |>*/
-- 
2.43.0


From 2536f056f0034d6b7e37dfd68e912ab10289cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:30 +0000
Subject: [PATCH 25/48] fix: propagate the carry when scaling a literal by a
 power of ten

---
 compiler/x1algc.c    | 3 ++-
 compiler/x1algol.pas | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 367b9b5..890141a 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -634,7 +634,8 @@ _L3: /*float*/
         do {
             fnw *= 5;
             inw = (fnw & 7) * d23 + inw * 5 / 8;
-            fnw /= 8;
+            fnw = fnw / 8 + inw / d26;
+            inw &= d26 - 1;
             if (fnw < d25) {
                 inw *= 2;
                 fnw = fnw * 2 + inw / d26;
diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index 84dad2c..5fd8392 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -370,7 +370,7 @@ begin {body of read_until_next_delimiter}
   end;
   if elsc > 0
   then repeat fnw:= 5 * fnw; inw:= (fnw mod 8) * d23 + (5 * inw) div 8;
-         fnw:= fnw div 8;
+         fnw:= fnw div 8 + inw div d26; inw:= inw mod d26;
          if fnw < d25
          then begin inw:= 2 * inw; fnw:= 2 * fnw + inw div d26;
                 inw:= inw mod d26;
-- 
2.43.0


From 37868e9739728a9506ef27839de8c06d9edb778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 26/48] fix: make room in the future list for as many entries
 as were reserved

Between two entries filled in, more than 16 may have been reserved (the
labels of a long switch).  The future list then ran over the constant list.
---
 compiler/x1algc.c    | 2 +-
 compiler/x1algol.pas | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 890141a..94dd3d7 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1314,7 +1314,7 @@ Local Void fill_future_list(int place, int value)
     /*FU*/
     int i, FORLIM;
 
-    if (place >= klib) {
+    while (place >= klib) {
         if (nlib + nlsc + 16 >= plib)
             stop(6, "fill_future_list: Store capacity too small");
         FORLIM = klib;
diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index 5fd8392..a7b8dcf 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -673,8 +673,8 @@ procedure main_scan;                                               {EL}
 
   procedure fill_future_list(place,value: integer);                {FU}
   var i: integer;
-  begin if place >= klib
-    then begin if nlib + nlsc + 16 >= plib then stop(6);
+  begin while place >= klib
+    do   begin if nlib + nlsc + 16 >= plib then stop(6);
            for i:= nlib + nlsc - 1 downto klib do
            store[i+16]:= store[i];
            klib:= klib + 16; nlib:= nlib + 16
-- 
2.43.0


From 91934fa6c44be0536e7a62ed3dbb9170ed82339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 27/48] fix: reject a procedure with more local variables than
 can be addressed

The displacement of a local variable has 10 bits; beyond 1024 words the
variables of a block ran into each other.
---
 compiler/x1algc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 94dd3d7..0292822 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1541,6 +1541,13 @@ Local Void generate_address()
     fill_result_list(opc, 0);
 } /*generate_address*/
 
+Local Void test_local_space()
+{
+    /*the displacement within a block takes 10 bits of an address*/
+    if (pnlv > d15 + bn)
+        stop(26, "Too many local variables");
+} /*test_local_space*/
+
 Local Void reservation_of_arrays()
 {
     /*KN*/
@@ -1563,6 +1570,7 @@ Local Void reservation_of_arrays()
             /*IVA*/
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
             pnlv += 256; /*at most 5 indices*/
+            test_local_space();
         }
         if ((store[rlab - 2] & (d3 - 1)) == 0)
             rlab -= 2;
@@ -2427,6 +2435,7 @@ _L101: /*]*/
             else
                 arra -= 3;
             pnlv += (ic + 3) * d5;
+            test_local_space();
             aic--;
         } while (aic != 0);
         read_until_next_delimiter();
@@ -2588,6 +2597,7 @@ _L1083: /*dynamic addressing*/
         pnlv += 64;
         lvc += 2;
     }
+    test_local_space();
     fill_name_list();
     if (dl == 87) { /*,*/
         read_until_next_delimiter();
@@ -2744,6 +2754,7 @@ _L112: /*procedure*/
         id = pnlv + d15 + d16;
         fill_name_list();
         pnlv += d5 * 2; /*reservation PARD*/
+        test_local_space();
     } while (dl == 87);
     read_until_next_delimiter(); /*for ; after )*/
 _L1121:
-- 
2.43.0


From ce1f3786f88aa7949a68bd43c6de2255dde1ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 28/48] fix: no reads and writes beyond the store for
 ill-formed programs

Ill-formed texts could make the compiler index its tables out of bounds,
loop for ever over a void name or nest blocks beyond 31.
---
 compiler/x1algc.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 0292822..84d2330 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -933,6 +933,8 @@ Static Void intro_new_block()
 {
     /*HW*/
     bn++;
+    if (bn > 31)
+        stop(27, "Too deeply nested");
     intro_new_block1();
 } /*intro_new_block*/
 
@@ -1323,7 +1325,7 @@ Local Void fill_future_list(int place, int value)
         klib += 16;
         nlib += 16;
     }
-    store[place] = value;
+    Wstore(place, value);
 } /*fill_future_list*/
 
 Local Void fill_constant_list(int n)
@@ -1395,13 +1397,15 @@ Local Void label_declaration()
     /*FY*/
     int id1, id2, i, w;
 
-    id1 = store[nlib + nid];
+    id1 = Rstore(nlib + nid);
     if (((id1 / d15) & 1) == 0) /*preceding applied occurrences*/
         fill_future_list(flib + (id1 & (d15 - 1)), rlsc);
     else
-        store[nlib + nid] = id1 - d15 + d24 + rlsc;
+        Wstore(nlib + nid, id1 - d15 + d24 + rlsc);
     /*first occurrence*/
-    id1 = store[nlib + nid - 1];
+    id1 = Rstore(nlib + nid - 1);
+    if (id1 == 0)
+        stop(7, "Identifier expected");
     if ((id1 & (d3 - 1)) == 0) { /*at most 4 letters/digits*/
         i = 4;
         id1 /= d3;
@@ -1415,7 +1419,7 @@ Local Void label_declaration()
             id1 /= d6;
         } while (i != 0);
     } else {
-        id2 = store[nlib + nid - 2];
+        id2 = Rstore(nlib + nid - 2);
         id2 = id2 / d3 + (id2 & (d3 - 1)) * d24;
         w   = (id2 & (d24 - 1)) * d3 + id1 / d24;
         id1 = (id1 & (d24 - 1)) * d3 + id2 / d24;
@@ -1568,11 +1572,11 @@ Local Void reservation_of_arrays()
             else
                 fill_result_list(93, 0);
             /*IVA*/
-            store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
+            Wstore(rlab - 1, id / d15 * d15 - d16 + pnlv);
             pnlv += 256; /*at most 5 indices*/
             test_local_space();
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -1591,7 +1595,7 @@ Local Void reservation_of_arrays()
             }
             decl_done[bn] = 1;
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -1602,6 +1606,8 @@ Local Void reservation_of_arrays()
 
 Local Void end_of_block()
 {
+    if (bn <= 0)
+        stop(23, "Unexpected end of block");
     if (decl_pnlv[bn] != 0) {
         /*end of procedure: more declarations may follow*/
         pnlv          = decl_pnlv[bn];
@@ -1758,6 +1764,8 @@ Local boolean do_in_t_list()
     if (store[tlsc - 1] % 255 == 86) {
         tlsc -= 5;
         nlsc = store[tlsc + 2];
+        if (bn <= 0)
+            stop(23, "Unexpected end of block");
         bn--;
         fill_future_list(flib + store[tlsc + 1], rlsc + 1); /*2T 0X0 A*/
         fill_result_list(1, store[tlsc] + 88604672);
@@ -1807,11 +1815,11 @@ Local Void look_for_name()
 
     i = nlib + nlsc;
 _L1:
-    w = store[i - 2];
+    w = Rstore(i - 2);
     if (w == inw) {
         if ((w & 7) == 0) /*at most 4 letters/digits*/
             goto _L2;
-        if (store[i - 3] == fnw)
+        if (Rstore(i - 3) == fnw)
             goto _L2;
     }
     /*more than 4 letters/digits*/
@@ -2241,6 +2249,8 @@ _L8704:
     tlsc--;
     fill_future_list(flib + store[tlsc], rlsc); /*2A 'psta' A*/
     fill_result_list(0, psta + 4718592);
+    if (bn <= 0)
+        stop(23, "Unexpected end of block");
     bn--;
     unload_t_list_element(&fflag);
     unload_t_list_element(&eflag);
@@ -2430,7 +2440,7 @@ _L101: /*]*/
         arra = nlib + nlsc;
         do {
             Wstore(arra - 1, arrb + pnlv);
-            if ((store[arra - 2] & (d3 - 1)) == 0)
+            if ((Rstore(arra - 2) & (d3 - 1)) == 0)
                 arra -= 2;
             else
                 arra -= 3;
@@ -2771,7 +2781,7 @@ _L1122:
     do {
         read_until_next_delimiter();
         look_for_name();
-        store[nlib + nid] += spe;
+        Wstore(nlib + nid, Rstore(nlib + nid) | spe);
     } while (dl == 87);
     goto _L1121;
 _L1123:                           /*specification part:*/
@@ -2805,7 +2815,7 @@ _L1123:                           /*specification part:*/
         goto _L1122;
 _L1124:
     look_for_name();
-    store[nlib + nid] += spe;
+    Wstore(nlib + nid, Rstore(nlib + nid) | spe);
     if (store[nlib + nid] >= d26) {
         id                = store[nlib + nid] - d26;
         id                = id / d17 * d17 + (id & (d16 - 1));
@@ -3328,8 +3338,8 @@ Static Void program_loader()
         /*at least 5 letters or digits*/
         if (((idm / d15) & 1) == 0) { /*MCP is used*/
             mcp_count++;
-            store[mlib + ((store[flib + (idm & (d15 - 1))] - rlib) & (d15 - 1))] =
-                -(flib + (idm & (d15 - 1)));
+            Wstore(mlib + ((Rstore(flib + (idm & (d15 - 1))) - rlib) & (d15 - 1)),
+                   -(flib + (idm & (d15 - 1))));
         }
     }
     /*determine secondary need using the cross-reference list:*/
-- 
2.43.0


From 293ace02ab4fab2df49b9f68bde2f235364ddada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 29/48] fix: no object code from a flag that is not one

In an ill-formed program, brackets and declarations can be unstacked in
the wrong order, so that a number which was never a flag is used to form
the code of an instruction, with arithmetic overflow. Reject such a
program.
---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 84d2330..6cb1ad4 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1026,6 +1026,8 @@ Static Void fill_result_list(int opc, int w)
     /*ZF*/
     char j;
 
+    if (opc < 0 || opc > 112)
+        stop(22, "Special function in object program");
     rlsc++;
     if (opc < 8) {
         address_coder(w);
-- 
2.43.0


From 3a23cf3413a024c831c535d4086dd39053a0d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 30/48] fix: check the top of the stack, its base and the
 display in the simulator

An object program which is not what the compiler makes could read the top
of an empty stack, erase items beyond its end or read beyond the display
and crash the simulator. Report it as an error.
---
 simulator/opcodes.cpp       |  2 +-
 simulator/processor.cpp     |  3 +++
 simulator/virtual_stack.cpp | 22 ++++++++++++++++++++++
 simulator/virtual_stack.h   |  6 +++---
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 15c1a7c..0fb4063 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -227,7 +227,7 @@ bool Processor::call_opc(unsigned opc)
         // goto adjustment
         // Exit to block level given in register B.
         frame_ptr = last_frame_ptr;
-        roll_back(display[core.B]);
+        roll_back(get_display(core.B));
         break;
 
     case OPC_SSI: {
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 7778620..55ed256 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -988,6 +988,9 @@ void Processor::increment_stack_base(int amount)
     auto post_op = eis_operation.at(stack_base);
 
     stack_base += amount;
+    if (stack_base > stack.count()) {
+        throw std::runtime_error("Stack base is beyond the stack");
+    }
     eis_operation[stack_base] = post_op;
 }
 
diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 0c1655f..0d7999d 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -412,6 +412,28 @@ void Stack_Cell::exponentiate_real(long double a, const Stack_Cell &another)
     }
 }
 
+//
+// Get the top of the stack.
+//
+Stack_Cell &Virtual_Stack::top()
+{
+    if (storage.size() == 0) {
+        throw std::runtime_error("Stack is empty");
+    }
+    return storage.back();
+}
+
+//
+// Remove all items starting from given index (but don't deallocate).
+//
+void Virtual_Stack::erase(unsigned ptr)
+{
+    if (ptr > storage.size()) {
+        throw std::runtime_error("No item #" + std::to_string(ptr) + " in stack");
+    }
+    storage.erase(storage.begin() + ptr, storage.end());
+}
+
 //
 // Remove one item from stack, and return it as cell.
 //
diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index aa39d4a..7f26609 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -77,10 +77,10 @@ public:
     unsigned count() const { return storage.size(); }
 
     // Get the top of the stack.
-    Stack_Cell &top() { return storage.back(); }
+    Stack_Cell &top();
 
-    // Remove all items (but don't deallocate).
-    void erase(unsigned ptr) { storage.erase(storage.begin() + ptr, storage.end()); }
+    // Remove all items starting from given index (but don't deallocate).
+    void erase(unsigned ptr);
 
     // Remove one item from stack, and return it as cell.
     Stack_Cell pop();
-- 
2.43.0


From b70c15e93723079831d773270a0214542d6a12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 31/48] fix: registers and shifts of the simulator keep to 27
 bits

Reading the type of the top of the stack left a value of 32 bits in
register A, and a shift over more than 27 places shifted by a negative
amount.
---
 simulator/processor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 55ed256..282cf42 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -133,13 +133,13 @@ bool Processor::step()
                 core.A = 0;
                 break;
             case Cell_Type::INTEGER_ADDRESS:
-                core.A = -12345; // some negative value
+                core.A = -12345 & BITS(27); // some negative value
                 break;
             case Cell_Type::REAL_VALUE:
                 core.A = 1;
                 break;
             case Cell_Type::REAL_ADDRESS:
-                core.A = -23456; // some negative value
+                core.A = -23456 & BITS(27); // some negative value
                 break;
             default:
                 throw std::runtime_error("Bad stack cell type");
@@ -258,6 +258,8 @@ bool Processor::step()
     case 067'14: {
         // Round shift to the right, 1P amount rr E
         unsigned amount = addr & 037;
+        if (amount > 27)
+            goto unknown;
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | core.A << (27 - amount)) & BITS(27);
@@ -284,6 +286,8 @@ bool Processor::step()
     case 077'00: {
         // Clear shift to the right, 3P amount rr
         unsigned amount = addr & 037;
+        if (amount > 27)
+            goto unknown;
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | -(core.A >> 26) << (27 - amount)) & BITS(27);
-- 
2.43.0


From 79e8249efb987d4b722768d7dada8a03b58dfbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:24 +0000
Subject: [PATCH 32/48] fix: report an object file without an entry address

Such a file (an empty one, for instance) made the simulator read an entry
of an empty table.
---
 simulator/machine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 241b897..92442e0 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -389,6 +389,9 @@ void Machine::load_object_program(const std::string &obj_filename)
             throw std::runtime_error("Bad line: '" + line + "'");
         }
     }
+    if (entry_table.empty()) {
+        throw std::runtime_error("No entry address in " + obj_filename);
+    }
 }
 
 //
-- 
2.43.0


From cb7ce5a9ca927727b0157c742cb4736b48548892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 33/48] fix: option --debug has no argument

It swallowed the file name which follows it.
---
 simulator/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index b9880c0..d059f0a 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -13,7 +13,7 @@ static const struct option long_options[] = {
     { "help",           no_argument,        nullptr,    'h' },
     { "version",        no_argument,        nullptr,    'V' },
     { "trace",          required_argument,  nullptr,    'T' },
-    { "debug",          required_argument,  nullptr,    'd' },
+    { "debug",          no_argument,        nullptr,    'd' },
     { nullptr },
     // clang-format on
 };
-- 
2.43.0


From c6af439b85aa1de71dc2700db172dc404bbc26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 34/48] fix: report a trace file which cannot be written

The exception was thrown outside of any handler: the simulator was aborted.
---
 simulator/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index d059f0a..928c407 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -84,7 +84,12 @@ int main(int argc, char *argv[])
 
         case 'T':
             // Redirect tracing to given file.
-            Machine::redirect_trace(optarg);
+            try {
+                Machine::redirect_trace(optarg);
+            } catch (std::exception &ex) {
+                std::cerr << "Error: " << ex.what() << std::endl;
+                exit(EXIT_FAILURE);
+            }
             Machine::get_trace_stream() << "X1 Algol Simulator Version: " << VERSION_STRING << "\n";
             continue;
 
-- 
2.43.0


From 4f4122aa6ca9fac5d31972be9af7699cdc1196a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 35/48] fix: notice a compiler which was killed

When the compiler was terminated by a signal, its incomplete output was run
as if the compilation were successful.
---
 simulator/machine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 92442e0..664feb6 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,9 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (!WIFEXITED(wait_status)) {
+        throw std::runtime_error("Compiler was terminated abnormally");
+    }
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From c9ee97fa241079e019fcf21e35c846290e609be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 36/48] fix: do not use a library tape which is closed

When a routine was missing, the end of the last library was tested after
the file was closed.
---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6cb1ad4..ef724f6 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3463,6 +3463,7 @@ Static Void program_loader()
             V.ll = read_bit_string(13, &V);
         }
         fclose(lib_tape);
+        lib_tape = NULL;
     }
     /*program loading completed:*/
     typ_address(mcpe);
-- 
2.43.0


From 654d1a28b0e5f2cc0c4bc6fdf538f7069d639b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 37/48] fix: reject negative numbers on a library tape

They were used to form bits and shifts.
---
 compiler/x1algc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ef724f6..843db49 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2858,10 +2858,13 @@ Local int read_byte_from_lib_tape()
     int w;
     if (binary_lib_tape) {
         w = getc(lib_tape);
+        if (w == EOF) {
+            return EOF;
+        }
     } else if (fscanf(lib_tape, "%d", &w) <= 0) {
         return EOF;
     }
-    if (w >= 128) {
+    if (w < 0 || w >= 128) {
         printf("Stray punch on library tape, current offset is %d\n", (int)ftell(lib_tape));
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From f4bdcef340e6022503308063445aeb7eb0cad6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 38/48] fix: reject a library routine of the wrong length

A routine longer or shorter than the space reserved for it was loaded over
its neighbours.
---
 compiler/x1algc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 843db49..5db178f 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3315,6 +3315,7 @@ Static Void program_loader()
     struct LOC_program_loader V;
     int i, j, idm;
     int mcp_count = 0;
+    int mcp_length[128] = { 0 };
     boolean use;
     int FORLIM;
 
@@ -3353,6 +3354,7 @@ Static Void program_loader()
     while (V.ll != 7680) {       /*end marker*/
         i   = read_crf_item(&V); /*for MCP number*/
         use = (store[mlib + i] != 0);
+        mcp_length[i] = V.ll;
         j   = read_crf_item(&V); /*for number of MCP needing the current one*/
         while (j != 7680) {      /*end marker*/
             use = (use || store[mlib + j] != 0);
@@ -3435,8 +3437,8 @@ Static Void program_loader()
                 printf("Bad MCP number %d\n", i);
                 exit(EXIT_FAILURE);
             }
-            // TODO: compare with the proper length in crf
-            if (V.ll == 0 || V.ll > 1024) {
+            if (V.ll == 0 || V.ll > 1024 ||
+                (store[crfb + i] != 0 && V.ll != mcp_length[i])) {
                 printf("Bad MCP length %d\n", V.ll);
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From 9389667eb566c505b0c0f7d39c6b224d59172870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 39/48] fix: skip an unneeded library routine by its length

The end of a routine was sought as two zeros in succession, which also
occur inside a routine: the library was rejected, although in order.
---
 compiler/x1algc.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 5db178f..bece787 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3453,14 +3453,9 @@ Static Void program_loader()
                     printf("Tape %s: skipping unneeded procedure %d\n",
                            P_argv[optind-1], i);
                 }
-                do {
-                    do {
-                        if (EOF == (V.ll = read_byte_from_lib_tape()))
-                            break;
-                    } while (V.ll != 0);
-                    if (EOF == (V.ll = read_byte_from_lib_tape()))
-                        break;
-                } while (V.ll != 0);
+                for (j = 0; j < V.ll; j++)
+                    read_binary_word(&V);
+                test_bit_stock();
             }
             prepare_read_bit_string3(&V);
             if (feof(lib_tape))
-- 
2.43.0


From 17ef99689d7ad278c3fe126b3fa87fc68edca7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 40/48] fix: reject undefined operation codes on the library
 tape

A damaged tape could index the table of operation codes past its end.
---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index bece787..0f3bde9 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3187,6 +3187,8 @@ Local int read_binary_word(struct LOC_program_loader *LINK)
         else {
             w -= 366;
             /*011xxxxxxx*/
+            if (w > 105)
+                stop(107, "Bad operation code on tape");
         }
         return (opc_table[w]);
     } /*0*/
-- 
2.43.0


From 86fe9a6d0de20d2c8fda87a306d7e836b2fdca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 41/48] fix: report an object program that could not be written

The compiler ended successfully when the disk was full, and the simulator
then ran the part of the program that had been written.
---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 0f3bde9..89d32cf 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3954,6 +3954,10 @@ int main(int argc, char *argv[])
     for (ii = mcpe; ii < FORLIM; ii++)
         printf("%5d%10d\n", ii, store[ii]);
     free(input_line);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("Cannot write object program");
+        exit(EXIT_FAILURE);
+    }
     exit(EXIT_SUCCESS);
 }
 
-- 
2.43.0


From e7429061b4088382678ff4e59d808a121806ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 42/48] fix: compile with the standard output closed

The object file then got the descriptor of the standard output, which was
closed before the compiler was started.
---
 simulator/machine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 664feb6..a63e26b 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -292,8 +292,10 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         if (out_fd < 0) {
             exit(STATUS_CANNOT_WRITE_OUTPUT);
         }
-        dup2(out_fd, STDOUT_FILENO);
-        close(out_fd);
+        if (out_fd != STDOUT_FILENO) {
+            dup2(out_fd, STDOUT_FILENO);
+            close(out_fd);
+        }
 
         // Start the compiler.
         auto argv = build_argv(prog_path, input_filenames);
-- 
2.43.0


From d8c82ab4b33cb9e48b5947a8ec255b3956253df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 43/48] fix: report output that could not be written

The exit status was zero although the output of the program was lost.
---
 simulator/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index 928c407..6a6c72b 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -116,6 +116,9 @@ int main(int argc, char *argv[])
             machine.find_default_library(argv[0]);
         }
         machine.compile_and_run();
+        if (!std::cout.flush()) {
+            throw std::runtime_error("Cannot write output");
+        }
 
     } catch (std::exception &ex) {
         std::cerr << "Error: " << ex.what() << std::endl;
-- 
2.43.0


From 4886cdcf9593838008c741075b21bb9a715751b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 44/48] fix: reject texts that empty the compiler's delimiter
 list

Long runs of closing brackets or commas took elements from below the list,
and a wrong reference number of a library routine was used as an index.
---
 compiler/x1algc.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 89d32cf..a79ca04 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1354,6 +1354,8 @@ Local Void fill_constant_list(int n)
 Local Void unload_t_list_element(int *variable)
 {
     /*ZU*/
+    if (tlsc <= tlib)
+        stop(23, "Unexpected end of block");
     tlsc--;
     *variable = store[tlsc];
 } /*unload_t_list_element*/
@@ -1703,6 +1705,8 @@ Local Void production_of_object_program(int opht, struct LOC_main_scan *LINK)
         fill_result_list(58, 0);
     }
     while (oh <= ((store[tlsc - 1] / d8) & 15)) {
+        if (tlsc <= tlib)
+            stop(23, "Unexpected end of block");
         tlsc--;
         operator_ = store[tlsc] & (d8 - 1);
         if (operator_ > 63 && operator_ <= 80) {
@@ -1885,6 +1889,8 @@ Static Void main_scan()
     if (setjmp(V._JL9801))
         goto _L9801;
 _L1:
+    if (tlsc <= tlib)
+        stop(23, "Unexpected end of block");
     read_until_next_delimiter();
 _L2:
     if (nflag != 0) {
@@ -3315,7 +3321,7 @@ Static Void program_loader()
 { /*program loader*/
     /*RZ*/
     struct LOC_program_loader V;
-    int i, j, idm;
+    int i, j, idm, i_mcp;
     int mcp_count = 0;
     int mcp_length[128] = { 0 };
     boolean use;
@@ -3346,8 +3352,10 @@ Static Void program_loader()
         /*at least 5 letters or digits*/
         if (((idm / d15) & 1) == 0) { /*MCP is used*/
             mcp_count++;
-            Wstore(mlib + ((Rstore(flib + (idm & (d15 - 1))) - rlib) & (d15 - 1)),
-                   -(flib + (idm & (d15 - 1))));
+            i_mcp = (Rstore(flib + (idm & (d15 - 1))) - rlib) & (d15 - 1);
+            if (i_mcp > 127)
+                stop(25, "Bad library routine");
+            Wstore(mlib + i_mcp, -(flib + (idm & (d15 - 1))));
         }
     }
     /*determine secondary need using the cross-reference list:*/
-- 
2.43.0


From 6f7526db81596634e80d208a618e6e88d2cb01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:08 +0000
Subject: [PATCH 45/48] fix: collate the argument of XEEN as a word of 27 bits

Negative arguments were taken in two's complement, a zero argument gave zero
instead of all switches, and more than 27 switches gave an integer beyond
the range.
---
 simulator/input.cpp   | 9 ++++++---
 simulator/opcodes.cpp | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 633c674..6c1aac6 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -126,9 +126,12 @@ unsigned Machine::read_console_switches(std::istream &input_stream, unsigned bit
             try {
                 std::string line;
                 if (std::getline(input_stream, line)) {
-                    console_switches = std::stoul(line, nullptr, 2);
-                    switches_are_valid = true;
-                    break;
+                    auto value = std::stoul(line, nullptr, 2);
+                    if (value <= BITS(27)) {
+                        console_switches = value;
+                        switches_are_valid = true;
+                        break;
+                    }
                 }
             } catch (...) {
                 // No valid number.
diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 0fb4063..4870754 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1073,7 +1073,9 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer_param();
+        // Zero argument stands for a row of 27 ones.
+        auto arg     = stack.pop_integer_param();
+        auto bitmask = arg != 0 ? integer_to_x1(arg) : (Word)BITS(27);
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0


From a3574d46d8d56b32c65525fd5fa358508e45ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 46/48] fix: pass arrays of more than 32767 words by value

---
 simulator/processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 282cf42..3bf2d00 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -979,7 +979,7 @@ void Processor::make_value_array_function_frame(int elt_size)
             w = val * 10 + elt_size;
         }
         stack.push_int_value(w);
-        seen_limit |= val < 0 && -val <= 32767;
+        seen_limit |= val < 0;
     }
     if (!seen_limit) {
         throw std::runtime_error("Too many dimensions for value array");
-- 
2.43.0


From 0156f83913c8842044120a243267733332f070e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:58 +0000
Subject: [PATCH 47/48] fix: do not overlap a real constant with the end of the
 constant list

When both words of a real constant equal the last word of the list,
the search in look_for_constant() matched the sentinel half way: the
constant took one word only, and the next constant overwrote it.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index a79ca04..e64da58 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1866,7 +1866,7 @@ Local Void look_for_constant()
         store[klib + klsc]     = fnw;
         store[klib + klsc + 1] = inw;
         i                      = 0;
-        while (store[klib + i] != fnw || store[klib + i + 1] != inw)
+        while (store[klib + i] != fnw || store[klib + i + 1] != inw || i == klsc - 1)
             i++;
     }
     /*search floating constant*/
-- 
2.43.0


From 2b8e58a192e0a7f3b1c549072e240f7670b1e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:59 +0000
Subject: [PATCH 48/48] fix: run object programs without an Algol library

A compiled program does not need the library, but was refused when
none of the default places has it.
---
 simulator/machine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index a63e26b..b469cc0 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -79,6 +79,9 @@ void Machine::compile_and_run()
         //
         if (input_files.size() < 2) {
             // Use default Algol library.
+            if (default_library.empty()) {
+                throw std::runtime_error("Cannot find library x1algol.lib");
+            }
             add_input_file(default_library);
         }
         const auto obj_filename = input_path.stem().string() + ".x1";
@@ -678,5 +681,6 @@ void Machine::find_default_library(const char *argv0)
     }
     //std::cout << "--- Cannot read " << relative_library << '\n';
 
-    throw std::runtime_error("Cannot find library x1algol.lib");
+    // No library: only object programs can be run.
+    default_library.clear();
 }
-- 
2.43.0

