From eb2a885995d23b98c8b4111f8dc3eebc51fa065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 1/3] fix: mark every word covered by an 8- or 16-byte write as
 dirty

A write wider than 4 bytes (64- and 128-bit data widths) set the dirty bit of
its first word only, so the other words were lost on eviction, flush and
before atomics, and overwritten by the refill after an invalidate.
---
 blocking_cache/units/UpdateTagArrayUnit.py | 42 ++++++++++++++--------
 blocking_cache/units/arithmetics.py        | 35 +++++++++++++-----
 2 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/blocking_cache/units/UpdateTagArrayUnit.py b/blocking_cache/units/UpdateTagArrayUnit.py
index d81bd35..5392371 100644
--- a/blocking_cache/units/UpdateTagArrayUnit.py
+++ b/blocking_cache/units/UpdateTagArrayUnit.py
@@ -25,6 +25,29 @@ class UpdateTagArrayUnit( Component ):
     s.wr_len      = InPort (p.bitwidth_len)       # for double-word CIFER hack
     s.out         = OutPort(p.StructTagArray)
 
+    # Words of the cache line covered by the write
+    s.wr_words      = Wire(p.bitwidth_dirty)
+    bitwidth_dirty  = p.bitwidth_dirty
+    full_words_mask = mk_bits(bitwidth_dirty)( 2**(p.bitwidth_data // 32) - 1 )
+    dbl_words_mask  = mk_bits(bitwidth_dirty)( 3 % 2**bitwidth_dirty )
+    one_word_mask   = mk_bits(bitwidth_dirty)( 1 )
+
+    @update
+    def wr_words_logic():
+      if s.wr_len == 0:
+        # full data bitwidth access
+        s.wr_words @= full_words_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+      elif s.wr_len == 3:
+        # moyang: this is a hack for CIFER project. When len == 3, we
+        # zero-extend the 32-bit word to a 64-bit double word, so we need to
+        # set the dirty bits of two words
+        s.wr_words @= dbl_words_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+      elif s.wr_len == trunc( Bits32(8), p.bitwidth_len ):
+        # truncated to 0 if the data bitwidth is less than 128
+        s.wr_words @= dbl_words_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+      else:
+        s.wr_words @= one_word_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+
     @update
     def new_tag_array_entry_logic():
       s.out.tag @= s.old_entries[s.way].tag
@@ -32,29 +55,18 @@ class UpdateTagArrayUnit( Component ):
       s.out.dty @= s.old_entries[s.way].dty
 
       if s.cmd == UpdateTagArrayUnit_CMD_WR_REFILL:
-        # Refill on a write, mark the word being written as dirty, the
+        # Refill on a write, mark the words being written as dirty, the
         # rest is clean
         s.out.val @= CACHE_LINE_STATE_VALID
-        s.out.dty @= 0 | s.refill_dty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.refill_dty | s.wr_words
       elif s.cmd == UpdateTagArrayUnit_CMD_RD_REFILL:
         # Refill for a read, simply mark valid bit and clear the dirty
         # bits
         s.out.val @= CACHE_LINE_STATE_VALID
         s.out.dty @= 0 | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_WR_HIT:
-        # Hit a clean word, mark the word as dirty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        # Hit a clean word, mark the words being written as dirty
+        s.out.dty @= s.old_entries[s.way].dty | s.wr_words
       elif s.cmd == UpdateTagArrayUnit_CMD_CLEAR:
         # Clear the entire entry
         s.out.tag @= 0
diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index d3266ca..ab3f965 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -250,19 +250,36 @@ class TagArrayRDataProcessUnit( Component ):
     s.line_dirty = OutPort(p.associativity) # If the line is dirty
     s.tag_entires= [ OutPort(p.StructTagArray) for _ in range(p.associativity) ]
 
+    # Words of the cache line covered by the access
+    s.acc_words     = Wire(p.bitwidth_dirty)
+    bitwidth_dirty  = p.bitwidth_dirty
+    full_words_mask = mk_bits(bitwidth_dirty)( 2**(p.bitwidth_data // 32) - 1 )
+    dbl_words_mask  = mk_bits(bitwidth_dirty)( 3 % 2**bitwidth_dirty )
+    one_word_mask   = mk_bits(bitwidth_dirty)( 1 )
+
+    @update
+    def acc_words_logic():
+      if s.wr_len == 0:
+        # full data bitwidth access
+        s.acc_words @= full_words_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+      elif s.wr_len == 3:
+        # moyang: this is a CIFER hack. len == 3 writes a double word (zero
+        # extending a 32-bit word to a 64-bit double word)
+        s.acc_words @= dbl_words_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+      elif s.wr_len == trunc( Bits32(8), p.bitwidth_len ):
+        # truncated to 0 if the data bitwidth is less than 128
+        s.acc_words @= dbl_words_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+      else:
+        s.acc_words @= one_word_mask << zext( s.offset[2 : p.bitwidth_offset], bitwidth_dirty )
+
     # word dirty logic
     @update
     def word_dirty_logic():
       for i in range(p.associativity):
-        # moyang: this is a CIFER hack. When writing a double word (zero
-        # extending a 32-bit word to a 64-bit double word), we only consider the
-        # double word dirty if both 32-bit words are dirty, because we need to
-        # stall the pipeline to set the two dirty bits if any of them is not
-        # already dirty.
-        if s.wr_len == 3:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ] & s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] + 1 ]
-        else:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ]
+        # We only consider the data dirty if all of the words it covers are
+        # dirty, because we need to stall the pipeline to set the dirty bits
+        # if any of them is not already dirty.
+        s.word_dirty[i] @= (s.tag_array[i].dty & s.acc_words) == s.acc_words
 
     @update
     def line_dirty_logic():
-- 
2.43.0


From 2bd7bad7447da6f8f8d564a30455f89c95866f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 2/3] fix: key the functional model's memory by unsigned line
 number in atomics

ModelCache.amo looked lines up by the signed value of the line number and
inserted missing lines under a Bits key, so an atomic to a line that was
not accessed before, or to an address with the top bit set, raised
KeyError.
---
 blocking_cache/BlockingCacheFL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 1a3cfb5..488699a 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -283,17 +283,17 @@ class ModelCache:
   def amo(self, addr, value, opaque, len_, func):
     # AMO operations are on the word level only
     self.tracker.amo_req(addr)
-    new_addr = addr[self.offset_end:32]
+    new_addr = int(addr[self.offset_end:32])
     offset = int(addr[self.offset_start:self.offset_end])
     if new_addr not in self.mem:
       self.mem[new_addr] = Bits(self.mem_bitwidth_data, 0)
-    ret = self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8]
+    ret = self.mem[new_addr][offset * 8 : (offset + 4) * 8]
     
     value = trunc(value, 32)
     amo_out = AMO_FUNS[ int(func) ]( ret, value )
     ret = zext( ret, self.cache_bitwidth_data )
     value = zext( value, self.cache_bitwidth_data )
-    self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8] = amo_out
+    self.mem[new_addr][offset * 8 : (offset + 4) * 8] = amo_out
     
     self.transactions.append(req (self.CacheReqType, func, opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,func, opaque, 0,    len_, ret))
-- 
2.43.0


From 8f85fb1fa53ca66f0cd8562bc6d17ec137a280f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:37 +0000
Subject: [PATCH 3/3] fix: write-init puts tag and data into the same way

The tag of a WRITE_INIT went to the way named by the replacement bit of
whatever set the previous request used, its data always to way 0, and each
WRITE_INIT flipped the replacement bit. In a two-way cache, words preloaded
into a second line were lost: reads hit and returned other data.
---
 blocking_cache/BlockingCacheCtrlRTL.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/blocking_cache/BlockingCacheCtrlRTL.py b/blocking_cache/BlockingCacheCtrlRTL.py
index 15a2ff1..d4b12bf 100644
--- a/blocking_cache/BlockingCacheCtrlRTL.py
+++ b/blocking_cache/BlockingCacheCtrlRTL.py
@@ -428,7 +428,8 @@ class BlockingCacheCtrlRTL( Component ):
       elif (s.trans_M0 == TRANS_TYPE_REPLAY_AMO) & (s.status.amo_hit_M0):
         s.ctrl.tag_array_val_M0[s.status.MSHR_ptr] @= y
       elif s.trans_M0 == TRANS_TYPE_INIT_REQ:
-        s.ctrl.tag_array_val_M0[s.status.ctrl_bit_rep_rd_M1] @= y
+        # Init-writes always go to way 0, where the data array puts them
+        s.ctrl.tag_array_val_M0[0] @= y
       elif s.trans_M0 == TRANS_TYPE_CLEAN_HIT:
         s.ctrl.tag_array_val_M0[s.status.hit_way_M1] @= y
       elif ( (s.trans_M0 == TRANS_TYPE_READ_REQ) |
@@ -527,18 +528,20 @@ class BlockingCacheCtrlRTL( Component ):
       s.hit_M1            @= n
       s.is_write_hit_clean_M0 @= n
 
-      if ( (s.trans_M1.out == TRANS_TYPE_INIT_REQ) |
-           (s.trans_M1.out == TRANS_TYPE_WRITE_REQ)|
-           (s.trans_M1.out == TRANS_TYPE_READ_REQ) ):
+      if s.trans_M1.out == TRANS_TYPE_INIT_REQ:
+        # Init-writes do not read the tag arrays, so there is neither a hit
+        # nor a line to evict. Way 0 becomes the most recently used one.
+        s.repreq_en_M1      @= y
+        s.repreq_hit_ptr_M1 @= 0
+        s.repreq_is_hit_M1  @= y
+
+      elif ( (s.trans_M1.out == TRANS_TYPE_WRITE_REQ)|
+             (s.trans_M1.out == TRANS_TYPE_READ_REQ) ):
         s.hit_M1 @= s.status.hit_M1
         # if hit, dty bit will come from the way where the hit occured
         if s.hit_M1:
           s.is_dty_M1 @= s.status.ctrl_bit_dty_rd_word_M1[s.status.hit_way_M1]
 
-        if s.trans_M1.out == TRANS_TYPE_INIT_REQ:
-          s.repreq_en_M1      @= y
-          s.repreq_is_hit_M1  @= n
-
         # Check that we don't have a situation where ~val and dty but we're
         # still accessing the same address.
         if ~s.status.inval_hit_M1:
-- 
2.43.0

