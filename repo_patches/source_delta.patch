From 1ed16ceb8487002c54be1f78964b3dfce7529994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 01/76] fix: do not treat the last sampled token as having a KV
 slot when freeing a request

The KV entry of a sampled token is written by the decode step that consumes
it, so the last output token never has one.  Freeing counted it anyway and
inserted a stale page-table entry into the prefix cache (or freed it).
---
 pymllm/orchestrator/model_runner_process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d7b6585..d271468 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1036,8 +1036,11 @@ class ModelRunnerProcess:
         # ----------------------------------------------------------
         # Phase 1: Read all KV indices BEFORE freeing anything.
         # ----------------------------------------------------------
+        # The KV entry of the last sampled token would only be written by the
+        # next decode step, so that token is not part of the cached sequence.
+        output_ids = output_ids[:-1] if output_ids else []
         prompt_len = len(input_ids) if input_ids is not None else 0
-        decode_len = len(output_ids) if output_ids else 0
+        decode_len = len(output_ids)
         total_len = prompt_len + decode_len
 
         all_kv_indices: Optional[torch.Tensor] = None
-- 
2.43.0


From 8d695428eab2b2e7e5ae196c98dd2bef00b3d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 02/76] fix: treat top_k <= 0 as disabled when sampling

The default top_k of -1 was handed to the sampling kernels as is, which
index the k-th largest probability with it.
---
 pymllm/executor/model_runner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 7e1cf6d..93abf88 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1523,7 +1523,13 @@ class ModelRunner:
         has_top_p = top_ps is not None
 
         if has_top_k or has_top_p:
-            k = top_ks if has_top_k else logits.shape[-1]
+            vocab_size = logits.shape[-1]
+            k = vocab_size
+            if has_top_k:
+                # top_k <= 0 means "disabled": keep the whole vocabulary.
+                k = torch.where(
+                    top_ks > 0, top_ks, torch.full_like(top_ks, vocab_size)
+                ).clamp(max=vocab_size)
             p = top_ps if has_top_p else 1.0
             next_token_ids = top_k_top_p_sampling_from_probs(probs, k, p)
         else:
-- 
2.43.0


From 5583eaa93d8fdaabe03d11c304ff121be8f87b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 03/76] fix: greedy requests take the argmax in mixed sampling
 batches too

They were sampled from a softmax at temperature 1e-6, which can return
another token when the best scores are equal or nearly so.
---
 pymllm/executor/model_runner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 93abf88..2b19562 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1535,6 +1535,14 @@ class ModelRunner:
         else:
             next_token_ids = sampling_from_probs(probs)
 
+        # Greedy requests that share the batch with sampling ones.
+        if temperatures is not None:
+            next_token_ids = torch.where(
+                temperatures < 1e-6,
+                logits.argmax(dim=-1).to(next_token_ids.dtype),
+                next_token_ids,
+            )
+
         return next_token_ids
 
     # ------------------------------------------------------------------
-- 
2.43.0


From c309e9fb711b3dcd3d7cefb204e9f1c355a345b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 04/76] fix: keep the evictable size in step when a leaf gains
 a child

Every other update counts all unlocked nodes as evictable, inner ones
included, so dropping the parent's length here made the counter drift
(down to and below zero, which stops eviction while the cache is full).
---
 pymllm/mem_cache/mamba_radix_cache.py | 9 ---------
 pymllm/mem_cache/radix_cache.py       | 8 --------
 2 files changed, 17 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index bee8027..55d82e2 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -534,15 +534,6 @@ class MambaRadixCache(BasePrefixCache):
         value: torch.Tensor,
         mamba_value: Optional[torch.Tensor] = None,
     ) -> MambaTreeNode:
-        # Parent may lose leaf status
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.full_lock_ref == 0
-            and not parent.evicted
-        ):
-            self._full_evictable -= len(parent.key)
-
         new_node = MambaTreeNode()
         new_node.parent = parent
         new_node.key = key
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 80f3d6f..e7d3fec 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -639,14 +639,6 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         swa_tombstone: bool = False,
     ) -> TreeNode:
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.lock_ref == 0
-            and not parent.evicted
-        ):
-            self._evictable_size -= len(parent.key)
-
         new_node = TreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From de2fb0147d48c52dde059ab0bf303c3ce9c8a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 05/76] fix: a fully cached one-token prompt must still be
 extended

The guard against a zero-length extend skipped prompts of length one, so a
repeated one-token prompt gave an empty forward pass.
---
 pymllm/orchestrator/model_runner_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d271468..584ac7b 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -723,8 +723,8 @@ class ModelRunnerProcess:
             #    where s1 (log-partition) is computed incorrectly, causing
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
-            if prefix_len >= full_seq_len - 1 and full_seq_len >= 2:
-                prefix_len = full_seq_len - 2
+            if prefix_len > 0 and prefix_len >= full_seq_len - 1:
+                prefix_len = max(full_seq_len - 2, 0)
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 91f19a6583f1f0ebf30e298a5395707c5251f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 06/76] fix: SWA prefix-cache insert frees each duplicate slot
 once and keeps its place

Insert went on below the wrong half after splitting a node, freed indices
the tree itself owns when the caller's prefix was already cached, and the
model runner then freed the duplicates a second time.  The last node was
not reported either.
---
 pymllm/mem_cache/base_prefix_cache.py       |  6 +++
 pymllm/mem_cache/radix_cache.py             | 44 ++++++++++++---------
 pymllm/orchestrator/model_runner_process.py | 26 ++++++++----
 3 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/pymllm/mem_cache/base_prefix_cache.py b/pymllm/mem_cache/base_prefix_cache.py
index a49355d..1f50e09 100644
--- a/pymllm/mem_cache/base_prefix_cache.py
+++ b/pymllm/mem_cache/base_prefix_cache.py
@@ -186,6 +186,12 @@ class BasePrefixCache(ABC):
         """Unlock *node* (and ancestors)."""
         ...
 
+    @property
+    def frees_duplicates(self) -> bool:
+        """Whether :meth:`insert` frees duplicate indices beyond
+        ``prev_prefix_len`` itself, instead of leaving them to the caller."""
+        return False
+
     # ------------------------------------------------------------------
     # Size queries (default implementations return 0)
     # ------------------------------------------------------------------
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index e7d3fec..9946496 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -169,6 +169,10 @@ class RadixCache(BasePrefixCache):
     def supports_swa(self) -> bool:
         return self.sliding_window_size is not None
 
+    @property
+    def frees_duplicates(self) -> bool:
+        return self.supports_swa
+
     # ------------------------------------------------------------------
     # Size queries
     # ------------------------------------------------------------------
@@ -259,7 +263,8 @@ class RadixCache(BasePrefixCache):
 
         Returns how many leading tokens were already present (the prefix
         length).  The caller is responsible for freeing duplicate KV indices
-        in the range ``[cache_protected_len, prefix_len)``.
+        in the range ``[cache_protected_len, prefix_len)``, except in SWA mode,
+        where the cache frees those beyond *prev_prefix_len* itself.
 
         Parameters
         ----------
@@ -274,10 +279,10 @@ class RadixCache(BasePrefixCache):
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
         if self.supports_swa:
-            plen = self._insert_swa(
+            plen, last_node = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
             )
-            return InsertResult(prefix_len=plen)
+            return InsertResult(prefix_len=plen, last_node=last_node)
         else:
             plen, last_node = self._insert_normal(self.root_node, key, value)
             return InsertResult(prefix_len=plen, last_node=last_node)
@@ -570,8 +575,8 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         prev_prefix_len: int,
         swa_evicted_seqlen: int,
-    ) -> int:
-        """Insert with SWA tombstone awareness.
+    ) -> Tuple[int, TreeNode]:
+        """Insert with SWA tombstone awareness.  Returns ``(prefix_len, last_node)``.
 
         When an existing node is tombstoned and the incoming *value* carries
         fresh SWA KV (i.e. beyond *swa_evicted_seqlen*), the node is
@@ -580,7 +585,7 @@ class RadixCache(BasePrefixCache):
         now = time.monotonic()
         node.last_access_time = now
         if len(key) == 0:
-            return 0
+            return 0, node
 
         total_prefix = 0
         while len(key) > 0:
@@ -592,19 +597,23 @@ class RadixCache(BasePrefixCache):
             plen = _key_match(node.key, key, self.page_size)
 
             if plen < len(node.key):
-                self._split_node(node.key, node, plen)
+                node = self._split_node(node.key, node, plen)
 
-            beyond_protected = prev_prefix_len < total_prefix + plen
-            if beyond_protected and node.swa_tombstone:
+            # Only indices beyond the protected prefix belong to the caller;
+            # the ones before it are already owned by the tree.
+            first_diff = max(0, prev_prefix_len - total_prefix)
+            if first_diff < plen and node.swa_tombstone:
                 if swa_evicted_seqlen <= total_prefix:
-                    self._free_indices(node.value[:plen])
-                    node.value = value[:plen].clone()
+                    self._free_indices(node.value[first_diff:plen])
+                    node.value = torch.cat(
+                        [node.value[:first_diff], value[first_diff:plen]]
+                    )
                     node.swa_tombstone = False
                     self._swa_evictable_size += len(node.value)
                 else:
-                    self._free_indices(value[:plen])
-            elif beyond_protected:
-                self._free_indices(value[:plen])
+                    self._free_indices(value[first_diff:plen])
+            elif first_diff < plen:
+                self._free_indices(value[first_diff:plen])
 
             total_prefix += plen
             key = key[plen:]
@@ -616,17 +625,16 @@ class RadixCache(BasePrefixCache):
                 and swa_evicted_seqlen < total_prefix + len(key)
             ):
                 tomb_len = swa_evicted_seqlen - total_prefix
-                self._add_leaf(
+                node = self._add_leaf(
                     node, key[:tomb_len], value[:tomb_len], swa_tombstone=True
                 )
-                node = node.children[_child_key(key, self.page_size)]
                 key = key[tomb_len:]
                 value = value[tomb_len:]
 
             if len(key) > 0:
-                self._add_leaf(node, key, value, swa_tombstone=False)
+                node = self._add_leaf(node, key, value, swa_tombstone=False)
 
-        return total_prefix
+        return total_prefix, node
 
     # ------------------------------------------------------------------
     # Internal: tree manipulation
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 584ac7b..646aa43 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -554,11 +554,13 @@ class ModelRunnerProcess:
                 )
 
             key = RadixKey(input_ids)
-            result = cache.insert(key, kv_indices)
+            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            result = cache.insert(
+                key, kv_indices, prev_prefix_len=cache_protected_len
+            )
             new_prefix_len = result.prefix_len
 
             # --- Step 2: free duplicates ---
-            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
             if _dbg:
                 logger.debug(
                     "[CACHE INSERT] rid=%s insert prefix_len=%d cache_protected=%d",
@@ -566,7 +568,7 @@ class ModelRunnerProcess:
                     new_prefix_len,
                     cache_protected_len,
                 )
-            if new_prefix_len > cache_protected_len:
+            if new_prefix_len > cache_protected_len and not cache.frees_duplicates:
                 dup_indices = kv_indices[cache_protected_len:new_prefix_len]
                 if _dbg:
                     logger.debug(
@@ -1060,11 +1062,16 @@ class ModelRunnerProcess:
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
-                result = cache.insert(key, prompt_kv)
+                result = cache.insert(
+                    key, prompt_kv, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if (
+                    new_prefix_len > cache_protected_len
+                    and not cache.frees_duplicates
+                ):
                     dup_indices = prompt_kv[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
@@ -1078,11 +1085,16 @@ class ModelRunnerProcess:
                 if output_ids:
                     full_token_ids.extend(output_ids)
                 key = RadixKey(full_token_ids)
-                result = cache.insert(key, all_kv_indices)
+                result = cache.insert(
+                    key, all_kv_indices, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if (
+                    new_prefix_len > cache_protected_len
+                    and not cache.frees_duplicates
+                ):
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
-- 
2.43.0


From 246b7956f8e747fc9a64c4e1e8cfea4d1c6e8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 07/76] fix: SWA prefix lookups refresh the LRU timestamps

match_prefix documents that it does, but only the non-SWA walk did, so
eviction in SWA mode removed the hottest prefixes first.
---
 pymllm/mem_cache/radix_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 9946496..aee3aaf 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -497,6 +497,8 @@ class RadixCache(BasePrefixCache):
         the sliding window, or a tombstone-free path to root).
         """
         node = self.root_node
+        now = time.monotonic()
+        node.last_access_time = now
         values: List[torch.Tensor] = []
         non_tomb_len: float = float("inf")
         best_count = 0
@@ -507,6 +509,8 @@ class RadixCache(BasePrefixCache):
             if ck not in node.children:
                 break
             child = node.children[ck]
+            child.last_access_time = now
+            child.hit_count += 1
 
             if child.swa_tombstone:
                 if non_tomb_len >= self.sliding_window_size:
-- 
2.43.0


From 97444e4e4e2cac0b0ab247efdeb9f6632ee61d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 08/76] fix: prefix caches store whole pages only

With radix_cache_page_size > 1 keys were inserted unaligned while lookups
are aligned, which left unreachable leaves and wrong slot counts; the
caller now keeps and frees the unaligned tail.
---
 pymllm/mem_cache/mamba_radix_cache.py       |  4 ++++
 pymllm/mem_cache/radix_cache.py             |  3 +++
 pymllm/orchestrator/model_runner_process.py | 16 ++++++++++++----
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 55d82e2..dad1684 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -384,6 +384,10 @@ class MambaRadixCache(BasePrefixCache):
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
+        # Only whole pages are cached; the caller keeps the unaligned tail.
+        key = self._page_align_key(key)
+        value = value[: len(key)]
+
         if len(key) == 0:
             return InsertResult()
 
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index aee3aaf..c3a6aad 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -278,6 +278,9 @@ class RadixCache(BasePrefixCache):
         """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
+        # Only whole pages are cached; the caller keeps the unaligned tail.
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if self.supports_swa:
             plen, last_node = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 646aa43..76df95d 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1060,7 +1060,6 @@ class ModelRunnerProcess:
                 # Hybrid model: insert only prompt tokens (not decode)
                 # because GDN state is only tracked at the prompt boundary.
                 prompt_kv = all_kv_indices[:prompt_len]
-                decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
                 result = cache.insert(
                     key, prompt_kv, prev_prefix_len=cache_protected_len
@@ -1076,9 +1075,12 @@ class ModelRunnerProcess:
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
 
-                # Free decode KV indices (tree does not own them)
-                if decode_kv.numel() > 0:
-                    runner.token_to_kv_pool_allocator.free(decode_kv)
+                # Free the unaligned prompt tail and the decode KV indices
+                # (tree does not own them)
+                page_size = cache.page_size
+                tail = all_kv_indices[prompt_len // page_size * page_size :]
+                if tail.numel() > 0:
+                    runner.token_to_kv_pool_allocator.free(tail)
             else:
                 # Non-hybrid or no decode tokens: insert full sequence
                 full_token_ids = list(input_ids)
@@ -1099,6 +1101,12 @@ class ModelRunnerProcess:
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
 
+                # Free the unaligned tail (the tree caches whole pages only)
+                page_size = cache.page_size
+                tail = all_kv_indices[total_len // page_size * page_size :]
+                if tail.numel() > 0:
+                    runner.token_to_kv_pool_allocator.free(tail)
+
             did_insert = True
 
         # ----------------------------------------------------------
-- 
2.43.0


From b971cef8576eae0b88ad07db2dc635eea3e6c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 09/76] fix: hybrid models reuse a prefix only with the
 recurrent state that ends exactly there

---
 pymllm/orchestrator/model_runner_process.py | 38 ++++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 76df95d..156b470 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -635,16 +635,20 @@ class ModelRunnerProcess:
                 self._rid_to_radix_lock[rid] = (new_last_node, swa_id)
 
             # --- GDN track slot association (hybrid models) ---
-            if gdn_pool is not None and result.last_node is not None:
-                track_slot = self._rid_to_gdn_track_slot.get(rid)
+            if gdn_pool is not None:
+                track_slot = self._rid_to_gdn_track_slot.pop(rid, None)
                 if track_slot is not None:
-                    node_id = result.last_node.id
-                    old_ts = self._node_id_to_gdn_track_slot.get(node_id)
-                    if old_ts is None:
-                        self._node_id_to_gdn_track_slot[node_id] = track_slot
+                    node = result.last_node
+                    # The snapshot is the state after the whole prompt, so it
+                    # only fits a node that ends exactly there.
+                    if (
+                        node is not None
+                        and len(new_indices) == seq_len
+                        and node.id not in self._node_id_to_gdn_track_slot
+                    ):
+                        self._node_id_to_gdn_track_slot[node.id] = track_slot
                     else:
                         gdn_pool.free_track_slot(track_slot)
-                        self._rid_to_gdn_track_slot.pop(rid, None)
 
     # ------------------------------------------------------------------
     # KV allocation helpers
@@ -726,7 +730,14 @@ class ModelRunnerProcess:
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
             if prefix_len > 0 and prefix_len >= full_seq_len - 1:
-                prefix_len = max(full_seq_len - 2, 0)
+                if gdn_pool is not None:
+                    # The recurrent snapshot belongs to the end of the matched
+                    # node and cannot be rewound, so a hit that has to be
+                    # shortened cannot be used at all.
+                    prefix_len = 0
+                    last_node = None
+                    cached_indices = None
+                prefix_len = max(min(prefix_len, full_seq_len - 2), 0)
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
@@ -872,7 +883,7 @@ class ModelRunnerProcess:
                 # Allocate a track slot only when the radix cache is enabled;
                 # track slots are freed via the eviction callback so they must
                 # be associated with a node, which only happens when cache is on.
-                if cache is not None:
+                if cache is not None and not isinstance(cache, ChunkCache):
                     ts = gdn_pool.alloc_track_slot()
                     if ts is not None:
                         self._rid_to_gdn_track_slot[rid] = ts
@@ -1028,10 +1039,11 @@ class ModelRunnerProcess:
         radix_lock = self._rid_to_radix_lock.pop(rid, None)
         self._rid_to_mrope_delta.pop(rid, None)
 
-        # Free GDN track slot (if any) — the slot's association with a
-        # radix node is managed separately via _node_id_to_gdn_track_slot
-        # and the eviction callback; here we just remove the rid mapping.
-        self._rid_to_gdn_track_slot.pop(rid, None)
+        # Free a GDN track slot that was never handed over to a radix node
+        # (slots of nodes are freed via the eviction callback).
+        track_slot = self._rid_to_gdn_track_slot.pop(rid, None)
+        if track_slot is not None:
+            runner.gdn_pool.free_track_slot(track_slot)
 
         cache_enabled = cache is not None and not isinstance(cache, ChunkCache)
 
-- 
2.43.0


From e3b593ec74db1a88ace173eb97c2a83dae5a1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 10/76] fix: a result arriving at the receive timeout is not
 dropped

---
 .../orchestrator/request_response_process.py  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index f59ffa5..2c3d171 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -191,18 +191,25 @@ class RequestResponseProcess:
     async def _recv_loop(self) -> None:
         """Receive decoded results from DetokenizerProcess and dispatch to ReqStates."""
         last_cleanup = time.time()
+        recv_future: Optional[asyncio.Future] = None
         while True:
             # Use a timeout so that stale-state cleanup runs even when no
-            # results are flowing back from the detokenizer.
-            try:
-                result = await asyncio.wait_for(
-                    self._recv_from_detokenizer.recv_pyobj(),
-                    timeout=self._CLEANUP_INTERVAL,
+            # results are flowing back from the detokenizer.  The pending
+            # receive outlives the timeout: cancelling it could drop a result
+            # that arrives at that very moment.
+            if recv_future is None:
+                recv_future = asyncio.ensure_future(
+                    self._recv_from_detokenizer.recv_pyobj()
                 )
-            except asyncio.TimeoutError:
+            done, _ = await asyncio.wait(
+                {recv_future}, timeout=self._CLEANUP_INTERVAL
+            )
+            if not done:
                 self._cleanup_stale_states()
                 last_cleanup = time.time()
                 continue
+            result = recv_future.result()
+            recv_future = None
 
             rid = result.get("rid")
             state = self._rid_to_state.get(rid)
-- 
2.43.0


From dfc04709ea001d1e6dbaeb7ae341061251d2a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 11/76] fix: stale-request timeouts do not depend on the wall
 clock

---
 pymllm/orchestrator/request_response_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 2c3d171..2671254 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -40,7 +40,7 @@ class ReqState:
     out_list: List[Dict[str, Any]] = dataclasses.field(default_factory=list)
     finished: bool = False
     event: asyncio.Event = dataclasses.field(default_factory=asyncio.Event)
-    created_at: float = dataclasses.field(default_factory=time.time)
+    created_at: float = dataclasses.field(default_factory=time.monotonic)
 
 
 class RequestResponseProcess:
@@ -190,7 +190,7 @@ class RequestResponseProcess:
 
     async def _recv_loop(self) -> None:
         """Receive decoded results from DetokenizerProcess and dispatch to ReqStates."""
-        last_cleanup = time.time()
+        last_cleanup = time.monotonic()
         recv_future: Optional[asyncio.Future] = None
         while True:
             # Use a timeout so that stale-state cleanup runs even when no
@@ -206,7 +206,7 @@ class RequestResponseProcess:
             )
             if not done:
                 self._cleanup_stale_states()
-                last_cleanup = time.time()
+                last_cleanup = time.monotonic()
                 continue
             result = recv_future.result()
             recv_future = None
@@ -222,14 +222,14 @@ class RequestResponseProcess:
             state.event.set()
 
             # Also run cleanup on the normal path when enough time has passed
-            now = time.time()
+            now = time.monotonic()
             if now - last_cleanup > self._CLEANUP_INTERVAL:
                 last_cleanup = now
                 self._cleanup_stale_states()
 
     def _cleanup_stale_states(self) -> None:
         """Remove request states that have been pending longer than ``_STALE_TIMEOUT``."""
-        now = time.time()
+        now = time.monotonic()
         stale = [
             r
             for r, s in self._rid_to_state.items()
-- 
2.43.0


From 79e8a80c72935dd512e5eb7b3391e27d83484b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 12/76] fix: an abort never overtakes the request it aborts

---
 pymllm/orchestrator/request_response_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 2671254..058aa90 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -156,7 +156,9 @@ class RequestResponseProcess:
             state.out_list.append({"rid": rid, "error": "aborted", "finished": True})
             state.event.set()
         if self._send_to_tokenizer is not None:
-            await self._send_to_tokenizer.send_pyobj({"rid": rid, "abort": True})
+            # Goes through the same queue as the requests, so that it can never
+            # overtake the request it aborts.
+            await self._request_queue.put({"rid": rid, "abort": True})
 
     async def shutdown(self) -> None:
         if self._loop_task is not None:
-- 
2.43.0


From 604bd036cdc3fd0fddb5021646836d625794b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 13/76] fix: refuse requests that can never fit and reserve
 room for the tokens admitted requests may generate

---
 pymllm/orchestrator/detokenizer_process.py  |  7 +++
 pymllm/orchestrator/model_runner_process.py | 10 ++++
 pymllm/orchestrator/scheduler_process.py    | 62 ++++++++++++++++++++-
 3 files changed, 76 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 7b8bf26..8c02618 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -121,11 +121,18 @@ class DetokenizerProcess:
         llm_prefill_ms_list = token_id_out.get("llm_prefill_ms", [])
         llm_decode_ms_list = token_id_out.get("llm_decode_ms", [])
 
+        errors: List[str] = token_id_out.get("errors", [])
+
         results: List[Dict[str, Any]] = []
 
         for i, rid in enumerate(rids):
             finished_reason = finished_reasons[i] if i < len(finished_reasons) else None
             is_finished = finished_reason is not None
+            if i < len(errors):
+                # The request was refused: pass the error on to its caller.
+                self._rid_to_prev_text.pop(rid, None)
+                results.append({"rid": rid, "error": errors[i], "finished": True})
+                continue
             skip_special = (
                 skip_special_tokens_list[i]
                 if i < len(skip_special_tokens_list)
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 156b470..cb7978f 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -650,6 +650,16 @@ class ModelRunnerProcess:
                     else:
                         gdn_pool.free_track_slot(track_slot)
 
+    @property
+    def context_len(self) -> int:
+        """Longest sequence (prompt and new tokens) a request may reach."""
+        return self._runner.context_len
+
+    @property
+    def kv_capacity(self) -> int:
+        """Total number of token slots in the KV pool."""
+        return self._runner.token_to_kv_pool_allocator.size
+
     # ------------------------------------------------------------------
     # KV allocation helpers
     # ------------------------------------------------------------------
diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 29e05fe..ac4c7b6 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -508,7 +508,7 @@ class SchedulerProcess:
             if batch is not None:
                 result = self.run_batch(batch)
                 self.process_batch_result(batch, result)
-            else:
+            elif not self._finished:
                 # No work available -- sleep until a new request arrives
                 # on the ZMQ socket (or timeout).  Avoids busy-looping.
                 self._idle_sleeper.sleep()
@@ -652,9 +652,43 @@ class SchedulerProcess:
                 logprob_start_len=raw.logprob_start_len,
                 top_logprobs_num=raw.top_logprobs_num,
             )
+            error = self._limit_request(req)
+            if error is not None:
+                self._reject_request(req.rid, error)
+                continue
             self._pending_queue.append(req)
             logger.debug("Processed input request %s (len=%d)", req.rid, req.seq_len)
 
+    def _token_capacity(self) -> int:
+        """Number of KV tokens that running requests may hold together."""
+        capacity = self._max_total_tokens
+        if self._model_runner is not None:
+            capacity = min(capacity, self._model_runner.kv_capacity)
+        return capacity
+
+    def _limit_request(self, req: Req) -> Optional[str]:
+        """Cap ``max_new_tokens`` to the room behind the prompt.
+
+        Returns an error message when the request can never be scheduled.
+        """
+        limit = self._token_capacity()
+        if self._model_runner is not None:
+            limit = min(limit, self._model_runner.context_len)
+        if req.prompt_len == 0:
+            return "The prompt is empty"
+        if req.prompt_len > self._max_prefill_tokens:
+            return (
+                f"The prompt has {req.prompt_len} tokens, which exceeds the "
+                f"prefill limit of {self._max_prefill_tokens} tokens"
+            )
+        if req.prompt_len >= limit:
+            return (
+                f"The prompt has {req.prompt_len} tokens and leaves no room for "
+                f"new tokens (limit: {limit} tokens)"
+            )
+        req.max_new_tokens = min(req.max_new_tokens, limit - req.prompt_len)
+        return None
+
     # ------------------------------------------------------------------
     # Step 3: build the next batch
     # ------------------------------------------------------------------
@@ -694,17 +728,26 @@ class SchedulerProcess:
         remaining_pending: List[Req] = []
         prefill_token_budget = self._max_prefill_tokens
 
+        # KV tokens that the running requests may still grow to.  Admitting a
+        # request against this (not only against the tokens in use now) makes
+        # sure that a later decode step never runs out of KV slots.
+        token_capacity = self._token_capacity()
+        reserved_tokens = sum(
+            r.prompt_len + r.max_new_tokens for r in self._running_batch
+        )
+
         for req in self._pending_queue:
             input_len = len(req.input_ids)
             total_running = len(self._running_batch) + len(new_prefill)
 
             # Check capacity constraints.
-            # We reserve the full input_len as KV budget (conservative).
+            # We charge the full input_len to the KV budget (conservative).
             # If the model runner finds a prefix cache hit, some tokens
             # won't need new KV allocation; the budget is corrected in
             # process_batch_result.
             can_fit_request = total_running < self._max_running_requests
-            can_fit_tokens = (self._used_tokens + input_len) <= self._max_total_tokens
+            req_tokens = input_len + req.max_new_tokens
+            can_fit_tokens = (reserved_tokens + req_tokens) <= token_capacity
             can_fit_prefill = input_len <= prefill_token_budget
 
             if can_fit_request and can_fit_tokens and can_fit_prefill:
@@ -713,6 +756,7 @@ class SchedulerProcess:
                 self._next_req_pool_idx += 1
                 # Reserve token budget (full input_len as conservative estimate)
                 self._used_tokens += input_len
+                reserved_tokens += req_tokens
                 prefill_token_budget -= input_len
                 new_prefill.append(req)
                 logger.debug(
@@ -1000,6 +1044,18 @@ class SchedulerProcess:
             len(req.output_ids),
         )
 
+    def _reject_request(self, rid: str, message: str) -> None:
+        """Answer a request that cannot be run with an error result."""
+        logger.warning("Rejecting request %s: %s", rid, message)
+        self._finished.append(
+            {
+                "rids": [rid],
+                "finished_reasons": ["error"],
+                "errors": [message],
+                "output_ids": [],
+            }
+        )
+
     def _free_req_resources(self, req: Req) -> None:
         """Release KV-cache token budget for a finished request.
 
-- 
2.43.0


From fcc5c8c87d296e7fb79cf407e5b3911429331fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 14/76] fix: hybrid-state and chunk caches accept the lock
 handle back and unlock exactly what was locked

---
 pymllm/mem_cache/chunk_cache.py       |  2 +-
 pymllm/mem_cache/mamba_radix_cache.py | 31 ++++++++++++++++++---------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/pymllm/mem_cache/chunk_cache.py b/pymllm/mem_cache/chunk_cache.py
index c53b2b6..60a8772 100644
--- a/pymllm/mem_cache/chunk_cache.py
+++ b/pymllm/mem_cache/chunk_cache.py
@@ -69,6 +69,6 @@ class ChunkCache(BasePrefixCache):
         """No-op: nothing to lock."""
         return None
 
-    def dec_lock_ref(self, node: Any, **kwargs: Any) -> None:
+    def dec_lock_ref(self, node: Any, boundary_id: Optional[Any] = None) -> None:
         """No-op: nothing to unlock."""
         pass
diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index dad1684..ca5a6d3 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -485,16 +485,23 @@ class MambaRadixCache(BasePrefixCache):
 
         Full lock propagates up to root.  Mamba lock only applies to
         the node itself (not ancestors).
+
+        Returns the id of the parent at lock time if the Mamba state was
+        locked, else ``None``.  It must be passed back to
+        :meth:`dec_lock_ref`, which then unlocks the same state even if the
+        node was split in between.
         """
         if node is None:
             return None
 
         # Lock mamba on the node itself
-        if node.mamba_value is not None:
-            if node.mamba_lock_ref == 0 and node in self.mamba_lru:
+        mamba_boundary_id: Optional[int] = None
+        if node != self.root_node and node.mamba_value is not None:
+            if node.mamba_lock_ref == 0:
                 self._mamba_evictable -= len(node.mamba_value)
                 self._mamba_protected += len(node.mamba_value)
             node.mamba_lock_ref += 1
+            mamba_boundary_id = node.parent.id
 
         # Lock full KV up to root
         cur = node
@@ -504,19 +511,23 @@ class MambaRadixCache(BasePrefixCache):
                 self._full_protected += len(cur.key)
             cur.full_lock_ref += 1
             cur = cur.parent
-        return None
+        return mamba_boundary_id
 
-    def dec_lock_ref(self, node: MambaTreeNode, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: MambaTreeNode, mamba_boundary_id: Optional[int] = None
+    ) -> None:
         """Unlock full KV and Mamba state."""
         if node is None:
             return
 
-        # Unlock mamba on the node itself
-        if node.mamba_lock_ref > 0:
-            node.mamba_lock_ref -= 1
-            if node.mamba_lock_ref == 0 and node.mamba_value is not None:
-                self._mamba_evictable += len(node.mamba_value)
-                self._mamba_protected -= len(node.mamba_value)
+        # Unlock the mamba state that inc_lock_ref locked
+        cur = node
+        while mamba_boundary_id is not None and cur.id != mamba_boundary_id:
+            cur.mamba_lock_ref -= 1
+            if cur.mamba_lock_ref == 0:
+                self._mamba_evictable += len(cur.mamba_value)
+                self._mamba_protected -= len(cur.mamba_value)
+            cur = cur.parent
 
         # Unlock full KV up to root
         cur = node
-- 
2.43.0


From ee058f0b661b960d6c580970bfb55ade4ff41663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 15/76] fix: a hybrid-state cache entry keeps the recurrent
 state of its own tokens only

---
 pymllm/mem_cache/mamba_radix_cache.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index ca5a6d3..52879cb 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -380,13 +380,21 @@ class MambaRadixCache(BasePrefixCache):
         mamba_value: Optional[torch.Tensor] = None,
         **kwargs: Any,
     ) -> InsertResult:
-        """Insert with both full KV and Mamba state values."""
+        """Insert with both full KV and Mamba state values.
+
+        ``mamba_value`` runs parallel to ``value``.  Like the KV indices, the
+        Mamba state is taken over for the part of *key* held by the returned
+        ``last_node`` only, and not at all when ``mamba_exist`` is set; the
+        caller keeps the rest.
+        """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
         # Only whole pages are cached; the caller keeps the unaligned tail.
         key = self._page_align_key(key)
         value = value[: len(key)]
+        if mamba_value is not None:
+            mamba_value = mamba_value[: len(key)]
 
         if len(key) == 0:
             return InsertResult()
@@ -406,19 +414,19 @@ class MambaRadixCache(BasePrefixCache):
             if plen < len(node.key):
                 node = self._split_node(node.key, node, plen)
 
-            # Check if mamba state already exists
-            if node.mamba_value is not None:
-                mamba_exist = True
-
             if len(key) > 0:
                 ck = _child_key(key, self.page_size)
 
         if len(key) > 0:
+            if mamba_value is not None:
+                mamba_value = mamba_value[total_prefix:]
             new_leaf = self._add_leaf(node, key, value, mamba_value=mamba_value)
             node = new_leaf
-        elif mamba_value is not None and node.mamba_value is None:
+        elif node.mamba_value is not None:
+            mamba_exist = True
+        elif mamba_value is not None:
             # Existing node gains mamba state (un-tombstone)
-            node.mamba_value = mamba_value.clone()
+            node.mamba_value = mamba_value[-len(node.value) :].clone()
             self.mamba_lru.insert_mru(node)
             self._mamba_evictable += len(node.value)
 
-- 
2.43.0


From 8c06e147df6597e684333a9e6dfcabbaf924a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 16/76] fix: streamed text only grows and the detokenizer keeps
 nothing for aborted requests

---
 pymllm/orchestrator/detokenizer_process.py | 40 ++++++++++++----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 8c02618..146ceaa 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -35,8 +35,6 @@ class DetokenizerProcess:
         self._send_to_rr: Optional[zmq.Socket] = None
 
         self._tokenizer = None
-        # Track previous decoded text per rid for incremental (delta) output
-        self._rid_to_prev_text: Dict[str, str] = {}
 
     # ------------------------------------------------------------------
     # Lifecycle
@@ -111,6 +109,7 @@ class DetokenizerProcess:
                 len(rids),
             )
         decode_ids: List[int] = token_id_out.get("decode_ids", [])
+        read_offsets: List[int] = token_id_out.get("read_offsets", [])
         skip_special_tokens_list: List[bool] = token_id_out.get(
             "skip_special_tokens", []
         )
@@ -130,7 +129,6 @@ class DetokenizerProcess:
             is_finished = finished_reason is not None
             if i < len(errors):
                 # The request was refused: pass the error on to its caller.
-                self._rid_to_prev_text.pop(rid, None)
                 results.append({"rid": rid, "error": errors[i], "finished": True})
                 continue
             skip_special = (
@@ -156,22 +154,13 @@ class DetokenizerProcess:
             )
 
             # Decode text from output_ids
-            if self._tokenizer is not None:
-                text = self._tokenizer.decode(
-                    output_ids,
-                    skip_special_tokens=skip_special,
-                )
-            else:
-                text = ""
-
-            # Compute incremental delta by diffing against previous text
-            prev_text = self._rid_to_prev_text.get(rid, "")
-            delta_text = text[len(prev_text):]
-            self._rid_to_prev_text[rid] = text
-
-            # Clean up tracking when request finishes
-            if is_finished:
-                self._rid_to_prev_text.pop(rid, None)
+            text = self._decode(output_ids, skip_special, is_finished)
+
+            # Compute incremental delta by diffing against the text of the
+            # tokens that were sent before.
+            read_offset = read_offsets[i] if i < len(read_offsets) else 0
+            prev_text = self._decode(output_ids[:read_offset], skip_special, False)
+            delta_text = text[len(prev_text) :]
 
             result: Dict[str, Any] = {
                 "rid": rid,
@@ -195,6 +184,19 @@ class DetokenizerProcess:
 
         return results
 
+    def _decode(
+        self, output_ids: List[int], skip_special: bool, is_finished: bool
+    ) -> str:
+        """Decode *output_ids* to the text that can be shown to the client.
+
+        A character may span several tokens.  While more tokens can follow, an
+        incomplete trailing character (decoded as U+FFFD) is held back.
+        """
+        if self._tokenizer is None or not output_ids:
+            return ""
+        text = self._tokenizer.decode(output_ids, skip_special_tokens=skip_special)
+        return text if is_finished else text.rstrip("\ufffd")
+
     # ------------------------------------------------------------------
     # Cleanup
     # ------------------------------------------------------------------
-- 
2.43.0


From 4ac7f399f020b529b7e6eada100a2719ce1b95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 17/76] fix: on the shared-memory path aborts are honoured and
 a failing request is answered and affects nobody else

---
 pymllm/orchestrator/scheduler_process.py   | 56 ++++++++++++++--------
 pymllm/orchestrator/shared_memory_queue.py |  5 +-
 pymllm/orchestrator/tokenizer_process.py   | 33 ++++++++-----
 3 files changed, 60 insertions(+), 34 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index ac4c7b6..2ca6047 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -530,11 +530,13 @@ class SchedulerProcess:
           dataclass – appended to ``_waiting_queue``.
         * A plain abort sentinel dict ``{"rid": ..., "abort": True}`` – handled
           inline by removing the matching rid from the waiting queue.
+        * A plain error dict ``{"rid": ..., "error": ...}`` for a request the
+          tokenizer could not process.
         """
         if self._enable_shared_queue and self._shared_queue is not None:
             self._recv_from_shared_queue()
-        else:
-            self._recv_from_zmq()
+        # Errors always arrive via ZMQ.
+        self._recv_from_zmq()
 
     def _recv_from_zmq(self) -> None:
         """Receive requests via legacy ZMQ path."""
@@ -545,20 +547,27 @@ class SchedulerProcess:
             msg = self._recv_from_tokenizer.recv_pyobj(zmq.NOBLOCK)
             # Abort sentinel: plain dict with "abort" key.
             if isinstance(msg, dict) and msg.get("abort"):
-                rid = msg.get("rid")
-                logger.debug("Scheduler received abort for rid=%s", rid)
-                self._waiting_queue = type(self._waiting_queue)(
-                    r for r in self._waiting_queue if r.rid != rid
-                )
-                # Also abort from pending queue
-                self._abort_request(rid)
+                self._handle_abort(msg.get("rid"))
+            elif isinstance(msg, dict) and "error" in msg:
+                # The tokenizer could not process this request.
+                self._reject_request(msg.get("rid"), msg["error"])
             else:
                 self._waiting_queue.append(msg)
 
+    def _handle_abort(self, rid: str) -> None:
+        """Drop *rid* from every queue it may be in."""
+        logger.debug("Scheduler received abort for rid=%s", rid)
+        self._waiting_queue = type(self._waiting_queue)(
+            r for r in self._waiting_queue if r.rid != rid
+        )
+        # Also abort from pending queue
+        self._abort_request(rid)
+
     def _recv_from_shared_queue(self) -> None:
         """Receive requests via shared memory + shared queue fast path.
 
-        After reading a ``(rid, shm_name, mm_inputs)`` tuple from the queue:
+        A tuple without ``shm_name`` is an abort sentinel.  Otherwise, after
+        reading a ``(rid, shm_name, mm_inputs)`` tuple from the queue:
         1. The tokenized metadata is read from the POSIX shared memory segment.
         2. If CUDA IPC is enabled, ``mm_inputs`` may contain
            :class:`~pymllm.orchestrator.cuda_ipc_transport.CudaIpcTensorTransportProxy`
@@ -572,7 +581,20 @@ class SchedulerProcess:
         while True:
             try:
                 rid, shm_name, mm_inputs = self._shared_queue.get(timeout=0.002)
+            except stdlib_queue.Empty:
+                break
+            except Exception as exc:
+                logger.error(
+                    "Error receiving from shared queue: %s", exc, exc_info=True
+                )
+                break
+
+            # Abort sentinel: no metadata segment.
+            if shm_name is None:
+                self._handle_abort(rid)
+                continue
 
+            try:
                 # Read metadata from shared memory (and unlink immediately)
                 metadata: TokenizedGenerateReqInput = SharedMemoryManager.read_metadata(
                     shm_name, unlink=True
@@ -600,18 +622,10 @@ class SchedulerProcess:
                 self._waiting_queue.append(full_request)
                 logger.debug("Received request %s from shared queue", rid)
 
-            except stdlib_queue.Empty:
-                break
             except Exception as exc:
-                logger.error(
-                    "Error receiving from shared queue: %s", exc, exc_info=True
-                )
-                try:
-                    if "shm_name" in locals():
-                        SharedMemoryManager.cleanup(shm_name)
-                except Exception:
-                    pass
-                break
+                logger.error("Error receiving request %s: %s", rid, exc, exc_info=True)
+                SharedMemoryManager.cleanup(shm_name)
+                self._reject_request(rid, f"Failed to receive the request: {exc}")
 
     # ------------------------------------------------------------------
     # Step 2: process input requests
diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 2f006bd..41de38b 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -172,7 +172,7 @@ class TensorQueue:
     def put(
         self,
         rid: str,
-        shm_name: str,
+        shm_name: Optional[str],
         mm_inputs: Optional[Dict[str, Any]],
     ) -> None:
         """Put a request into the queue.
@@ -183,7 +183,8 @@ class TensorQueue:
 
         Args:
             rid: Request ID.
-            shm_name: Shared memory segment name for the tokenized metadata.
+            shm_name: Shared memory segment name for the tokenized metadata
+                (``None`` for an abort of *rid*).
             mm_inputs: Multimodal inputs dict (may contain CUDA tensors).
         """
         if mm_inputs is not None:
diff --git a/pymllm/orchestrator/tokenizer_process.py b/pymllm/orchestrator/tokenizer_process.py
index e0e4139..cff7d78 100644
--- a/pymllm/orchestrator/tokenizer_process.py
+++ b/pymllm/orchestrator/tokenizer_process.py
@@ -134,14 +134,21 @@ class TokenizerProcess:
         )
         while True:
             raw_request: Dict[str, Any] = self._recv_from_rr.recv_pyobj()
-            tokenized = self._tokenize(raw_request)
+            try:
+                tokenized = self._tokenize(raw_request)
 
-            if self._enable_shared_queue and self._shared_queue is not None:
-                # Shared queue fast path
-                self._send_via_shared_queue(tokenized)
-            else:
-                # Legacy ZMQ path
-                self._send_to_scheduler.send_pyobj(tokenized)
+                if self._enable_shared_queue and self._shared_queue is not None:
+                    # Shared queue fast path
+                    self._send_via_shared_queue(tokenized)
+                else:
+                    # Legacy ZMQ path
+                    self._send_to_scheduler.send_pyobj(tokenized)
+            except Exception as exc:
+                # A failing request must not take the others down: report the
+                # error to its caller and carry on.
+                rid = raw_request.get("rid")
+                logger.error("Failed to tokenize request %s", rid, exc_info=True)
+                self._send_to_scheduler.send_pyobj({"rid": rid, "error": str(exc)})
 
     def _send_via_shared_queue(
         self, tokenized: Union[TokenizedGenerateReqInput, Dict[str, Any]]
@@ -156,12 +163,12 @@ class TokenizerProcess:
         * ``"cuda_ipc_pool"`` – copied into the :class:`MmItemMemoryPool` workspace and
           wrapped in :class:`CudaIpcTensorTransportProxy`.
 
-        Abort sentinel messages are forwarded via ZMQ (they are lightweight dicts).
+        Abort sentinel messages take the same queue (without a metadata segment),
+        so that they cannot overtake the request they abort.
         """
         # Handle abort sentinel
         if isinstance(tokenized, dict) and tokenized.get("abort"):
-            # Fallback to ZMQ for abort messages (no tensor payload)
-            self._send_to_scheduler.send_pyobj(tokenized)
+            self._shared_queue.put(tokenized.get("rid"), None, None)
             return
 
         assert isinstance(tokenized, TokenizedGenerateReqInput), (
@@ -195,7 +202,11 @@ class TokenizerProcess:
 
         # Put (rid, shm_name, mm_inputs) into shared queue
         # TensorQueue.put() handles wrapping mm_inputs based on transport_mode
-        self._shared_queue.put(rid, shm_name, mm_inputs)
+        try:
+            self._shared_queue.put(rid, shm_name, mm_inputs)
+        except Exception:
+            SharedMemoryManager.cleanup(shm_name)
+            raise
 
         logger.debug(
             "Sent request %s via shared queue (shm=%s, transport=%s)",
-- 
2.43.0


From 4b158e1ec979089df70f9b59b6a3ca2664427369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 18/76] fix: any request id can cross the shared-memory path

---
 pymllm/orchestrator/shared_memory_queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 41de38b..34fe40e 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -77,7 +77,7 @@ class SharedMemoryManager:
         """Write metadata to shared memory and return the segment name.
 
         Args:
-            rid: Request ID (used as part of the shared memory name)
+            rid: Request ID
             metadata: Serializable metadata object
 
         Returns:
@@ -85,7 +85,8 @@ class SharedMemoryManager:
         """
         data = pickle.dumps(metadata)
         size = len(data)
-        shm_name = f"pymllm_meta_{rid}_{uuid.uuid4().hex[:8]}"
+        # The rid is chosen by the caller, so it may not be a valid file name.
+        shm_name = f"pymllm_meta_{uuid.uuid4().hex}"
         try:
             shm = SharedMemory(name=shm_name, create=True, size=size)
             shm.buf[:size] = data
-- 
2.43.0


From 8361734677cc81db2a3470e2d14e760464c8350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 19/76] fix: a malformed request is refused instead of failing
 the scheduler

Sampling parameters of the wrong type, not-finite numbers and token ids outside the vocabulary raised inside the scheduler loop or the forward pass and ended the process for everybody. A batch with a single member sent its lists on as if they were one request.
---
 pymllm/engine/io_struct.py                  |  2 +-
 pymllm/orchestrator/model_runner_process.py |  5 ++
 pymllm/orchestrator/scheduler_process.py    | 60 ++++++++++++++++++++-
 3 files changed, 64 insertions(+), 3 deletions(-)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index 06c8d78..f948af3 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -85,7 +85,7 @@ class GenerateReqInput(BaseReq):
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-        if self.batch_size == 1:
+        if self.is_single:
             return self
         return GenerateReqInput(
             rid=self._pick(self.rid, i),
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index cb7978f..30089d2 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -655,6 +655,11 @@ class ModelRunnerProcess:
         """Longest sequence (prompt and new tokens) a request may reach."""
         return self._runner.context_len
 
+    @property
+    def vocab_size(self) -> int:
+        """Number of valid token ids (0 when unknown)."""
+        return self._runner.vocab_size
+
     @property
     def kv_capacity(self) -> int:
         """Total number of token slots in the KV pool."""
diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 2ca6047..64748c6 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -29,6 +29,7 @@ The main ``event_loop``::
 """
 
 import logging
+import math
 import queue as stdlib_queue
 import time
 from collections import deque
@@ -644,8 +645,14 @@ class SchedulerProcess:
         while self._waiting_queue:
             raw = self._waiting_queue.popleft()
 
-            # Merge EOS token into stop_token_ids if not already present
-            sp = dict(raw.sampling_params) if raw.sampling_params else {}
+            error = self._check_request(raw)
+            if error is not None:
+                self._reject_request(raw.rid, error)
+                continue
+
+            # Merge EOS token into stop_token_ids if not already present.
+            # A parameter given as None is the same as one not given.
+            sp = {k: v for k, v in (raw.sampling_params or {}).items() if v is not None}
             # Inject model-aware default for max_new_tokens when not provided
             if "max_new_tokens" not in sp:
                 sp["max_new_tokens"] = self._default_max_new_tokens
@@ -673,6 +680,55 @@ class SchedulerProcess:
             self._pending_queue.append(req)
             logger.debug("Processed input request %s (len=%d)", req.rid, req.seq_len)
 
+    def _check_request(self, raw: TokenizedGenerateReqInput) -> Optional[str]:
+        """Check what would otherwise fail inside a forward pass.
+
+        One malformed request must not take down the scheduler and with it
+        every other request.  Returns an error message, or None.
+        """
+        sp = raw.sampling_params or {}
+        if not isinstance(sp, dict):
+            return "sampling_params must be a dict"
+
+        def is_int(v: Any) -> bool:
+            return isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**31
+
+        for name in ("max_new_tokens", "top_k"):
+            v = sp.get(name)
+            if v is not None and not is_int(v):
+                return f"{name} must be an integer, got {v!r}"
+        for name in (
+            "temperature",
+            "top_p",
+            "repetition_penalty",
+            "frequency_penalty",
+            "presence_penalty",
+        ):
+            v = sp.get(name)
+            if v is None:
+                continue
+            if (
+                not isinstance(v, (int, float))
+                or isinstance(v, bool)
+                or not math.isfinite(v)
+            ):
+                return f"{name} must be a finite number, got {v!r}"
+            if name == "top_p" and v < 0 or name == "repetition_penalty" and v <= 0:
+                return f"{name} must be positive, got {v!r}"
+        stop_ids = sp.get("stop_token_ids")
+        if stop_ids is not None and not (
+            isinstance(stop_ids, (list, tuple)) and all(is_int(t) for t in stop_ids)
+        ):
+            return f"stop_token_ids must be a list of integers, got {stop_ids!r}"
+
+        vocab_size = 0
+        if self._model_runner is not None:
+            vocab_size = self._model_runner.vocab_size
+        for t in raw.input_ids:
+            if not is_int(t) or t < 0 or (vocab_size and t >= vocab_size):
+                return f"Invalid token id in input_ids: {t!r}"
+        return None
+
     def _token_capacity(self) -> int:
         """Number of KV tokens that running requests may hold together."""
         capacity = self._max_total_tokens
-- 
2.43.0


From da9aa308d8632c9c789e4f0171fbc48218d9a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 20/76] fix: synchronous generate can be called repeatedly and
 a live request id cannot be taken over

Every generate() call used a loop of its own while the background tasks stayed on the first, so the second call hung; its request state was never removed. A request under an id that is still in use replaced the state of the first, whose caller hung. A request answered with a timeout kept on generating.
---
 pymllm/engine/launch.py                       | 48 ++++++++++++-------
 .../orchestrator/request_response_process.py  | 10 +++-
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 8fd39ca..7523dc1 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -133,6 +133,9 @@ class Engine:
         self._rr_process: Optional[RequestResponseProcess] = None
         self._ipc_uid: Optional[str] = None
         self._subprocess_healthy: bool = True
+        # Event loop of the synchronous generate() calls.
+        self._sync_loop: Optional[asyncio.AbstractEventLoop] = None
+        self._sync_lock = threading.Lock()
         self._config_logging()
         self._set_default_torch_dtype()
         self._check_model_and_tokenizer()
@@ -390,22 +393,31 @@ class Engine:
         async def _run() -> Union[Dict[str, Any], List[Dict[str, Any]]]:
             max_queued = get_global_config().server.max_queued_requests
             result = await self._rr_process.add_request(request, max_queued=max_queued)
-            if request.is_single:
-                single_rid = rid if isinstance(rid, str) else rid[0]
-                return await self._wait_for_final_result(single_rid, result)  # type: ignore[arg-type]
-            # Batch: wait for every sub-request concurrently.
-            rids_list: List[str] = rid if isinstance(rid, list) else [rid]  # type: ignore[assignment]
-            states: List[ReqState] = result  # type: ignore[assignment]
-            outputs = await asyncio.gather(
-                *(self._wait_for_final_result(r, s) for r, s in zip(rids_list, states))
-            )
-            return list(outputs)
+            rids_list: List[str] = rid if isinstance(rid, list) else [rid]
+            states: List[ReqState] = [result] if request.is_single else result  # type: ignore[assignment,list-item]
+            try:
+                # Wait for every sub-request concurrently.
+                outputs = await asyncio.gather(
+                    *(
+                        self._wait_for_final_result(r, s)
+                        for r, s in zip(rids_list, states)
+                    )
+                )
+            finally:
+                for r, s in zip(rids_list, states):
+                    if not s.finished:
+                        await self._rr_process.abort_request(r)
+                    else:
+                        self._rr_process.remove_state(r)
+            return outputs[0] if request.is_single else list(outputs)
 
-        loop = asyncio.new_event_loop()
-        try:
-            return loop.run_until_complete(_run())
-        finally:
-            loop.close()
+        # All synchronous calls share one loop: the background tasks and the
+        # sockets of RequestResponseProcess stay bound to the loop they were
+        # started on.
+        with self._sync_lock:
+            if self._sync_loop is None:
+                self._sync_loop = asyncio.new_event_loop()
+            return self._sync_loop.run_until_complete(_run())
 
     async def generate_async(
         self,
@@ -569,8 +581,10 @@ class Engine:
                 # schedule cleanup as a fire-and-forget task.
                 loop.create_task(self._rr_process.shutdown())
             except RuntimeError:
-                # No running loop — create a temporary one for cleanup.
-                loop = asyncio.new_event_loop()
+                # No running loop — use the one of the synchronous calls, or a
+                # temporary one, for cleanup.
+                loop = self._sync_loop or asyncio.new_event_loop()
+                self._sync_loop = None
                 try:
                     loop.run_until_complete(self._rr_process.shutdown())
                 finally:
diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 058aa90..739f9e1 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -126,8 +126,14 @@ class RequestResponseProcess:
         if max_queued is not None and self._request_queue.qsize() >= max_queued:
             raise RuntimeError("Server overloaded: too many queued requests")
 
+        rids = [request.rid] if isinstance(request.rid, str) else list(request.rid)
+        for i, rid in enumerate(rids):
+            # A second request under a live rid would take over its results.
+            if rid in self._rid_to_state or rid in rids[:i]:
+                raise ValueError(f"Request id {rid!r} is already in use")
+
         if request.is_single:
-            rid = request.rid if isinstance(request.rid, str) else request.rid[0]
+            rid = rids[0]
             state = ReqState()
             self._rid_to_state[rid] = state
             await self._request_queue.put(request.to_request_dict())
@@ -243,3 +249,5 @@ class RequestResponseProcess:
             s.finished = True
             s.out_list.append({"rid": r, "error": "timeout", "finished": True})
             s.event.set()
+            # Nobody waits for it any more: stop generating.
+            self._request_queue.put_nowait({"rid": r, "abort": True})
-- 
2.43.0


From 5930c7da77750361f1d901b19518b3ad3d16146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 21/76] fix: a worker that dies during start-up makes launch
 fail

The parent kept the write ends of the readiness pipes open, so it waited forever for the message of a worker that had died. A failed launch also left the other workers running.
---
 pymllm/engine/launch.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 7523dc1..7f26848 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -146,7 +146,12 @@ class Engine:
         return self._subprocess_healthy
 
     def launch(self) -> None:
-        self._launch_processes()
+        try:
+            self._launch_processes()
+        except BaseException:
+            # Do not leave half an engine behind.
+            self.shutdown()
+            raise
         self._start_health_monitor()
         atexit.register(self.shutdown)
 
@@ -245,7 +250,9 @@ class Engine:
             ),
             daemon=True,
         )
-        procs_and_readers.append((tokenizer_proc, tokenizer_reader, "tokenizer"))
+        procs_and_readers.append(
+            (tokenizer_proc, tokenizer_reader, tokenizer_writer, "tokenizer")
+        )
 
         # Determine default max_new_tokens from model config (if available)
         model_max_new_tokens = _get_model_default_max_new_tokens(cfg.model.hf_config)
@@ -283,7 +290,9 @@ class Engine:
             kwargs=scheduler_kwargs,
             daemon=True,
         )
-        procs_and_readers.append((scheduler_proc, scheduler_reader, "scheduler"))
+        procs_and_readers.append(
+            (scheduler_proc, scheduler_reader, scheduler_writer, "scheduler")
+        )
 
         # Detokenizer
         detokenizer_reader, detokenizer_writer = mp.Pipe(duplex=False)
@@ -297,16 +306,21 @@ class Engine:
             ),
             daemon=True,
         )
-        procs_and_readers.append((detokenizer_proc, detokenizer_reader, "detokenizer"))
+        procs_and_readers.append(
+            (detokenizer_proc, detokenizer_reader, detokenizer_writer, "detokenizer")
+        )
 
         # Start all subprocesses
-        for proc, _, name in procs_and_readers:
+        for proc, _, writer, name in procs_and_readers:
             proc.start()
+            # Only the child may hold the write end, so that its death is seen
+            # as end-of-file below.
+            writer.close()
             self._subprocesses.append(proc)
             logger.info("Started %s process (pid=%s)", name, proc.pid)
 
         # Wait for readiness signals
-        for _, reader, name in procs_and_readers:
+        for _, reader, _, name in procs_and_readers:
             try:
                 msg = reader.recv()
             except EOFError:
-- 
2.43.0


From 4740a177898416ec14d0d1e1d7692d6a47178245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 22/76] fix: prompts with images share no prefix-cache entries
 with other prompts

The cache key was the token ids alone, so a prompt with another image under the same placeholder tokens got the cached entries of the first, and a partly cached image prompt failed the forward pass for everybody. Qwen3-VL also restarted text positions at zero behind a cached prefix.
---
 pymllm/models/qwen3_vl.py                   |  5 +++++
 pymllm/orchestrator/model_runner_process.py | 21 +++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 273a291..e786a28 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -1192,6 +1192,11 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                     self.vision_start_token_id,
                     self.spatial_merge_size,
                 )
+                prefix_lens = getattr(forward_batch, "extend_prefix_lens", None)
+                if prefix_lens is not None:
+                    # Tokens served from the prefix cache come first (text
+                    # only: prompts with images are never cached partially).
+                    pos3d = pos3d + int(prefix_lens[i].item())
                 mrope_positions_list.append(pos3d)
                 deltas.append(delta)
 
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 30089d2..81169ae 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -82,6 +82,13 @@ class ModelRunnerProcess:
         # tokens due to 3-D image grid positions.
         self._rid_to_mrope_delta: Dict[str, int] = {}
 
+        # Maps rid -> prefix-cache namespace (multimodal requests only).  The
+        # KV entries of placeholder tokens depend on the image data, and the
+        # vision features of a prompt cannot be processed partially, so such a
+        # request shares no cache entries with any other.
+        self._rid_to_extra_key: Dict[str, str] = {}
+        self._mm_request_count: int = 0
+
         # GDN prefix cache state tracking (hybrid models only):
         # Maps rid -> GDN track slot index in GDNPool (for snapshotting state)
         self._rid_to_gdn_track_slot: Dict[str, int] = {}
@@ -553,7 +560,7 @@ class ModelRunnerProcess:
                     kv_indices[: min(seq_len, 8)].tolist(),
                 )
 
-            key = RadixKey(input_ids)
+            key = RadixKey(input_ids, self._rid_to_extra_key.get(rid))
             cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
             result = cache.insert(
                 key, kv_indices, prev_prefix_len=cache_protected_len
@@ -702,9 +709,14 @@ class ModelRunnerProcess:
 
             # Store input_ids for later radix cache insert
             self._rid_to_input_ids[m["rid"]] = full_input_ids
+            if m.get("mm_inputs") is not None:
+                self._mm_request_count += 1
+                self._rid_to_extra_key[m["rid"]] = f"mm-{self._mm_request_count}"
 
             if cache is not None and len(full_input_ids) > 0:
-                key = RadixKey(full_input_ids)
+                key = RadixKey(
+                    full_input_ids, self._rid_to_extra_key.get(m["rid"])
+                )
                 match_result = cache.match_prefix(key)
                 prefix_len = match_result.prefix_len
                 last_node = match_result.last_node
@@ -1053,6 +1065,7 @@ class ModelRunnerProcess:
         cache_protected_len = self._rid_to_cache_protected_len.pop(rid, 0)
         radix_lock = self._rid_to_radix_lock.pop(rid, None)
         self._rid_to_mrope_delta.pop(rid, None)
+        extra_key = self._rid_to_extra_key.pop(rid, None)
 
         # Free a GDN track slot that was never handed over to a radix node
         # (slots of nodes are freed via the eviction callback).
@@ -1087,7 +1100,7 @@ class ModelRunnerProcess:
                 # Hybrid model: insert only prompt tokens (not decode)
                 # because GDN state is only tracked at the prompt boundary.
                 prompt_kv = all_kv_indices[:prompt_len]
-                key = RadixKey(list(input_ids))
+                key = RadixKey(list(input_ids), extra_key)
                 result = cache.insert(
                     key, prompt_kv, prev_prefix_len=cache_protected_len
                 )
@@ -1113,7 +1126,7 @@ class ModelRunnerProcess:
                 full_token_ids = list(input_ids)
                 if output_ids:
                     full_token_ids.extend(output_ids)
-                key = RadixKey(full_token_ids)
+                key = RadixKey(full_token_ids, extra_key)
                 result = cache.insert(
                     key, all_kv_indices, prev_prefix_len=cache_protected_len
                 )
-- 
2.43.0


From aae69c4bfe220909199d8a2435d6b61920b98136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 23/76] fix: evicting a leaf under a released window entry goes
 on with its ancestors

The leaf's tombstoned parent was deleted at once, but the node above it never became an eviction candidate, so evict() stopped short of the requested amount.
---
 pymllm/mem_cache/radix_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index c3a6aad..a1954ca 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -318,7 +318,7 @@ class RadixCache(BasePrefixCache):
                 self._delete_leaf(node)
 
                 p = node.parent
-                if (
+                while (
                     p is not None
                     and p != self.root_node
                     and len(p.children) == 0
@@ -328,8 +328,10 @@ class RadixCache(BasePrefixCache):
                         self._free_indices(p.value)
                         full_evicted += len(p.value)
                         self._delete_leaf(p)
+                        p = p.parent
                     else:
                         heapq.heappush(heap, (p.last_access_time, p))
+                        break
 
         # Phase 2: SWA tombstone eviction (internal nodes)
         if self.supports_swa and swa_evicted < swa_num_tokens:
-- 
2.43.0


From 98b5b2712c81ab3edc5f80a460e4a12bd7b2e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 24/76] fix: SWA insert leaves the slots of an entry in use
 alone

Reviving a tombstoned node replaced and freed its slots even when a running request still held and read them.
---
 pymllm/mem_cache/radix_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index a1954ca..905a123 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -612,7 +612,8 @@ class RadixCache(BasePrefixCache):
             # the ones before it are already owned by the tree.
             first_diff = max(0, prev_prefix_len - total_prefix)
             if first_diff < plen and node.swa_tombstone:
-                if swa_evicted_seqlen <= total_prefix:
+                # The old slots may only be given up when nobody uses them.
+                if swa_evicted_seqlen <= total_prefix and node.lock_ref == 0:
                     self._free_indices(node.value[first_diff:plen])
                     node.value = torch.cat(
                         [node.value[:first_diff], value[first_diff:plen]]
-- 
2.43.0


From f47eedf8a1d1269fb5d4ebb8600db15d47be283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 25/76] fix: streamed reasoning and tool-call parsing does not
 depend on the chunk boundaries

A tool-call end marker or a reasoning marker split over chunks was missed or
handled differently, streamed arguments carried stray characters, text held
back at the end of the stream was lost, and reasoning was dropped altogether
with stream_reasoning off.
---
 pymllm/parsers/reasoning_parser.py |  72 ++++++++--------
 pymllm/parsers/tool_call_parser.py | 132 +++++++++++++++++++++++------
 pymllm/server/launch.py            |  19 +++--
 3 files changed, 153 insertions(+), 70 deletions(-)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 1f73c78..047d359 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -13,6 +13,7 @@ Usage::
     parser = ReasoningParser("qwen3")
     for delta in deltas:
         reasoning_delta, content_delta = parser.parse_stream_chunk(delta)
+    reasoning_delta, content_delta = parser.flush()  # end of stream
 """
 
 from __future__ import annotations
@@ -73,6 +74,7 @@ class ReasoningParser:
                 f"Unknown reasoning parser {model_type!r}. "
                 f"Supported: {sorted(_DETECTOR_MAP)}"
             )
+        self._model_type = model_type
         self._start = cfg.start
         self._end = cfg.end
         self._force = cfg.force
@@ -83,6 +85,7 @@ class ReasoningParser:
         self._in_reasoning = cfg.force
         self._start_consumed = False  # True once start tag has been stripped
         self._done = False  # True once end tag has been seen
+        self._held = ""  # reasoning kept back while stream_reasoning is False
 
     # ------------------------------------------------------------------ #
     # Non-streaming
@@ -93,31 +96,12 @@ class ReasoningParser:
 
         Returns ``(reasoning_content, content)`` where either may be empty.
         """
-        start_idx = text.find(self._start)
-        end_idx = text.find(self._end)
-
-        if start_idx == -1 and not self._force:
-            return None, text
-
-        # Determine boundaries
-        if self._force and start_idx == -1:
-            # Model didn't emit explicit start tag; treat prefix as reasoning
-            reason_start = 0
-        else:
-            reason_start = start_idx + len(self._start)
-
-        before = text[:start_idx] if start_idx != -1 else ""
-
-        if end_idx != -1 and end_idx >= reason_start:
-            reasoning = text[reason_start:end_idx]
-            after = text[end_idx + len(self._end) :]
-        else:
-            reasoning = text[reason_start:]
-            after = ""
-
-        content = (before + after).strip()
-        reasoning = reasoning.strip()
-        return reasoning or None, content
+        # Same state machine as streaming, so both modes always agree.
+        parser = ReasoningParser(self._model_type)
+        reasoning, content = parser.parse_stream_chunk(text)
+        tail_reasoning, tail_content = parser.flush()
+        reasoning = (reasoning + tail_reasoning).strip()
+        return reasoning or None, (content + tail_content).strip()
 
     # ------------------------------------------------------------------ #
     # Streaming
@@ -138,15 +122,14 @@ class ReasoningParser:
         reasoning_out = ""
         content_out = ""
 
-        # In forced reasoning mode, consume the start tag if it appears
-        # (the model may or may not emit it explicitly).
+        # In forced reasoning mode, consume the start tag if the text begins
+        # with it (the model may or may not emit it explicitly).
         if self._in_reasoning and not self._start_consumed:
-            idx = self._buffer.find(self._start)
-            if idx != -1:
-                # Start tag found — strip it and any text before it
-                self._buffer = self._buffer[idx + len(self._start) :]
+            head = self._buffer.lstrip()
+            if head.startswith(self._start):
+                self._buffer = head[len(self._start) :]
                 self._start_consumed = True
-            elif _could_be_partial(self._buffer, self._start):
+            elif self._start.startswith(head):
                 # Might be a partial start tag — hold the buffer
                 return "", ""
             else:
@@ -193,10 +176,29 @@ class ReasoningParser:
                 reasoning_out += self._buffer
                 self._buffer = ""
 
-        if not self._stream_reasoning:
-            reasoning_out = ""
+        return self._release(reasoning_out), content_out
 
-        return reasoning_out, content_out
+    def flush(self) -> Tuple[str, str]:
+        """Return what is still buffered when the stream ends.
+
+        Returns ``(reasoning_delta, content_delta)``.
+        """
+        rest, self._buffer = self._buffer, ""
+        in_reasoning = self._in_reasoning
+        self._done = True
+        if in_reasoning:
+            return self._release(rest), ""
+        return self._release(""), rest
+
+    def _release(self, reasoning: str) -> str:
+        """Hold reasoning back until its end unless it is to be streamed."""
+        if self._stream_reasoning:
+            return reasoning
+        self._held += reasoning
+        if not self._done:
+            return ""
+        reasoning, self._held = self._held, ""
+        return reasoning
 
 
 # ---------------------------------------------------------------------------
diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index fdfe939..77664f2 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -19,6 +19,7 @@ Usage::
     parser = ToolCallParser("qwen25", tools=tools_list)
     for delta in deltas:
         content_delta, tool_call_deltas = parser.parse_stream_chunk(delta)
+    content_delta, tool_call_deltas = parser.flush()  # end of stream
 """
 
 from __future__ import annotations
@@ -251,12 +252,17 @@ class ToolCallParser:
                         if item is not None:
                             items.append(item)
                         self._in_call = False
-                        self._current_tool_idx += 1
+                        if item is not None or self._name_sent:
+                            self._current_tool_idx += 1
                         continue  # there may be more calls
                     else:
-                        # Accumulate and stream arguments
-                        self._current_call_buf += self._buffer
-                        self._buffer = ""
+                        # Accumulate and stream arguments, but keep back what
+                        # may be the beginning of the end token
+                        safe = len(self._buffer)
+                        if _could_be_partial(self._buffer, self._end):
+                            safe = max(0, safe - len(self._end) + 1)
+                        self._current_call_buf += self._buffer[:safe]
+                        self._buffer = self._buffer[safe:]
                         item = self._stream_partial_call()
                         if item is not None:
                             items.append(item)
@@ -272,15 +278,18 @@ class ToolCallParser:
 
         return content_out, items
 
-    def flush(self) -> List[ToolCallItem]:
-        """Flush any remaining buffered tool call (call at request end)."""
-        items: List[ToolCallItem] = []
-        if self._in_call and self._current_call_buf.strip():
-            item = self._finalize_call()
-            if item is not None:
-                items.append(item)
-            self._in_call = False
-        return items
+    def flush(self) -> Tuple[str, List[ToolCallItem]]:
+        """Return what is still buffered when the stream ends.
+
+        Returns ``(content_delta, tool_call_items)``.
+        """
+        rest, self._buffer = self._buffer, ""
+        if not self._in_call:
+            return rest, []
+        self._current_call_buf += rest
+        self._in_call = False
+        item = self._finalize_call()
+        return "", [] if item is None else [item]
 
     # ------------------------------------------------------------------ #
     # Internal helpers
@@ -292,11 +301,19 @@ class ToolCallParser:
             return self._parse_qwen3_coder_body(body)
         try:
             obj = json.loads(body)
-        except json.JSONDecodeError:
-            return None
+        except ValueError:
+            obj = None
+        if not isinstance(obj, dict):
+            # Malformed or cut off: keep what can be recognised.
+            name = self._try_extract_name(body)
+            if name is None:
+                return None
+            return ToolCallItem(
+                name=name, arguments=self._try_extract_args_partial(body) or ""
+            )
         name = obj.get("name")
         args = obj.get("arguments") or obj.get("parameters") or {}
-        if isinstance(args, dict):
+        if not isinstance(args, str):
             args = json.dumps(args, ensure_ascii=False)
         return ToolCallItem(name=name, arguments=args)
 
@@ -370,8 +387,13 @@ class ToolCallParser:
             parsed.tool_call_id = _make_tool_call_id()
             return parsed
 
-        # Name was already sent — emit remaining arguments
+        # Name was already sent — emit remaining arguments.  What was streamed
+        # is the model's own text of the arguments, so continue with that.
         full_args = parsed.arguments
+        if self._model_type != "qwen3_coder":
+            raw_args = self._try_extract_args_partial(self._current_call_buf.strip())
+            if raw_args is not None:
+                full_args = raw_args
         new_chars = full_args[self._prev_args_len :]
         if new_chars:
             return ToolCallItem(
@@ -386,8 +408,14 @@ class ToolCallParser:
         if self._model_type == "qwen3_coder":
             m = re.search(r"<function=([^>]+)>", partial)
             return m.group(1) if m else None
-        m = re.search(r'"name"\s*:\s*"([^"]+)"', partial)
-        return m.group(1) if m else None
+        value = _top_level_values(partial).get("name")
+        if value is None or not value[1]:
+            return None
+        try:
+            name = json.loads(value[0])
+        except ValueError:
+            return None
+        return name if isinstance(name, str) and name else None
 
     def _try_extract_args_partial(self, partial: str) -> Optional[str]:
         """Try to extract partial arguments from call body."""
@@ -395,7 +423,7 @@ class ToolCallParser:
             # Build JSON incrementally from <parameter=K>V</parameter> tags
             params: Dict[str, Any] = {}
             for pm in re.finditer(
-                r"<parameter=([^>]+)>(.*?)(?:</parameter>)",
+                r"<parameter=([^>]+)>(.*?)(?:</parameter>|(?=<parameter=)|(?=</function>))",
                 partial,
                 re.DOTALL,
             ):
@@ -406,14 +434,13 @@ class ToolCallParser:
                 except (json.JSONDecodeError, ValueError):
                     params[key] = val
             if params:
-                return json.dumps(params, ensure_ascii=False)
+                # More parameters may follow: leave the object open.
+                return json.dumps(params, ensure_ascii=False)[:-1]
             return None
-        m = re.search(r'"arguments"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        m = re.search(r'"parameters"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
+        values = _top_level_values(partial)
+        for key in ("arguments", "parameters"):
+            if key in values and values[key][0].startswith("{"):
+                return values[key][0]
         return None
 
 
@@ -426,6 +453,57 @@ def _make_tool_call_id() -> str:
     return f"call_{uuid.uuid4().hex[:24]}"
 
 
+def _top_level_values(text: str) -> Dict[str, Tuple[str, bool]]:
+    """Values of the (possibly incomplete) JSON object *text* starts with.
+
+    Maps each top-level key to ``(raw value text so far, complete)``.  More
+    text only ever extends incomplete values and adds new ones.
+    """
+    values: Dict[str, Tuple[str, bool]] = {}
+    if not text.startswith("{"):
+        return values
+    key: Optional[str] = None
+    depth = 1
+    start = -1  # where the current key or value begins
+    in_string = escaped = False
+    for i in range(1, len(text)):
+        ch = text[i]
+        if in_string:
+            if escaped:
+                escaped = False
+            elif ch == "\\":
+                escaped = True
+            elif ch == '"':
+                in_string = False
+            continue
+        if depth == 1 and ch in ":,}":
+            if ch == ":" and key is None and start >= 0:
+                key = text[start:i].strip().strip('"')
+            else:
+                if key is not None and start >= 0:
+                    values.setdefault(key, (text[start:i].rstrip(), True))
+                key = None
+            start = -1
+            if ch == "}":
+                return values
+            continue
+        if depth == 1 and start < 0 and not ch.isspace():
+            start = i
+        if ch == '"':
+            in_string = True
+        elif ch in "{[":
+            depth += 1
+        elif ch in "}]":
+            depth -= 1
+            if depth == 1 and key is not None:
+                values.setdefault(key, (text[start : i + 1], True))
+            elif depth < 1:
+                return values
+    if key is not None and start >= 0:
+        values.setdefault(key, (text[start:], False))
+    return values
+
+
 def _could_be_partial(text: str, pattern: str) -> bool:
     for i in range(1, len(pattern)):
         if text.endswith(pattern[:i]):
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 19b9520..66e3f64 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -965,6 +965,11 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         reasoning_delta, content_delta = r_parser.parse_stream_chunk(
                             raw_delta
                         )
+                    if r_parser and finish_reason is not None:
+                        # End of stream: release what the parser still holds
+                        tail_reasoning, tail_content = r_parser.flush()
+                        reasoning_delta += tail_reasoning
+                        content_delta += tail_content
 
                     # --- Phase 2: tool-call parser ---
                     tool_items: list = []
@@ -972,6 +977,10 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         content_delta, tool_items = tc_parser.parse_stream_chunk(
                             content_delta
                         )
+                    if tc_parser and finish_reason is not None:
+                        tail_content, tail_items = tc_parser.flush()
+                        content_delta += tail_content
+                        tool_items = tool_items + tail_items
 
                     # --- Emit chunks ---
                     # Role chunk (first)
@@ -995,14 +1004,8 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
 
                     # Finish
                     if finish_reason is not None:
-                        # Flush remaining tool call data
-                        if tc_parser:
-                            remaining = tc_parser.flush()
-                            for tc in remaining:
-                                has_tool_calls = True
-                                yield _make_sse({"tool_calls": [tc.to_openai_dict()]})
-                            if has_tool_calls:
-                                finish_reason = "tool_calls"
+                        if has_tool_calls:
+                            finish_reason = "tool_calls"
                         yield _make_sse({}, finish=finish_reason)
 
             except Exception as e:
-- 
2.43.0


From 8168758e47baf1b03c3a112e0605df6343de4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 26/76] fix: an HTTP client that goes away while streaming
 cancels its request

Cancelling the response left the pending __anext__ running, so closing the
generator failed with 'asynchronous generator is already running'.
---
 pymllm/server/launch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 66e3f64..307c440 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -84,7 +84,9 @@ async def _iter_with_disconnect_check(
                     # Close the generator to trigger its finally block.
                     await agen.aclose()
                     return
-        except Exception:
+        except BaseException:
+            # Also when this task is cancelled (client gone while streaming):
+            # the generator can only be closed once nothing is waiting in it.
             next_task.cancel()
             with contextlib.suppress(asyncio.CancelledError, StopAsyncIteration):
                 await next_task
-- 
2.43.0


From 3d98f916cb675223c73702e1efd19edd1af6f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 27/76] fix: the OpenAI endpoints report engine errors to the
 client

An error result (refused, aborted or timed-out request) was answered as an
empty completion with finish reason 'stop', or as a stream without any end.
---
 pymllm/server/launch.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 307c440..792dc51 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -429,6 +429,25 @@ def _normalize_finish_reason(reason: Optional[str]) -> Optional[str]:
     return _FINISH_REASON_MAP.get(reason, reason)
 
 
+# HTTP status for an error result of the engine; anything else was refused.
+_ERROR_STATUS = {"aborted": 499, "timeout": 504}
+
+
+def _raise_on_error_result(result: Dict[str, Any]) -> None:
+    """Turn an error result of the engine into an HTTP error."""
+    error = result.get("error")
+    if error is not None:
+        raise HTTPException(
+            status_code=_ERROR_STATUS.get(error, 400), detail=str(error)
+        )
+
+
+def _error_sse(result: Dict[str, Any]) -> bytes:
+    """Stream event for an error result of the engine."""
+    err = {"error": {"message": str(result["error"])}}
+    return b"data: " + orjson.dumps(err) + b"\n\n"
+
+
 def _debug_tps(tokens: int, ms: Optional[float]) -> Optional[float]:
     if ms is None or ms <= 0:
         return None
@@ -750,6 +769,9 @@ async def openai_completions(obj: CompletionRequest, request: Request):
             )
             try:
                 async for chunk in _iter_with_disconnect_check(gen, request):
+                    if "error" in chunk:
+                        yield _error_sse(chunk)
+                        continue
                     prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
                     completion_tokens = chunk.get("completion_tokens", completion_tokens)
                     delta_text = chunk.get("delta", "")
@@ -810,6 +832,7 @@ async def openai_completions(obj: CompletionRequest, request: Request):
         prompt_tokens = 0
         completion_tokens = 0
         for i, r in enumerate(results):
+            _raise_on_error_result(r)
             choices.append(
                 {
                     "index": i,
@@ -842,6 +865,8 @@ async def openai_completions(obj: CompletionRequest, request: Request):
             completion_tokens=completion_tokens,
         )
         return ORJSONResponse(payload)
+    except HTTPException:
+        raise
     except ValueError as e:
         raise HTTPException(status_code=400, detail=str(e))
     except RuntimeError as e:
@@ -952,6 +977,9 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
             gen = engine.generate_async(**gen_kwargs, stream=True)
             try:
                 async for chunk in _iter_with_disconnect_check(gen, request):
+                    if "error" in chunk:
+                        yield _error_sse(chunk)
+                        continue
                     prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
                     completion_tokens = chunk.get("completion_tokens", completion_tokens)
 
@@ -1043,6 +1071,7 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
         r = {}
         async for item in _iter_with_disconnect_check(gen, request):
             r = item
+        _raise_on_error_result(r)
         prompt_tokens = r.get("prompt_tokens", 0)
         completion_tokens = r.get("completion_tokens", 0)
         text = r.get("text", "")
@@ -1096,6 +1125,8 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
             completion_tokens=completion_tokens,
         )
         return ORJSONResponse(payload)
+    except HTTPException:
+        raise
     except ValueError as e:
         raise HTTPException(status_code=400, detail=str(e))
     except RuntimeError as e:
-- 
2.43.0


From 995e5ec5b84759220119e58b45256721af50caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 28/76] fix: HTTP answers to a batch of prompts keep them apart
 and in order

Choices were numbered in completion order, streamed choices were all number 0,
and streamed usage counted one prompt only.
---
 pymllm/server/launch.py | 49 +++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 792dc51..8366a5e 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -701,6 +701,8 @@ async def generate(obj: GenerateRequest, request: Request):
 
         return StreamingResponse(_stream(), media_type="text/event-stream")
 
+    # The results of a batch come in any order: sort them by request id.
+    kwargs["rid"] = engine._make_rids(obj.rid, obj.text, obj.input_ids)
     gen = engine.generate_async(**kwargs)
     try:
         results = []
@@ -708,6 +710,9 @@ async def generate(obj: GenerateRequest, request: Request):
             results.append(item)
         if not results:
             raise HTTPException(status_code=500, detail="No output from engine")
+        if isinstance(kwargs["rid"], list):
+            order = {r: i for i, r in enumerate(kwargs["rid"])}
+            results.sort(key=lambda item: order.get(item.get("rid"), 0))
         result = results[0] if len(results) == 1 else results
         return ORJSONResponse(result)
     except HTTPException:
@@ -758,22 +763,37 @@ async def openai_completions(obj: CompletionRequest, request: Request):
         obj.stream_options is not None and obj.stream_options.include_usage
     )
 
+    # The engine answers the prompts of a batch in any order: tell them apart by
+    # their request ids.
+    rids = [
+        uuid.uuid4().hex
+        for _ in range(len(obj.prompt) if isinstance(obj.prompt, list) else 1)
+    ]
+    index_of = {r: i for i, r in enumerate(rids)}
+    gen_kwargs: Dict[str, Any] = {
+        "prompt": obj.prompt,
+        "sampling_params": sp,
+        "rid": rids if isinstance(obj.prompt, list) else rids[0],
+    }
+
     if obj.stream:
 
         async def _stream() -> AsyncIterator[bytes]:
             comp_id = _make_completion_id()
-            prompt_tokens = 0
-            completion_tokens = 0
-            gen = engine.generate_async(
-                prompt=obj.prompt, sampling_params=sp, stream=True
-            )
+            # Last reported counts per prompt
+            prompt_tokens: Dict[int, int] = {}
+            completion_tokens: Dict[int, int] = {}
+            gen = engine.generate_async(**gen_kwargs, stream=True)
             try:
                 async for chunk in _iter_with_disconnect_check(gen, request):
                     if "error" in chunk:
                         yield _error_sse(chunk)
                         continue
-                    prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
-                    completion_tokens = chunk.get("completion_tokens", completion_tokens)
+                    index = index_of.get(chunk.get("rid"), 0)
+                    if "prompt_tokens" in chunk:
+                        prompt_tokens[index] = chunk["prompt_tokens"]
+                    if "completion_tokens" in chunk:
+                        completion_tokens[index] = chunk["completion_tokens"]
                     delta_text = chunk.get("delta", "")
                     finish_reason = _normalize_finish_reason(
                         chunk.get("finished_reason")
@@ -788,7 +808,7 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                         "model": model_name,
                         "choices": [
                             {
-                                "index": 0,
+                                "index": index,
                                 "text": delta_text,
                                 "logprobs": None,
                                 "finish_reason": finish_reason,
@@ -804,6 +824,8 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                 await gen.aclose()
             # Final usage-only chunk (OpenAI stream_options.include_usage)
             if include_usage:
+                n_prompt = sum(prompt_tokens.values())
+                n_completion = sum(completion_tokens.values())
                 usage_chunk: Dict[str, Any] = {
                     "id": comp_id,
                     "object": "text_completion",
@@ -811,9 +833,9 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                     "model": model_name,
                     "choices": [],
                     "usage": {
-                        "prompt_tokens": prompt_tokens,
-                        "completion_tokens": completion_tokens,
-                        "total_tokens": prompt_tokens + completion_tokens,
+                        "prompt_tokens": n_prompt,
+                        "completion_tokens": n_completion,
+                        "total_tokens": n_prompt + n_completion,
                     },
                 }
                 yield b"data: " + orjson.dumps(usage_chunk) + b"\n\n"
@@ -821,13 +843,12 @@ async def openai_completions(obj: CompletionRequest, request: Request):
 
         return StreamingResponse(_stream(), media_type="text/event-stream")
 
-    gen = engine.generate_async(
-        prompt=obj.prompt, sampling_params=sp
-    )
+    gen = engine.generate_async(**gen_kwargs)
     try:
         results = []
         async for item in _iter_with_disconnect_check(gen, request):
             results.append(item)
+        results.sort(key=lambda item: index_of.get(item.get("rid"), 0))
         choices = []
         prompt_tokens = 0
         completion_tokens = 0
-- 
2.43.0


From 4cfeb0d161bffa50e3980b40b7b11a30f825b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 29/76] fix: the server notices clients that leave before a
 non-streaming answer

---
 pymllm/server/launch.py | 57 ++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 8366a5e..f562e5d 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -296,26 +296,43 @@ app = FastAPI(lifespan=lifespan)
 _AUTH_EXEMPT_PATHS = frozenset({"/health", "/health_generate"})
 
 
-@app.middleware("http")
-async def _auth_middleware(request: Request, call_next):
-    """Enforce ``Authorization: Bearer <key>`` when ``api_key`` is configured."""
-    cfg = get_global_config()
-    api_key = cfg.server.api_key
-    if api_key is None:
-        # No key configured — open access.
-        return await call_next(request)
-    if request.url.path in _AUTH_EXEMPT_PATHS:
-        return await call_next(request)
-    auth = request.headers.get("Authorization", "")
-    if auth == f"Bearer {api_key}":
-        return await call_next(request)
-    admin_key = cfg.server.admin_api_key
-    if admin_key and auth == f"Bearer {admin_key}":
-        return await call_next(request)
-    return ORJSONResponse(
-        status_code=401,
-        content={"error": {"message": "Invalid or missing API key", "code": 401}},
-    )
+class _AuthMiddleware:
+    """Enforce ``Authorization: Bearer <key>`` when ``api_key`` is configured.
+
+    A plain ASGI middleware: behind Starlette's ``BaseHTTPMiddleware``,
+    ``request.is_disconnected()`` never turns true.
+    """
+
+    def __init__(self, app):
+        self.app = app
+
+    async def __call__(self, scope, receive, send):
+        if scope["type"] != "http" or self._is_allowed(Request(scope)):
+            await self.app(scope, receive, send)
+            return
+        response = ORJSONResponse(
+            status_code=401,
+            content={"error": {"message": "Invalid or missing API key", "code": 401}},
+        )
+        await response(scope, receive, send)
+
+    @staticmethod
+    def _is_allowed(request: Request) -> bool:
+        cfg = get_global_config()
+        api_key = cfg.server.api_key
+        if api_key is None:
+            # No key configured — open access.
+            return True
+        if request.url.path in _AUTH_EXEMPT_PATHS:
+            return True
+        auth = request.headers.get("Authorization", "")
+        if auth == f"Bearer {api_key}":
+            return True
+        admin_key = cfg.server.admin_api_key
+        return bool(admin_key) and auth == f"Bearer {admin_key}"
+
+
+app.add_middleware(_AuthMiddleware)
 
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From c1554f4148517eea61bce97ba853c69966860de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 30/76] fix: the CUDA IPC pool can be constructed

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 938132c..4444809 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -205,11 +205,11 @@ class MmItemMemoryPool:
                 memory_size, dtype=torch.int8, device=f"cuda:{device}"
             ).contiguous()
 
+        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
+        self._sync_pool: List[ShmSyncBuffer] = []
         init_chunk = MmItemMemoryChunk((0, memory_size), self._new_sync_buffer())
         self.available_chunks: List[MmItemMemoryChunk] = [init_chunk]
         self.occupied_chunks: List[MmItemMemoryChunk] = []
-        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
-        self._sync_pool: List[ShmSyncBuffer] = []
 
         self._recycler = threading.Thread(
             target=self._recycle_loop,
-- 
2.43.0


From b77ad80cbc97e027206b7b861e966220de488fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 31/76] fix: a pool chunk is released only after the receiver's
 device copy is complete

---
 pymllm/orchestrator/cuda_ipc_transport.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 4444809..8dd0df7 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -434,7 +434,10 @@ class CudaIpcTensorTransportProxy:
                 result = torch.empty(
                     h["target_shape"], dtype=h["target_dtype"], device=target_device
                 ).contiguous()
-                result.view(torch.int8).view(-1).copy_(slice_tensor)
+                result.view(-1).view(torch.int8).copy_(slice_tensor)
+                # The copy is asynchronous: the chunk may only be released
+                # once the device has really read it.
+                torch.cuda.current_stream().synchronize()
 
             # Signal sender that the chunk can be recycled
             _increment_sync_flag(self.sync_data_meta)
-- 
2.43.0


From e3d00092c38bfc8c2f6d39d3b8dd5deee2bf4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 32/76] fix: a pooled tensor that cannot be shared is sent as
 it is and its chunk released

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 8dd0df7..eb0026a 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -400,7 +400,7 @@ class CudaIpcTensorTransportProxy:
                 "falling back to direct tensor.",
                 exc,
             )
-            return {"ipc_handle": None, "tensor_data": data}
+            return {"ipc_handle": None, "tensor_data": info_data}
 
     def reconstruct_on_device(self, device_index: Optional[int] = None) -> torch.Tensor:
         """Map IPC memory and copy into a new local tensor.
@@ -445,6 +445,8 @@ class CudaIpcTensorTransportProxy:
             result = state["tensor_data"]
             if device_index is not None:
                 result = result.to(f"cuda:{device_index}", non_blocking=True)
+            # The chunk is not needed, but it was allocated for this proxy.
+            _increment_sync_flag(self.sync_data_meta)
         else:
             raise RuntimeError("CudaIpcTensorTransportProxy: invalid state")
 
-- 
2.43.0


From 277956022a952d56c1ebfd833f8cdf79d46b68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 33/76] fix: the CUDA IPC pool survives a failing sync buffer
 and coalesces around empty chunks

---
 pymllm/orchestrator/cuda_ipc_transport.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index eb0026a..df1441f 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -256,12 +256,18 @@ class MmItemMemoryPool:
         # Split the selected chunk
         occupied_area = (best.start, best.start + needed)
         occupied = MmItemMemoryChunk(occupied_area, best.sync_flag)
-        self.occupied_chunks.append(occupied)
-        self.available_chunks.remove(best)
-
         remainder = (occupied.end, best.end)
+        split: Optional[MmItemMemoryChunk] = None
         if remainder[0] < remainder[1]:
-            split = MmItemMemoryChunk(remainder, self._new_sync_buffer())
+            try:
+                split = MmItemMemoryChunk(remainder, self._new_sync_buffer())
+            except OSError as exc:
+                logger.warning("MmItemMemoryPool: no sync buffer (%s)", exc)
+                return None
+
+        self.occupied_chunks.append(occupied)
+        self.available_chunks.remove(best)
+        if split is not None:
             self.available_chunks.append(split)
 
         return occupied
@@ -317,6 +323,10 @@ class MmItemMemoryPool:
         """Coalesce adjacent free chunks to reduce fragmentation."""
         merged: List[MmItemMemoryChunk] = []
         for chunk in sorted(self.available_chunks, key=lambda c: c.start):
+            if chunk.mem_size == 0:
+                # Left by an empty tensor, nothing to give back.
+                self._return_sync_buffer(chunk.sync_flag)
+                continue
             if merged and merged[-1].end == chunk.start:
                 prev = merged.pop()
                 self._return_sync_buffer(chunk.sync_flag)
-- 
2.43.0


From 7717f3f3ef7deab6081911afaaa6217827d3a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 34/76] fix: strided and zero-dimensional tensors can cross the
 CUDA IPC pool

---
 pymllm/orchestrator/cuda_ipc_transport.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index df1441f..9ddaeed 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -611,10 +611,13 @@ def _wrap_cuda_tensor(
     if transport_mode == "cuda_ipc_pool":
         if pool is None:
             raise ValueError("pool must be provided for transport_mode='cuda_ipc_pool'")
+        # The chunk holds the elements in order, whatever the strides.
+        tensor = tensor.contiguous()
         sync_meta, pool_slice = pool.get_slice_with_flag(tensor)
         if pool_slice is not None:
             # Copy tensor bytes into the pool slice
-            pool_slice.copy_(tensor.view(torch.int8).view(-1), non_blocking=True)
+            flat = tensor.as_strided((tensor.numel(),), (1,))
+            pool_slice.copy_(flat.view(torch.int8), non_blocking=True)
             return CudaIpcTensorTransportProxy(
                 data=pool_slice,
                 info_data=tensor,
-- 
2.43.0


From 6ea28d969762fd8857f91b2c3681bae960523d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 35/76] fix: parallel loops run a last partial step and work on
 pools without workers

---
 mllm/engine/HpcThreadPool.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 9d552d2..710e408 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -6,7 +6,7 @@
 namespace mllm {
 
 void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   // There is no need to fall in back to thread pool
   if (tiles_num <= 1 || task_slot_idx < 0) {
@@ -76,12 +76,12 @@ void HpcThreadPool::showCpuTopology() {
 void HpcThreadPool::__threadPoolDestroy() { available_task_slots_ = 0; }
 
 void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
-  // There are no task slots, use this main thread to compute!
-  if (available_task_slots_ == 0) {
+  // There are no task slots or no workers, use this main thread to compute!
+  if (available_task_slots_ == 0 || thread_cnt_ <= 1) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   int _cnt = 0;
   std::vector<int> true_idx(tiles_num);
-- 
2.43.0


From 483ec8891ccee39c1fe89424cd6929689a5bd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 36/76] fix: parallel loops and the pool's destructor finish
 when workers are idle or still active

---
 mllm/engine/HpcThreadPool.cpp | 27 +++++++++++++++++++++------
 mllm/engine/HpcThreadPool.hpp |  2 +-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 710e408..6520d87 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -5,6 +5,11 @@
 
 namespace mllm {
 
+namespace {
+// State of one thread's share of a task.
+enum : int { kDone = 0, kPending = 1, kRunning = 2 };
+}  // namespace
+
 void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
   int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
@@ -114,7 +119,7 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
     };
   }
   {
-    for (int i = 1; i < tiles_num; ++i) { *tasks_[task_slot_idx].second[i] = true; }
+    for (int i = 1; i < tiles_num; ++i) { *tasks_[task_slot_idx].second[i] = kPending; }
   }
 
   // Explain why we start a 0 idx function.
@@ -122,12 +127,21 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
   // FIXME: The main thread is also used for compute or NOT ?
   tasks_[task_slot_idx].first.func(0);
 
+  // Take over what no worker has started: the workers may be idle, busy or stopped.
+  for (int i = 1; i < tiles_num; ++i) {
+    int pending = kPending;
+    if (tasks_[task_slot_idx].second[i]->compare_exchange_strong(pending, kRunning)) {
+      tasks_[task_slot_idx].first.func(i);
+      *tasks_[task_slot_idx].second[i] = kDone;
+    }
+  }
+
   // Wait for all threads to complete
   bool complete = true;
   do {
     complete = true;
     for (int i = 1; i < tiles_num; ++i) {
-      if (*tasks_[task_slot_idx].second[i]) {
+      if (*tasks_[task_slot_idx].second[i] != kDone) {
         complete = false;
         break;
       }
@@ -146,18 +160,19 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
   // Each task should hold some thread ok flag that mark this thread's work is done.
   for (int t = 0; t < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++t) {
     task_available_[t] = true;
-    for (int i = 0; i < thread_cnt_; ++i) { tasks_[t].second.emplace_back(new std::atomic_bool{false}); }
+    for (int i = 0; i < thread_cnt_; ++i) { tasks_[t].second.emplace_back(new std::atomic_int{kDone}); }
   }
 
   for (int i = 1; i < thread_cnt_; ++i) {
     int thread_idx = i;
     workers_.emplace_back([this, thread_idx]() {
       while (!stop_) {
-        while (available_task_slots_ > 0) {
+        while (!stop_ && available_task_slots_ > 0) {
           for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) {
-            if (*tasks_[i].second[thread_idx]) {
+            int pending = kPending;
+            if (tasks_[i].second[thread_idx]->compare_exchange_strong(pending, kRunning)) {
               tasks_[i].first.func(thread_idx);
-              { *tasks_[i].second[thread_idx] = false; }
+              { *tasks_[i].second[thread_idx] = kDone; }
             }
           }
           std::this_thread::yield();
diff --git a/mllm/engine/HpcThreadPool.hpp b/mllm/engine/HpcThreadPool.hpp
index db0f1c9..4733901 100644
--- a/mllm/engine/HpcThreadPool.hpp
+++ b/mllm/engine/HpcThreadPool.hpp
@@ -65,7 +65,7 @@ class HpcThreadPool {
   std::vector<std::thread> workers_;
 
   std::vector<bool> task_available_;
-  std::vector<std::pair<HpcThreadPoolTask, std::vector<std::atomic_bool*>>> tasks_;
+  std::vector<std::pair<HpcThreadPoolTask, std::vector<std::atomic_int*>>> tasks_;
 
   std::atomic<bool> stop_ = false;
   std::mutex queue_mutex_;
-- 
2.43.0


From 1a3cc91e1419853c4f90910111ef9d119f42bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 37/76] fix: several submitters and nested loops can share a
 task slot of the thread pool

---
 mllm/engine/HpcThreadPool.cpp | 7 +++++++
 mllm/engine/HpcThreadPool.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 6520d87..b84b940 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -19,8 +19,15 @@ void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
     return;
   }
 
+  // A slot carries one loop at a time: nested loops and other submitters on the same slot compute by themselves.
+  if (task_busy_[task_slot_idx].exchange(true)) {
+    for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
+    return;
+  }
+
   // Using thread pool
   splitTask(std::move(task), task_slot_idx);
+  task_busy_[task_slot_idx] = false;
 }
 
 void HpcThreadPool::activate() {
diff --git a/mllm/engine/HpcThreadPool.hpp b/mllm/engine/HpcThreadPool.hpp
index 4733901..048a8bd 100644
--- a/mllm/engine/HpcThreadPool.hpp
+++ b/mllm/engine/HpcThreadPool.hpp
@@ -65,6 +65,7 @@ class HpcThreadPool {
   std::vector<std::thread> workers_;
 
   std::vector<bool> task_available_;
+  std::atomic_bool task_busy_[MLLM_HPC_THREAD_POOL_TASK_LIMITS] = {};
   std::vector<std::pair<HpcThreadPoolTask, std::vector<std::atomic_int*>>> tasks_;
 
   std::atomic<bool> stop_ = false;
-- 
2.43.0


From 38355d4feb63461e243f66b2bdf70fa0ba2e6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 38/76] fix: readers of the native service do not miss or lose
 responses and the session pool is locked

---
 mllm/engine/service/Service.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 5400bcd..d8c8f37 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -47,7 +47,8 @@ void ResponsePool::push(const std::string& req_id, ResponseItem item) {
   std::unique_lock lk(mtx_);
   auto& q = queues_[req_id];
   q.push(std::move(item));
-  cv_.notify_one();
+  // Every reader waits on this condition, whichever request it is waiting for.
+  cv_.notify_all();
 }
 
 std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
@@ -56,12 +57,13 @@ std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
     auto it = queues_.find(req_id);
     return (it != queues_.end() && !it->second.empty()) || stop_;
   });
-  if (stop_) return std::nullopt;
+  // Responses that have been produced are delivered even if the service was stopped meanwhile.
+  auto it = queues_.find(req_id);
+  if (it == queues_.end() || it->second.empty()) return std::nullopt;
 
-  auto& q = queues_[req_id];
-  auto v = std::move(q.front());
-  q.pop();
-  if (q.empty()) queues_.erase(req_id);
+  auto v = std::move(it->second.front());
+  it->second.pop();
+  if (it->second.empty()) queues_.erase(it);
   return v;
 }
 
@@ -75,11 +77,13 @@ void ResponsePool::shutdown() {
 // SessionPool
 //===----------------------------------------------------------------------===//
 std::shared_ptr<Session> SessionPool::get(const std::string& session_id) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) { return sessions_[session_id]; }
   return nullptr;
 }
 
 void SessionPool::registerSession(const std::string& session_id, const std::shared_ptr<Session>& session) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) {
     // TODO
     return;
-- 
2.43.0


From 66f9736cff34fc1fd93093611901c794b7032ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 39/76] fix: a failing session or a request for an unknown
 model is answered and harms nobody else

---
 mllm/engine/service/Service.cpp | 78 ++++++++++++++++++++-------------
 mllm/engine/service/Service.hpp |  2 +
 2 files changed, 49 insertions(+), 31 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index d8c8f37..31998f6 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -119,38 +119,52 @@ SessionPool& Service::sessionPool() { return sess_pool_; }
 
 void Service::workerLoop() {
   while (running_) {
-    try {
-      if (auto req_opt = req_pool_.pop(); req_opt) {
-        RequestItem& req = *req_opt;
-        auto session = sess_pool_.get(req.payload.value("model", "<none>"));
-
-        session->streamGenerate(
-            req.payload, [this, req_payload = req.payload, req_id = req.id](const std::string& token, bool finished) {
-              ResponseItem item;
-              item.id = req_id;
-              item.finished = finished;
-              item.raw = token;
-
-              std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
-
-              // Make payload
-              item.payload = {
-                  {"model", req_payload["model"]},
-                  {"created", now},
-                  {"choices", nlohmann::json::array({{{"index", 0},
-                                                      {"delta", {{"content", token}}},
-                                                      {"finish_reason", finished ? "stop" : nlohmann::json(nullptr)}}})}};
-
-              resp_pool_.push(req_id, std::move(item));
-            });
-      } else {
-        // pop return empty, which means service is stopped and queue is empty.
-        break;
-      }
-    } catch (...) {
-      // TODO
+    auto req_opt = req_pool_.pop();
+    // pop return empty, which means service is stopped and queue is empty.
+    if (!req_opt) break;
+    serve(*req_opt);
+  }
+}
+
+void Service::serve(const RequestItem& req) {
+  std::string model = "<none>";
+  bool answered = false;
+
+  auto respond = [&](const std::string& token, bool finished, const std::string& error) {
+    ResponseItem item;
+    item.id = req.id;
+    item.finished = finished;
+    item.raw = token;
+
+    std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
+
+    // Make payload
+    item.payload = {{"model", model},
+                    {"created", now},
+                    {"choices", nlohmann::json::array({{{"index", 0},
+                                                        {"delta", {{"content", token}}},
+                                                        {"finish_reason", finished ? "stop" : nlohmann::json(nullptr)}}})}};
+    if (!error.empty()) item.payload["error"] = error;
+
+    resp_pool_.push(req.id, std::move(item));
+    answered = finished;
+  };
+
+  // The caller waits for a finished response, whatever happens to its request.
+  std::string error = "the session did not finish its answer";
+  try {
+    model = req.payload.value("model", "<none>");
+    if (auto session = sess_pool_.get(model); session) {
+      session->streamGenerate(req.payload, [&](const std::string& token, bool finished) { respond(token, finished, ""); });
+    } else {
+      error = "unknown model: " + model;
     }
+  } catch (const std::exception& e) {
+    error = e.what();
+  } catch (...) {
+    error = "unknown error";
   }
+  if (!answered) { respond("", true, error); }
 }
 
 void startService(size_t worker_threads) { Service::instance().start(worker_threads); }
@@ -167,6 +181,8 @@ int sendRequest(const std::string& json_str) {
     auto j = nlohmann::json::parse(json_str);
     RequestItem item;
     item.id = j.value("id", "");
+    // Nobody could ask for the response.
+    if (item.id.empty()) return -1;
     item.payload = j;
     item.enqueue_time = std::chrono::steady_clock::now();
     Service::instance().requestPool().push(std::move(item));
@@ -196,7 +212,7 @@ Response getResponse(const std::string& id) {
     j["id"] = opt->id;
     j["object"] = "chat.completion.chunk";
     j["finished"] = opt->finished;
-    std::string s = j.dump();
+    std::string s = j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     return s;
   } catch (...) {
     // TODO
diff --git a/mllm/engine/service/Service.hpp b/mllm/engine/service/Service.hpp
index 2ae6e8a..5679b60 100644
--- a/mllm/engine/service/Service.hpp
+++ b/mllm/engine/service/Service.hpp
@@ -100,6 +100,8 @@ class Service {
 
   void workerLoop();
 
+  void serve(const RequestItem& req);
+
   std::atomic<bool> running_{false};
   RequestPool req_pool_;
   ResponsePool resp_pool_;
-- 
2.43.0


From 10a5fb252247783540dd18fce3f2c4bd6bc40b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 40/76] fix: stopping the native service serves what was
 accepted, ends its readers and can be followed by a new start

---
 mllm/engine/service/Service.cpp | 30 ++++++++++++++++++++++++------
 mllm/engine/service/Service.hpp |  7 ++++++-
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 31998f6..87fc8ea 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -13,12 +13,14 @@ namespace mllm::service {
 //===----------------------------------------------------------------------===//
 // RequestPool
 //===----------------------------------------------------------------------===//
-void RequestPool::push(RequestItem item) {
+bool RequestPool::push(RequestItem item) {
   {
     std::lock_guard lk(mtx_);
+    if (stop_) return false;
     queue_.push(std::move(item));
   }
   cv_.notify_one();
+  return true;
 }
 
 std::optional<RequestItem> RequestPool::pop() {
@@ -32,6 +34,11 @@ std::optional<RequestItem> RequestPool::pop() {
   return item;
 }
 
+void RequestPool::open() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 void RequestPool::shutdown() {
   {
     std::lock_guard lk(mtx_);
@@ -67,6 +74,11 @@ std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
   return v;
 }
 
+void ResponsePool::open() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 void ResponsePool::shutdown() {
   std::lock_guard lk(mtx_);
   stop_ = true;
@@ -96,6 +108,8 @@ void SessionPool::registerSession(const std::string& session_id, const std::shar
 //===----------------------------------------------------------------------===//
 void Service::start(size_t worker_threads) {
   running_ = true;
+  resp_pool_.open();
+  req_pool_.open();
   sess_pool_.registerSession("<none>", std::make_shared<NoneSession>());
   for (size_t i = 0; i < worker_threads; ++i) workers_.emplace_back([this] { workerLoop(); });
 }
@@ -108,6 +122,8 @@ void Service::stop() {
     if (t.joinable()) { t.join(); }
   }
 
+  workers_.clear();
+
   resp_pool_.shutdown();
 }
 
@@ -118,7 +134,8 @@ ResponsePool& Service::responsePool() { return resp_pool_; }
 SessionPool& Service::sessionPool() { return sess_pool_; }
 
 void Service::workerLoop() {
-  while (running_) {
+  // Requests that were accepted before the service was stopped are still served.
+  while (true) {
     auto req_opt = req_pool_.pop();
     // pop return empty, which means service is stopped and queue is empty.
     if (!req_opt) break;
@@ -147,7 +164,7 @@ void Service::serve(const RequestItem& req) {
     if (!error.empty()) item.payload["error"] = error;
 
     resp_pool_.push(req.id, std::move(item));
-    answered = finished;
+    answered = answered || finished;
   };
 
   // The caller waits for a finished response, whatever happens to its request.
@@ -185,8 +202,7 @@ int sendRequest(const std::string& json_str) {
     if (item.id.empty()) return -1;
     item.payload = j;
     item.enqueue_time = std::chrono::steady_clock::now();
-    Service::instance().requestPool().push(std::move(item));
-    return 0;
+    return Service::instance().requestPool().push(std::move(item)) ? 0 : -1;
   } catch (...) {
     // TODO
     return -1;
@@ -204,8 +220,10 @@ Response getResponse(const std::string& id) {
     auto& pool = Service::instance().responsePool();
     auto opt = pool.pop(id);
     if (!opt) {
+      // The service was stopped, there is nothing more to wait for.
       nlohmann::json j;
-      j["finished"] = false;
+      j["error"] = true;
+      j["finished"] = true;
       return j.dump();
     }
     nlohmann::json j = opt->payload;
diff --git a/mllm/engine/service/Service.hpp b/mllm/engine/service/Service.hpp
index 5679b60..b48ecb0 100644
--- a/mllm/engine/service/Service.hpp
+++ b/mllm/engine/service/Service.hpp
@@ -36,10 +36,13 @@ struct ResponseItem {
 
 class RequestPool {
  public:
-  void push(RequestItem item);
+  // False if the service is stopped.
+  bool push(RequestItem item);
 
   std::optional<RequestItem> pop();
 
+  void open();
+
   void shutdown();
 
  private:
@@ -66,6 +69,8 @@ class ResponsePool {
 
   std::optional<ResponseItem> pop(const std::string& req_id);
 
+  void open();
+
   void shutdown();
 
  private:
-- 
2.43.0


From 26b043b583589a568c6f8b9c9d85b1f0f39779c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 41/76] fix: the native memory pool locks its block table and
 its growth

---
 mllm/engine/BuddyMemPool.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index e7b5141..0b1226a 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -62,6 +62,7 @@ void BuddyMemPool::alloc(Storage* s) {
   s->ptr_ = omb->ptr;
 
   // Reg to memory pool
+  std::lock_guard<std::mutex> lock(mutex_);
   st_.reg(s->custom_32bit_uuid_, omb);
 }
 
@@ -72,13 +73,18 @@ void BuddyMemPool::free(Storage* s) {
 
   if (s->ptr_ == nullptr) { return; }
 
+  BuddyMemBlock* omb = nullptr;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    omb = st_[s->custom_32bit_uuid_];
+    st_.remove(s->custom_32bit_uuid_);
+  }
+
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(st_[s->custom_32bit_uuid_]);
+    freeObjCache(omb);
   } else {
-    freeBuddy(st_[s->custom_32bit_uuid_]);
+    freeBuddy(omb);
   }
-
-  st_.remove(s->custom_32bit_uuid_);
 }
 
 void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
@@ -108,9 +114,9 @@ void BuddyMemPool::report() const {
 }
 
 BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
-  // lock_guard should in this scope.
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::mutex> lock(mutex_);
+  // Search the segments; if none has room, search again after adding one.
+  do {
     auto& cur_segs = context_.segments;
     auto& cur_seg_blocks = context_.segment_blocks;
 
@@ -172,9 +178,7 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
         return block;
       }
     }
-  }
-  // lock_guard freed, so that we can call allocBuddy again if not found, alloc a new seg.
-  if (expandBuddySegment()) { return allocBuddy(omb_size); }
+  } while (expandBuddySegment());
 
   MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc a new segment for buddy memory pool.");
 
-- 
2.43.0


From 912450a93f595d2576d22e382a445e62043c2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 42/76] fix: the native memory pool grows for blocks larger
 than its segments

---
 mllm/engine/BuddyMemPool.cpp | 12 ++++--------
 mllm/engine/BuddyMemPool.hpp |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 0b1226a..d84b971 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -131,12 +131,7 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
 
       size_t order = _log2_ceil(required_size);
 
-      if (order > max_order) {
-        MLLM_ERROR_EXIT(ExitCode::kMemory,
-                        "The tensor size {} you want to alloc is too large. Buddy memory pool support max "
-                        "tensor size is {}. You should change the `buddy_first_segment_cap` in MemManagerCargo.",
-                        required_size, options_.buddy_first_segment_cap);
-      }
+      if (order > max_order) continue;
       if (order < min_order) order = min_order;
 
       // search for usable order
@@ -178,7 +173,7 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
         return block;
       }
     }
-  } while (expandBuddySegment());
+  } while (expandBuddySegment(omb_size));
 
   MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc a new segment for buddy memory pool.");
 
@@ -228,7 +223,7 @@ void BuddyMemPool::freeBuddy(BuddyMemBlock* omb) {
 }
 
 // This function is not thread safe, should be called in a thread safe context.
-bool BuddyMemPool::expandBuddySegment() {
+bool BuddyMemPool::expandBuddySegment(size_t omb_size) {
   auto& cur_segs = context_.segments;
   auto& cur_seg_blocks = context_.segment_blocks;
 
@@ -237,6 +232,7 @@ bool BuddyMemPool::expandBuddySegment() {
 
   size_t min_order = options_.buddy_min_order;
   size_t new_cap = std::min(previous_seg_cap * 2, (size_t)(1ULL << 29ULL));  // max is 512MB
+  new_cap = std::max(new_cap, (size_t)(1ULL << _log2_ceil(omb_size)));       // ... unless one block needs more
   size_t max_order = _log2_ceil(new_cap);
 
   void* _p = nullptr;
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index 3b15f98..98eabf6 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -84,7 +84,7 @@ class BuddyMemPool {
   void freeBuddy(BuddyMemBlock* omb);
 
   // This function is not thread safe, should be called in a thread safe context.
-  bool expandBuddySegment();
+  bool expandBuddySegment(size_t omb_size);
 
   // This function is not thread safe, should be called in a thread safe context.
   BuddyMemSegment* locateSegment(char* ptr);
-- 
2.43.0


From f866a0a5fb2013c7984ad9a2067d6466b39b542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 43/76] fix: the native memory pool's object cache is keyed by
 the size asked for and gives blocks back when its sizes change

---
 mllm/engine/BuddyMemPool.cpp | 34 +++++++++++++++++++---------------
 mllm/engine/BuddyMemPool.hpp |  3 ++-
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index d84b971..74a778f 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -80,26 +80,27 @@ void BuddyMemPool::free(Storage* s) {
     st_.remove(s->custom_32bit_uuid_);
   }
 
-  if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(omb);
-  } else {
-    freeBuddy(omb);
-  }
+  if (!(options_.cache_small_obj_enabled && freeObjCache(try_to_alloc_size, omb))) { freeBuddy(omb); }
 }
 
 void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
 
 void BuddyMemPool::updateCacheSizeList(const std::unordered_set<size_t>& cache_size_set) {
-  auto& object_cache = free_object_cache_st_;
-  for (auto size : cache_size_set) {
-    if (!isInObjCache(size)) {
-      auto& free_list = object_cache[size];
-      for (auto it : free_list) { freeBuddy(it); }
-      object_cache.erase(object_cache.find(size));
+  std::list<BuddyMemBlock*> dropped;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto& object_cache = free_object_cache_st_;
+    for (auto it = object_cache.begin(); it != object_cache.end();) {
+      if (cache_size_set.count(it->first)) {
+        ++it;
+        continue;
+      }
+      dropped.splice(dropped.end(), it->second);
+      it = object_cache.erase(it);
     }
+    options_.cache_size_set = cache_size_set;
   }
-
-  options_.cache_size_set = cache_size_set;
+  for (auto omb : dropped) { freeBuddy(omb); }
 }
 
 void BuddyMemPool::report() const {
@@ -287,11 +288,14 @@ BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
   return ret;
 }
 
-void BuddyMemPool::freeObjCache(BuddyMemBlock* omb) {
+bool BuddyMemPool::freeObjCache(size_t omb_size, BuddyMemBlock* omb) {
   std::lock_guard<std::mutex> lock(mutex_);
+  if (!options_.cache_size_set.count(omb_size)) return false;
   auto& object_cache = free_object_cache_st_;
-  object_cache[omb->size].push_back(omb);
+  // The block may be larger than what is asked for.
+  object_cache[omb_size].push_back(omb);
   obj_cached_times_++;
+  return true;
 }
 
 bool BuddyMemPool::isInObjCache(size_t omb_size) {
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index 98eabf6..0ad3b03 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -91,7 +91,8 @@ class BuddyMemPool {
 
   BuddyMemBlock* allocObjCache(size_t omb_size);
 
-  void freeObjCache(BuddyMemBlock* omb);
+  // False if blocks of this size are not cached.
+  bool freeObjCache(size_t omb_size, BuddyMemBlock* omb);
 
   bool isInObjCache(size_t omb_size);
 
-- 
2.43.0


From 4efdfbfd99c23f8d954c097dba74e24f5cae25f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 44/76] fix: a failing system allocator is reported instead of
 leaving null segments in the native memory pool

---
 mllm/backends/cpu/CPUAllocator.cpp | 2 +-
 mllm/engine/BuddyMemPool.cpp       | 5 ++++-
 mllm/engine/MemoryManager.cpp      | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mllm/backends/cpu/CPUAllocator.cpp b/mllm/backends/cpu/CPUAllocator.cpp
index 24d8b63..7907192 100644
--- a/mllm/backends/cpu/CPUAllocator.cpp
+++ b/mllm/backends/cpu/CPUAllocator.cpp
@@ -56,7 +56,7 @@ void CPUAllocator::free(Storage* storage) { align_free(storage->ptr_); }
 
 bool CPUAllocator::generalAlloc(void** ptr, size_t cap, size_t align) {
   align_alloc(ptr, cap, align);
-  return ptr != nullptr;
+  return *ptr != nullptr;
 }
 
 void CPUAllocator::generalFree(void* ptr) {
diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 74a778f..b787941 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -23,7 +23,10 @@ BuddyMemPool::BuddyMemPool(BuddyMemPoolOptions options, const Allocator::ptr_t&
     : options_(std::move(options)), allocator_(allocator) {
   // align to 4KB
   void* _p = nullptr;
-  allocator_->generalAlloc(&_p, options_.buddy_first_segment_cap, 4096);
+  if (!allocator_->generalAlloc(&_p, options_.buddy_first_segment_cap, 4096)) {
+    MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc the first segment of {} bytes for buddy memory pool.",
+                    options_.buddy_first_segment_cap);
+  }
 
   auto new_seg = new BuddyMemSegment{
       .ptr = (char*)_p,
diff --git a/mllm/engine/MemoryManager.cpp b/mllm/engine/MemoryManager.cpp
index 5372ef0..bf1cbaf 100644
--- a/mllm/engine/MemoryManager.cpp
+++ b/mllm/engine/MemoryManager.cpp
@@ -50,7 +50,9 @@ void MemoryManager::alloc(Storage* s) {
               "handle large storage frequently, you can modify the `buddy_first_segment_cap` in "
               "`MemManagerCargo`.",
               try_to_alloc_size);
-    allocator->alloc(s);
+    if (!allocator->alloc(s)) {
+      MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc a large storage of {} bytes.", try_to_alloc_size);
+    }
     return;
   }
 
-- 
2.43.0


From 8b2e2a4af62bfaf264583ad0d351d60da9ae8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 45/76] fix: a first segment whose capacity is not a power of
 two does not hand out overlapping blocks

---
 mllm/engine/BuddyMemPool.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index b787941..a613da6 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -41,16 +41,22 @@ BuddyMemPool::BuddyMemPool(BuddyMemPoolOptions options, const Allocator::ptr_t&
   context_.segment_blocks.insert(
       {new_seg->ptr, std::vector<std::list<BuddyMemBlock*>>(options_.buddy_max_order - options_.buddy_min_order + 1)});
 
-  auto block = new BuddyMemBlock{
-      .ptr = new_seg->ptr,
-      .offset = 0,
-      .size = options_.buddy_first_segment_cap,
-      .segment = new_seg,
-      .buddy_order = options_.buddy_max_order,
-      .allocated = false,
-  };
-
-  context_.segment_blocks[new_seg->ptr][options_.buddy_max_order - options_.buddy_min_order].push_back(block);
+  // The capacity need not be a power of two: cover it with blocks, the largest first, so that each is aligned to its size.
+  auto& free_lists = context_.segment_blocks[new_seg->ptr];
+  size_t offset = 0;
+  for (size_t order = options_.buddy_max_order + 1; order-- > options_.buddy_min_order;) {
+    size_t size = 1ULL << order;
+    if (!(options_.buddy_first_segment_cap & size)) continue;
+    free_lists[order - options_.buddy_min_order].push_back(new BuddyMemBlock{
+        .ptr = new_seg->ptr + offset,
+        .offset = offset,
+        .size = size,
+        .segment = new_seg,
+        .buddy_order = order,
+        .allocated = false,
+    });
+    offset += size;
+  }
 }
 
 void BuddyMemPool::alloc(Storage* s) {
-- 
2.43.0


From 18e80462271f44d6adc8f1c43869990f54097a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 46/76] fix: freeing a KV address of the native storage frees
 that address and not one of the blob's first page

---
 mllm/engine/prefix_cache/ZenFS.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 604be3f..7e46fe5 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -596,15 +596,17 @@ void ZenFileSystem::free(vp_addr_t addr) {
   // Extract blob address from the virtual address
   vp_blob_addr_t blob_addr = getBlobAddr(addr, options_.page_bits, options_.lane_bits);
 
-  // Get the lane address to determine which bit to free in the bitmap
+  // Get the index in this blob to determine which bit to free in the bitmap
+  vp_page_addr_t page_addr = getPageAddr(addr, options_.page_bits, options_.lane_bits);
   vp_lane_addr_t lane_addr = getLaneAddr(addr, options_.page_bits, options_.lane_bits);
+  size_t index = ((size_t)page_addr << options_.lane_bits) | lane_addr;
 
   // Find the blob
   auto it = blob_.find(blob_addr);
   if (it != blob_.end()) {
     // Calculate which word in the bitmap and which bit within that word
-    size_t word_index = lane_addr / 64;
-    size_t bit_index = lane_addr % 64;
+    size_t word_index = index / 64;
+    size_t bit_index = index % 64;
 
     // Set the bit to 1 to indicate it's free
     if (word_index < it->second.free_lanes_bits_map.size()) {
-- 
2.43.0


From 12ea19a9ffa9414859e806328cdcfc0d1948d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 47/76] fix: the native KV storage hands out no address beyond
 the end of a blob

---
 mllm/engine/prefix_cache/ZenFS.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 7e46fe5..f3c5ffd 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -16,6 +16,16 @@
 
 namespace mllm::prefix_cache {
 
+namespace MLLM_ANONYMOUS_NAMESPACE {
+// One bit for each lane, and no bit that is not a lane.
+std::vector<uint64_t> _allLanesFree(size_t page_bits, size_t lane_bits) {
+  size_t total_bits = 1ULL << (page_bits + lane_bits);
+  std::vector<uint64_t> bits((total_bits + 64 - 1) / 64, ~0ULL);
+  if (total_bits % 64) { bits.back() = (1ULL << (total_bits % 64)) - 1; }
+  return bits;
+}
+}  // namespace MLLM_ANONYMOUS_NAMESPACE
+
 ZenFSBlobMMAPFile::ptr_t ZenFSBlobMMAPFile::create(size_t size, ZenFSMMAPMode mode, const std::string& fpath,
                                                    std::error_code& ec) {
   // Not throw std::bad_alloc but return nullptr
@@ -324,16 +334,13 @@ void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
 
   // X. Create the first block Tensor for KV
   {
-    size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-    size_t uint64_count = (total_bits + 64 - 1) / 64;
-
     // The first blob is in memory
     blob_.insert({blob_.size(), ZenFSBlob{.data = Tensor::zeros({(1 << (options_.page_bits + options_.lane_bits)),
                                                                  (int32_t)options.per_k_token_ele},
                                                                 options.k_dtype),
                                           .type = ZenFSBlobType::kInMemory,
                                           .mmap_file = std::nullopt,
-                                          .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                          .free_lanes_bits_map = _allLanesFree(options_.page_bits, options_.lane_bits)}});
   }
 }
 
@@ -491,9 +498,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
       }
 
       // Initialize free lanes bitmap
-      size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-      size_t uint64_count = (total_bits + 64 - 1) / 64;
-      blob.free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL);
+      blob.free_lanes_bits_map = _allLanesFree(options_.page_bits, options_.lane_bits);
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
@@ -639,9 +644,6 @@ char* ZenFileSystem::access(vp_addr_t addr) {
 
 void ZenFileSystem::_createBlobOnDisk() {
   // Calculate blob size.
-  size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + sizeof(uint64_t) - 1) / sizeof(uint64_t);
-
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
   // K and V shared one blob.
@@ -668,14 +670,11 @@ void ZenFileSystem::_createBlobOnDisk() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = _allLanesFree(options_.page_bits, options_.lane_bits)}});
 }
 
 void ZenFileSystem::_createBlobOnAnonymousFile() {
   // Calculate blob size.
-  size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + 64 - 1) / 64;
-
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
   // K and V shared one blob.
@@ -701,7 +700,7 @@ void ZenFileSystem::_createBlobOnAnonymousFile() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = _allLanesFree(options_.page_bits, options_.lane_bits)}});
 }
 
 void ZenFileSystem::_findFreeAddrInBlob(vp_blob_addr_t blob_addr, vp_addr_t* ret_addr) {
-- 
2.43.0


From 5979601037cdd45b43a81e2788558231a52bee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 48/76] fix: a purge hint of the native KV storage concerns its
 own lane and loses no data

---
 mllm/engine/prefix_cache/ZenFS.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index f3c5ffd..114cd7f 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -144,7 +144,9 @@ void ZenFSBlobMMAPFile::prefetch(size_t offset, size_t len) const {
   WIN32_MEMORY_RANGE_ENTRY entry{start, len};
   ::PrefetchVirtualMemory(GetCurrentProcess(), 1, &entry, 0);
 #else
-  ::madvise(start, len, MADV_WILLNEED);
+  // madvise works on whole pages
+  size_t head = (uintptr_t)start % ::sysconf(_SC_PAGESIZE);
+  ::madvise(start - head, len + head, MADV_WILLNEED);
 #endif
 }
 
@@ -155,8 +157,11 @@ void ZenFSBlobMMAPFile::purge(size_t offset, size_t len) {
   ::FlushViewOfFile(start, len);
   ::DiscardVirtualMemory(start, len);
 #else
-  ::msync(start, len, MS_SYNC);
-  ::madvise(start, len, MADV_DONTNEED);
+  // The content of an anonymous map would be lost.
+  if (fd_ < 0) return;
+  size_t head = (uintptr_t)start % ::sysconf(_SC_PAGESIZE);
+  if (::msync(start - head, len + head, MS_SYNC) != 0) return;
+  ::madvise(start - head, len + head, MADV_DONTNEED);
 #endif
 }
 
@@ -535,10 +540,7 @@ void ZenFileSystem::hintsPrefetch(vp_addr_t token_lane_addr) const {
     vp_page_addr_t page_addr = getPageAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
-    // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
-    size_t lane_offset = lane_addr * per_kv_token_mem_size_;
-    size_t offset = page_offset + lane_offset;
+    size_t offset = (((size_t)page_addr << options_.lane_bits) + lane_addr) * per_kv_token_mem_size_;
 
     it->second.mmap_file.value()->prefetch(offset, per_kv_token_mem_size_);
   }
@@ -556,10 +558,7 @@ void ZenFileSystem::hintsPurge(vp_addr_t token_lane_addr) {
     vp_page_addr_t page_addr = getPageAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
-    // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
-    size_t lane_offset = lane_addr * per_kv_token_mem_size_;
-    size_t offset = page_offset + lane_offset;
+    size_t offset = (((size_t)page_addr << options_.lane_bits) + lane_addr) * per_kv_token_mem_size_;
 
     it->second.mmap_file.value()->purge(offset, per_kv_token_mem_size_);
   }
-- 
2.43.0


From 9a5fa7cc8a684506207bb7f76cc528d5d1d1cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 49/76] fix: the native KV storage can keep blobs in files

---
 mllm/engine/prefix_cache/ZenFS.cpp | 31 +++++++++++++++++++-----------
 mllm/engine/prefix_cache/ZenFS.hpp |  5 +++--
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 114cd7f..de0222c 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -27,7 +27,7 @@ std::vector<uint64_t> _allLanesFree(size_t page_bits, size_t lane_bits) {
 }  // namespace MLLM_ANONYMOUS_NAMESPACE
 
 ZenFSBlobMMAPFile::ptr_t ZenFSBlobMMAPFile::create(size_t size, ZenFSMMAPMode mode, const std::string& fpath,
-                                                   std::error_code& ec) {
+                                                   std::error_code& ec, bool temporary) {
   // Not throw std::bad_alloc but return nullptr
   auto ptr = std::shared_ptr<ZenFSBlobMMAPFile>(new (std::nothrow) ZenFSBlobMMAPFile);
   if (!ptr) {
@@ -38,7 +38,7 @@ ZenFSBlobMMAPFile::ptr_t ZenFSBlobMMAPFile::create(size_t size, ZenFSMMAPMode mo
   if (mode == ZenFSMMAPMode::kAnonymous) {
     ok = ptr->initAnonymous(size, ec);
   } else {
-    ok = ptr->initFileBacked(size, mode, fpath, ec);
+    ok = ptr->initFileBacked(size, mode, fpath, ec, temporary);
   }
   if (!ok) { ptr.reset(); }
   return ptr;
@@ -59,16 +59,21 @@ bool ZenFSBlobMMAPFile::initAnonymous(size_t size, std::error_code& ec) {
   return true;
 }
 
-bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec) {
+bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec,
+                                       bool temporary) {
   size_ = size;
-  std::vector<char> tmp(fpath.begin(), fpath.end());
-  tmp.push_back('\0');
-  fd_ = ::mkstemp(tmp.data());
+  std::string tmp = fpath;
+  if (temporary) {
+    tmp += ".XXXXXX";
+    fd_ = ::mkstemp(tmp.data());
+  } else {
+    fd_ = ::open(tmp.c_str(), O_RDWR | O_CREAT, 0644);
+  }
   if (fd_ < 0) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
-  ::unlink(tmp.data());  // File is deleted when fd_ is closed
+  if (temporary) { ::unlink(tmp.data()); }  // File is deleted when fd_ is closed
   if (::ftruncate(fd_, static_cast<off_t>(size)) != 0) {
     ec = std::error_code(errno, std::system_category());
     ::close(fd_);
@@ -214,7 +219,8 @@ bool ZenFSBlobMMAPFile::initAnonymous(size_t size, std::error_code& ec) {
   return true;
 }
 
-bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec) {
+bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec,
+                                       bool temporary) {
   size_ = size;
 
   std::wstring wfpath(fpath.begin(), fpath.end());
@@ -242,7 +248,8 @@ bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const st
     default: ec = std::make_error_code(std::errc::invalid_argument); return false;
   }
 
-  file_ = ::CreateFileW(wfpath.c_str(), desiredAccess, 0, nullptr, CREATE_ALWAYS, FILE_ATTRIBUTE_NORMAL, nullptr);
+  file_ = ::CreateFileW(wfpath.c_str(), desiredAccess, 0, nullptr, temporary ? CREATE_ALWAYS : OPEN_ALWAYS,
+                        FILE_ATTRIBUTE_NORMAL, nullptr);
   if (file_ == INVALID_HANDLE_VALUE) {
     ec = std::error_code(static_cast<int>(::GetLastError()), std::system_category());
     return false;
@@ -481,7 +488,8 @@ void ZenFileSystem::recover(const std::string& working_dir) {
               size_t blob_size = std::filesystem::file_size(mmap_file_path);
 
               std::error_code ec;
-              auto mmap_file = ZenFSBlobMMAPFile::create(blob_size, ZenFSMMAPMode::kReadWrite, mmap_file_path, ec);
+              auto mmap_file = ZenFSBlobMMAPFile::create(blob_size, ZenFSMMAPMode::kReadWrite, mmap_file_path, ec,
+                                                         /*temporary=*/false);
 
               if (!ec) {
                 // Create tensor on MMAP
@@ -651,7 +659,8 @@ void ZenFileSystem::_createBlobOnDisk() {
 
   std::error_code ec;
   auto mmap_file = ZenFSBlobMMAPFile::create(blob_size, ZenFSMMAPMode::kReadWrite,
-                                             options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv", ec);
+                                             options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv", ec,
+                                             /*temporary=*/!options_.record);
 
   if (ec) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to create mmap file for blob on disk"); }
 
diff --git a/mllm/engine/prefix_cache/ZenFS.hpp b/mllm/engine/prefix_cache/ZenFS.hpp
index 9a9222e..ddefcb7 100644
--- a/mllm/engine/prefix_cache/ZenFS.hpp
+++ b/mllm/engine/prefix_cache/ZenFS.hpp
@@ -53,7 +53,8 @@ class ZenFSBlobMMAPFile {
  public:
   using ptr_t = std::shared_ptr<ZenFSBlobMMAPFile>;
 
-  static ptr_t create(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec);
+  // A temporary file is gone when this object is, another one is found under fpath afterwards.
+  static ptr_t create(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec, bool temporary = true);
 
   ~ZenFSBlobMMAPFile();
 
@@ -84,7 +85,7 @@ class ZenFSBlobMMAPFile {
 
   bool initAnonymous(size_t size, std::error_code& ec);
 
-  bool initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec);
+  bool initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec, bool temporary);
 
 #if defined(_WIN32)
   void cleanupWindows();
-- 
2.43.0


From 9b5c403e9d5e4f35eb2eef0cc6dae4981538a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 50/76] fix: native KV storage that was recorded is recovered
 with its data and its addresses in use, or refused

---
 mllm/engine/prefix_cache/ZenFS.cpp | 139 +++++++++++++----------------
 mllm/engine/prefix_cache/ZenFS.hpp |   7 ++
 2 files changed, 70 insertions(+), 76 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index de0222c..252a8e3 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -24,6 +24,21 @@ std::vector<uint64_t> _allLanesFree(size_t page_bits, size_t lane_bits) {
   if (total_bits % 64) { bits.back() = (1ULL << (total_bits % 64)) - 1; }
   return bits;
 }
+
+std::string _blobPath(const std::string& working_dir, uint32_t blob_id) {
+  return working_dir + "/blob_" + std::to_string(blob_id) + ".kv";
+}
+
+// The file has either its old content or all of the new one, wherever this is interrupted.
+void _writeFile(const std::string& path, const char* data, size_t size) {
+  std::string tmp = path + ".tmp";
+  std::ofstream file(tmp, std::ios::binary);
+  file.write(data, static_cast<std::streamsize>(size));
+  file.close();
+  std::error_code ec;
+  if (file.good()) { std::filesystem::rename(tmp, path, ec); }
+  if (!file.good() || ec) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write {}", path); }
+}
 }  // namespace MLLM_ANONYMOUS_NAMESPACE
 
 ZenFSBlobMMAPFile::ptr_t ZenFSBlobMMAPFile::create(size_t size, ZenFSMMAPMode mode, const std::string& fpath,
@@ -223,6 +238,8 @@ bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const st
                                        bool temporary) {
   size_ = size;
 
+  file_backed_ = true;
+
   std::wstring wfpath(fpath.begin(), fpath.end());
 
   DWORD desiredAccess = 0;
@@ -357,7 +374,17 @@ void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
 }
 
 void ZenFileSystem::finalize() {
-  // 1. Write to index.json
+  // 1. Write back what is in mapped files, and write the blobs that are only in memory
+  for (auto& [blob_id, blob] : blob_) {
+    if (blob.mmap_file.has_value() && blob.mmap_file.value()->fileBacked()) {
+      // Sync the mmap file to ensure all changes are written to disk
+      blob.mmap_file.value()->sync();
+    } else if (options_.record) {
+      _writeFile(_blobPath(options_.working_dir, blob_id), blob.data.ptr<char>(), blob.data.bytes());
+    }
+  }
+
+  // 2. Write to index.json, which describes the files above
   if (options_.record) {
     nlohmann::json blobs_info = nlohmann::json::array();
     for (const auto& [blob_id, blob] : blob_) {
@@ -366,49 +393,13 @@ void ZenFileSystem::finalize() {
       blob_info["type"] = static_cast<int>(blob.type);
       blob_info["data_shape"] = blob.data.shape();
       blob_info["data_dtype"] = blob.data.dtype();
-
-      // Record if blob has mmap file
-      if (blob.mmap_file.has_value()) {
-        blob_info["has_mmap_file"] = true;
-        blob_info["mmap_file_path"] = options_.working_dir + "/blob_" + std::to_string(blob_id) + ".kv";
-      } else {
-        blob_info["has_mmap_file"] = false;
-      }
-
+      blob_info["free_lanes"] = blob.free_lanes_bits_map;
       blobs_info.push_back(blob_info);
     }
     index_["blobs"] = blobs_info;
 
-    std::string index_file_path = options_.working_dir + "/index.json";
-    std::ofstream index_file(index_file_path);
-    if (index_file.is_open()) {
-      index_file << index_ << "\n";
-      index_file.close();
-    }
-  }
-
-  // 2. Write first Tensor Blob into disk.
-  // The first blob (blob id 0) should be written to disk
-  auto it = blob_.find(0);
-  if (it != blob_.end() && options_.record) {
-    std::string blob_file_path = options_.working_dir + "/blob_0.kv";
-    // Write the tensor data to disk
-    auto& tensor = it->second.data;
-    auto* data_ptr = tensor.ptr<char>();
-    auto data_size = tensor.bytes();
-    std::ofstream blob_file(blob_file_path, std::ios::binary);
-    if (blob_file.is_open()) {
-      blob_file.write(data_ptr, data_size);
-      blob_file.close();
-    }
-  }
-
-  // 3. Write back mmap file if some page is dirty
-  for (auto& [blob_id, blob] : blob_) {
-    if (blob.type == ZenFSBlobType::kOnDiskMMAP && blob.mmap_file.has_value()) {
-      // Sync the mmap file to ensure all changes are written to disk
-      blob.mmap_file.value()->sync();
-    }
+    std::string content = index_.dump() + "\n";
+    _writeFile(options_.working_dir + "/index.json", content.data(), content.size());
   }
 }
 
@@ -435,6 +426,8 @@ void ZenFileSystem::recover(const std::string& working_dir) {
   }
 
   // 4. Recover options from index
+  index_ = index;
+  blob_.clear();
   options_.working_dir = working_dir;
   options_.blob_bits_size = index.value("blob_bits_size", 20);
   options_.lane_bits = index.value("lane_bits_size", 5);
@@ -482,27 +475,21 @@ void ZenFileSystem::recover(const std::string& working_dir) {
         }
         case ZenFSBlobType::kOnDiskMMAP: {
           // For mmap blob, need to map file
-          if (blob_info.value("has_mmap_file", false)) {
-            std::string mmap_file_path = blob_info.value("mmap_file_path", "");
-            if (!mmap_file_path.empty() && std::filesystem::exists(mmap_file_path)) {
-              size_t blob_size = std::filesystem::file_size(mmap_file_path);
-
-              std::error_code ec;
-              auto mmap_file = ZenFSBlobMMAPFile::create(blob_size, ZenFSMMAPMode::kReadWrite, mmap_file_path, ec,
-                                                         /*temporary=*/false);
-
-              if (!ec) {
-                // Create tensor on MMAP
-                auto s = TensorStorage::create(shape, dtype, kCPU);
-                auto t = TensorViewImpl::create(shape, s);
-                s->name_ = std::to_string(blob_id);
-                s->ptr_ = mmap_file->data();
-                s->mem_type_ = kParamsMMAP;
-                blob.data = Tensor(t);
-                blob.mmap_file = mmap_file;
-              }
-            }
+          std::string mmap_file_path = _blobPath(working_dir, blob_id);
+          auto s = TensorStorage::create(shape, dtype, kCPU);
+          auto t = TensorViewImpl::create(shape, s);
+          std::error_code ec;
+          if (std::filesystem::file_size(mmap_file_path, ec) != s->size_ || ec) {
+            MLLM_ERROR_EXIT(ExitCode::kIOError, "{} is missing or incomplete", mmap_file_path);
           }
+          auto mmap_file = ZenFSBlobMMAPFile::create(s->size_, ZenFSMMAPMode::kReadWrite, mmap_file_path, ec,
+                                                     /*temporary=*/false);
+          if (ec) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to map {}", mmap_file_path); }
+          s->name_ = std::to_string(blob_id);
+          s->ptr_ = mmap_file->data();
+          s->mem_type_ = kParamsMMAP;
+          blob.data = Tensor(t);
+          blob.mmap_file = mmap_file;
           break;
         }
         case ZenFSBlobType::kZSTDCompressed:
@@ -510,28 +497,28 @@ void ZenFileSystem::recover(const std::string& working_dir) {
           break;
       }
 
-      // Initialize free lanes bitmap
+      // Addresses that were in use still are
       blob.free_lanes_bits_map = _allLanesFree(options_.page_bits, options_.lane_bits);
+      if (blob_info.contains("free_lanes")) {
+        auto free_lanes = blob_info["free_lanes"].get<std::vector<uint64_t>>();
+        for (size_t i = 0; i < blob.free_lanes_bits_map.size() && i < free_lanes.size(); ++i) {
+          blob.free_lanes_bits_map[i] &= free_lanes[i];
+        }
+      }
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
     }
   }
 
-  // 7. Load blob_0.kv file if exists
-  std::string blob0_file_path = working_dir + "/blob_0.kv";
-  if (std::filesystem::exists(blob0_file_path)) {
-    auto it = blob_.find(0);
-    if (it != blob_.end() && it->second.type == ZenFSBlobType::kInMemory) {
-      std::ifstream blob0_file(blob0_file_path, std::ios::binary);
-      if (blob0_file.is_open()) {
-        auto& tensor = it->second.data;
-        auto* data_ptr = tensor.ptr<char>();
-        auto data_size = tensor.bytes();
-
-        if (data_ptr) { blob0_file.read(data_ptr, data_size); }
-        blob0_file.close();
-      }
+  // 7. Load the blobs that live in memory
+  for (auto& [blob_id, blob] : blob_) {
+    if (blob.type != ZenFSBlobType::kInMemory) continue;
+    std::string blob_file_path = _blobPath(working_dir, blob_id);
+    std::ifstream blob_file(blob_file_path, std::ios::binary);
+    auto data_size = static_cast<std::streamsize>(blob.data.bytes());
+    if (!blob_file.read(blob.data.ptr<char>(), data_size) || blob_file.gcount() != data_size) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "{} is missing or incomplete", blob_file_path);
     }
   }
 }
@@ -659,7 +646,7 @@ void ZenFileSystem::_createBlobOnDisk() {
 
   std::error_code ec;
   auto mmap_file = ZenFSBlobMMAPFile::create(blob_size, ZenFSMMAPMode::kReadWrite,
-                                             options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv", ec,
+                                             _blobPath(options_.working_dir, blob_.size()), ec,
                                              /*temporary=*/!options_.record);
 
   if (ec) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to create mmap file for blob on disk"); }
diff --git a/mllm/engine/prefix_cache/ZenFS.hpp b/mllm/engine/prefix_cache/ZenFS.hpp
index ddefcb7..6777ba8 100644
--- a/mllm/engine/prefix_cache/ZenFS.hpp
+++ b/mllm/engine/prefix_cache/ZenFS.hpp
@@ -68,6 +68,12 @@ class ZenFSBlobMMAPFile {
 
   [[nodiscard]] inline size_t size() const { return size_; }
 
+#if defined(_WIN32)
+  [[nodiscard]] inline bool fileBacked() const { return file_backed_; }
+#else
+  [[nodiscard]] inline bool fileBacked() const { return fd_ >= 0; }
+#endif
+
   // Hints
   void adviseSequential();
   void adviseRandom();
@@ -91,6 +97,7 @@ class ZenFSBlobMMAPFile {
   void cleanupWindows();
   HANDLE file_ = INVALID_HANDLE_VALUE;
   HANDLE mapping_ = nullptr;
+  bool file_backed_ = false;
 #else
   void cleanupPosix();
   int fd_ = -1;
-- 
2.43.0


From dd36ed5c32550bf864d480fe06444b6683767ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 51/76] fix: the native prefix tree follows an edge to its
 children only if all of it matches

---
 mllm/engine/prefix_cache/RadixTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index d9049c5..6f8ef1c 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -70,6 +70,8 @@ bool RadixTree::insert(const RadixTreeNodeKey& key, const RadixTreeNodeValue& va
     }
     if (!found) break;
     cur = deepest;
+    // Only a whole edge leads to the node's children.
+    if (edge_matched < deepest->key.token_ids.size()) break;
   }
 
   if (matched == key.token_ids.size()) {
@@ -135,6 +137,8 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
     }
 
     if (!found_next_child) { break; }
+    // Only a whole edge leads to the node's children.
+    if (path.back().second < cur_node->key.token_ids.size()) { break; }
   }
 
   if (cur_searched_len) {
-- 
2.43.0


From 4c3f31eb6a73b841d918efe60ffc5803077dd0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 52/76] fix: entries of the native prefix caches stored under
 an extra key can be found

---
 mllm/engine/prefix_cache/Cache.cpp | 4 ++--
 mllm/engine/prefix_cache/Cache.hpp | 2 +-
 mllm/nn/lmcache/PrefixCache.cpp    | 8 ++++----
 mllm/nn/lmcache/PrefixCache.hpp    | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mllm/engine/prefix_cache/Cache.cpp b/mllm/engine/prefix_cache/Cache.cpp
index 0076112..279f2f4 100644
--- a/mllm/engine/prefix_cache/Cache.cpp
+++ b/mllm/engine/prefix_cache/Cache.cpp
@@ -21,8 +21,8 @@ void Cache::promote(const std::vector<int64_t>& token_ids, const std::vector<std
   tree_.insert(RadixTreeNodeKey(VectorView<int64_t>(token_ids), extra_key), value);
 }
 
-RadixSearchResult Cache::find(const std::vector<int64_t>& token_ids) {
-  return tree_.search(RadixTreeNodeKey(VectorView<int64_t>(token_ids)));
+RadixSearchResult Cache::find(const std::vector<int64_t>& token_ids, int64_t extra_key) {
+  return tree_.search(RadixTreeNodeKey(VectorView<int64_t>(token_ids), extra_key));
 }
 
 // low level APIs
diff --git a/mllm/engine/prefix_cache/Cache.hpp b/mllm/engine/prefix_cache/Cache.hpp
index b6e520a..b413a82 100644
--- a/mllm/engine/prefix_cache/Cache.hpp
+++ b/mllm/engine/prefix_cache/Cache.hpp
@@ -27,7 +27,7 @@ class Cache {
   void promote(const std::vector<int64_t>& token_ids, const std::vector<std::vector<vp_addr_t>>& key_cache_addresses,
                const std::vector<std::vector<vp_addr_t>>& value_cache_addresses, int64_t extra_key = 0);
 
-  RadixSearchResult find(const std::vector<int64_t>& token_ids);
+  RadixSearchResult find(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   // Low level APIs
   vp_addr_t alloc(DeviceTypes device_type);
diff --git a/mllm/nn/lmcache/PrefixCache.cpp b/mllm/nn/lmcache/PrefixCache.cpp
index e88109d..88fd217 100644
--- a/mllm/nn/lmcache/PrefixCache.cpp
+++ b/mllm/nn/lmcache/PrefixCache.cpp
@@ -49,8 +49,8 @@ void PrefixCache::purgeKey(int layer_idx, prefix_cache::vp_addr_t addr) {}
 
 void PrefixCache::purgeValue(int layer_idx, prefix_cache::vp_addr_t addr) {}
 
-prefix_cache::RadixSearchResult PrefixCache::find(const std::vector<int64_t>& token_ids) {
-  return tree_->search(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids)));
+prefix_cache::RadixSearchResult PrefixCache::find(const std::vector<int64_t>& token_ids, int64_t extra_key) {
+  return tree_->search(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids), extra_key));
 }
 
 CpuPrefixCache::CpuPrefixCache(const PrefixCacheOptions& options) : PrefixCache(options) {
@@ -83,7 +83,7 @@ void CpuPrefixCache::promote(const std::vector<int64_t>& token_ids,
   tree_->insert(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids), extra_key), value);
 }
 
-void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids) {
+void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids, int64_t extra_key) {
   // Check the sliding window layers if they need to be evicted
   // Remember that the token_ids is full and not partial
   if (!options_.hybrid_sliding_window_cache.value_or(false)) { return; }
@@ -91,7 +91,7 @@ void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token
 
   // We evict the tokens outof sliding window.
   // 1. find token_ids path
-  auto result = find(token_ids);
+  auto result = find(token_ids, extra_key);
 
   for (int layer_idx = 0; layer_idx < options_.total_layers; ++layer_idx) {
     // Only perform on sliding window
diff --git a/mllm/nn/lmcache/PrefixCache.hpp b/mllm/nn/lmcache/PrefixCache.hpp
index 89aba2e..c51dc82 100644
--- a/mllm/nn/lmcache/PrefixCache.hpp
+++ b/mllm/nn/lmcache/PrefixCache.hpp
@@ -60,7 +60,7 @@ class PrefixCache {
  public:
   explicit PrefixCache(const PrefixCacheOptions& options);
 
-  prefix_cache::RadixSearchResult find(const std::vector<int64_t>& token_ids);
+  prefix_cache::RadixSearchResult find(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   virtual ~PrefixCache();
 
@@ -116,7 +116,7 @@ class CpuPrefixCache final : public PrefixCache {
    *
    * @param token_ids
    */
-  void evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids);
+  void evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   prefix_cache::vp_addr_t allocKey(int layer_idx) override;
 
-- 
2.43.0


From b42fdb90ca5b7a3c20fbffc4b168a78f3ab9ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 53/76] fix: equal tokens of different namespaces are different
 keys of the native prefix tree

operator== ignored extra_key while the hash includes it: when two namespaces stored
an edge with the same tokens and both fell into one hash bucket, emplace() dropped
one of them and everything stored below it was lost.
---
 mllm/engine/prefix_cache/RadixTree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index 6f8ef1c..a096166 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -11,7 +11,9 @@ namespace mllm::prefix_cache {
 RadixTreeNodeKey::RadixTreeNodeKey(const VectorView<int64_t>& token_ids_tmp, int64_t extra_key_tmp)
     : token_ids(token_ids_tmp), extra_key(extra_key_tmp) {}
 
-bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept { return token_ids == o.token_ids; }
+bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept {
+  return extra_key == o.extra_key && token_ids == o.token_ids;
+}
 
 bool RadixTreeNodeKey::operator!=(const RadixTreeNodeKey& o) const noexcept { return !(*this == o); }
 
-- 
2.43.0


From dce1f07038d4a6125c0aae0626ff06f15876d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 54/76] fix: a tensor view without dimensions writes no stride
 in front of the stride array

---
 mllm/core/TensorViewImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/core/TensorViewImpl.cpp b/mllm/core/TensorViewImpl.cpp
index 048c0a1..5fbdb09 100644
--- a/mllm/core/TensorViewImpl.cpp
+++ b/mllm/core/TensorViewImpl.cpp
@@ -92,7 +92,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(const TensorViewImpl::shape_t& shap
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) ret->stride_[ret->shape_len_ - 1] = 1;
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
@@ -111,7 +111,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(int32_t storage_offset, const Tenso
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) ret->stride_[ret->shape_len_ - 1] = 1;
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
-- 
2.43.0


From 761d159ddbdbc55cc83214c42a1688646c48f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 55/76] fix: bfloat16 and the remaining quantization types have
 the size of their data

lanesOfType() and bytesOfType() only printed a note and returned 1 for them, so a
bfloat16 tensor loaded into memory got half the bytes the file holds and the read
went beyond its buffer.
---
 mllm/core/DataTypes.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/mllm/core/DataTypes.cpp b/mllm/core/DataTypes.cpp
index 99f5e85..43c6f51 100644
--- a/mllm/core/DataTypes.cpp
+++ b/mllm/core/DataTypes.cpp
@@ -37,7 +37,6 @@ size_t lanesOfType(DataTypes dtype) {
     // CASE(kGGUF_IQ1_S) There is no such type right now.
     // CASE(kGGUF_IQ1_M) There is no such type right now.
     // CASE(kGGUF_IQ2_S) There is no such type right now.
-    // CASE(kBFloat16)  There is no such type right now.
     CASE(kUInt8)
     CASE(kBool)
     CASE(kUInt16)
@@ -52,6 +51,20 @@ size_t lanesOfType(DataTypes dtype) {
     CASE(kUInt8PerTensorSym)
     CASE(kUInt16PerTensorAsy)
     CASE(kUInt16PerTensorSym)
+    CASE(kInt8PerChannelSym)
+    CASE(kUInt8PerChannelSym)
+    CASE(kInt16PerChannelSym)
+    CASE(kUInt16PerChannelSym)
+    CASE(kInt8PerTensorAsy)
+    CASE(kInt8PerChannelAsy)
+    CASE(kUInt8PerTensorAsy)
+    CASE(kUInt8PerChannelAsy)
+    CASE(kInt16PerTensorAsy)
+    CASE(kInt16PerChannelAsy)
+    CASE(kUInt16PerChannelAsy)
+    CASE(kInt4)
+    CASE(kUInt4)
+    case kBFloat16:
     case kByte: return MllmDataTypeInfo<kUInt8>::lanes();
     default: NYI("Unknown data type {}", (int32_t)dtype);
   }
@@ -90,7 +103,6 @@ size_t bytesOfType(DataTypes dtype) {
     // CASE(kGGUF_IQ1_S) There is no such type right now.
     // CASE(kGGUF_IQ1_M) There is no such type right now.
     // CASE(kGGUF_IQ2_S) There is no such type right now.
-    // CASE(kBFloat16)  There is no such type right now.
     CASE(kUInt8)
     CASE(kBool)
     CASE(kUInt16)
@@ -105,8 +117,20 @@ size_t bytesOfType(DataTypes dtype) {
     CASE(kUInt16PerTensorAsy)
     CASE(kInt8PerTensorSym)
     CASE(kUInt8PerTensorSym)
+    CASE(kInt8PerChannelSym)
+    CASE(kUInt8PerChannelSym)
+    CASE(kInt16PerChannelSym)
+    CASE(kUInt16PerChannelSym)
+    CASE(kInt8PerTensorAsy)
+    CASE(kInt8PerChannelAsy)
+    CASE(kUInt8PerTensorAsy)
+    CASE(kUInt8PerChannelAsy)
+    CASE(kInt16PerTensorAsy)
+    CASE(kInt16PerChannelAsy)
+    CASE(kUInt16PerChannelAsy)
     CASE(kInt4)
     CASE(kUInt4)
+    case kBFloat16: return sizeof(uint16_t);
     case kByte: return MllmDataTypeInfo<kUInt8>::bytes();
     default: NYI("Unknown data type");
   }
-- 
2.43.0


From 7aa568c3099519ba2b37c80e2c53e3ac400fc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 56/76] fix: model files that are truncated or whose
 descriptors point outside the file are refused

The readers trusted every offset, length, count, shape and type they found, ignored
short reads, and read parameter_size bytes into a buffer of the tensor's size.
---
 mllm/core/DataTypes.cpp     |  52 +++++++++
 mllm/core/DataTypes.hpp     |   3 +
 mllm/core/ParameterFile.cpp | 208 ++++++++++++++++++++++++------------
 3 files changed, 192 insertions(+), 71 deletions(-)

diff --git a/mllm/core/DataTypes.cpp b/mllm/core/DataTypes.cpp
index 43c6f51..b8b1f9b 100644
--- a/mllm/core/DataTypes.cpp
+++ b/mllm/core/DataTypes.cpp
@@ -138,6 +138,58 @@ size_t bytesOfType(DataTypes dtype) {
 #undef CASE
 }
 
+bool isSizedType(DataTypes dtype) {
+  switch (dtype) {
+    case kFloat32:
+    case kFloat16:
+    case kGGUF_Q4_0:
+    case kGGUF_Q8_0:
+    case kGGUF_Q8_Pertensor:
+    case kGGUF_Q4_K:
+    case kGGUF_Q6_K:
+    case kGGUF_Q8_K:
+    case kInt8:
+    case kInt16:
+    case kInt32:
+    case kGGUF_Q4_0_4_4:
+    case kGGUF_Q4_0_4_8:
+    case kGGUF_Q8_0_4_4:
+    case kGGUF_Q3_K:
+    case kGGUF_Q2_K:
+    case kGGUF_IQ2_XXS:
+    case kUInt8:
+    case kBool:
+    case kUInt16:
+    case kUInt32:
+    case kInt64:
+    case kUInt64:
+    case kMXFP4:
+    case kComplexFloat32:
+    case kComplexFloat64:
+    case kInt16PerTensorSym:
+    case kUInt16PerTensorSym:
+    case kUInt16PerTensorAsy:
+    case kInt8PerTensorSym:
+    case kUInt8PerTensorSym:
+    case kInt8PerChannelSym:
+    case kUInt8PerChannelSym:
+    case kInt16PerChannelSym:
+    case kUInt16PerChannelSym:
+    case kInt8PerTensorAsy:
+    case kInt8PerChannelAsy:
+    case kUInt8PerTensorAsy:
+    case kUInt8PerChannelAsy:
+    case kInt16PerTensorAsy:
+    case kInt16PerChannelAsy:
+    case kUInt16PerChannelAsy:
+    case kInt4:
+    case kUInt4:
+    case kBFloat16:
+    case kByte: return true;
+    default: return false;
+  }
+}
+
 std::string nameOfType(DataTypes dtype) {
 #define CASE(T)                         \
   case T: {                             \
diff --git a/mllm/core/DataTypes.hpp b/mllm/core/DataTypes.hpp
index 71a3050..557b154 100644
--- a/mllm/core/DataTypes.hpp
+++ b/mllm/core/DataTypes.hpp
@@ -735,6 +735,9 @@ size_t lanesOfType(DataTypes dtype);
 
 size_t bytesOfType(DataTypes dtype);
 
+// Whether lanesOfType() and bytesOfType() know this type.
+bool isSizedType(DataTypes dtype);
+
 std::string nameOfType(DataTypes dtype);
 
 }  // namespace mllm
diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 072adfa..3ffad52 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -3,6 +3,7 @@
 
 #include <limits>
 #include <vector>
+#include <cstring>
 #include <fstream>
 
 #include "mllm/utils/Common.hpp"
@@ -15,6 +16,99 @@
 
 namespace mllm {
 
+namespace {
+// Whether [offset, offset + size) lies in a file of file_size bytes.
+bool insideFile(uint64_t offset, uint64_t size, uint64_t file_size) {
+  return offset <= file_size && size <= file_size - offset;
+}
+
+// Refuses a tensor whose data cannot be what the descriptor says.
+void checkStoredTensor(const std::string& file_path, const std::string& name, const TensorViewImpl::shape_t& shape, int64_t dtype,
+                       uint64_t offset, uint64_t size, uint64_t file_size) {
+  bool ok = dtype >= 0 && dtype <= std::numeric_limits<int32_t>::max() && isSizedType(static_cast<DataTypes>(dtype))
+            && insideFile(offset, size, file_size);
+  if (ok) {
+    const uint64_t limit = std::numeric_limits<int64_t>::max();
+    const uint64_t lanes = lanesOfType(static_cast<DataTypes>(dtype));
+    uint64_t numel = 1;
+    for (auto dim : shape) {
+      ok = ok && dim >= 0 && (dim == 0 || numel <= limit / dim);
+      if (ok) { numel *= dim; }
+    }
+    ok = ok && numel % lanes == 0 && numel / lanes <= size / bytesOfType(static_cast<DataTypes>(dtype));
+  }
+  if (!ok) { MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: parameter {}", file_path, name); }
+}
+
+// The descriptor section of a V1 file.
+std::vector<ModelFileV1ParamsDescriptorHelper> parseV1Descriptors(const std::string& file_path, const char* current_pos,
+                                                                  size_t size) {
+  const char* end_pos = current_pos + size;
+  auto take = [&](void* to, size_t bytes) {
+    if (static_cast<size_t>(end_pos - current_pos) < bytes) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: descriptors", file_path);
+    }
+    std::memcpy(to, current_pos, bytes);
+    current_pos += bytes;
+  };
+
+  // Loop to find each tensor
+  std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
+  while (current_pos < end_pos) {
+    ModelFileV1ParamsDescriptorHelper helper;
+
+    // Gen Name length
+    uint32_t name_len = 0;
+    take(&name_len, sizeof(uint32_t));
+    helper.descriptor_.name_len = name_len;
+
+    // Get Name
+    if (static_cast<size_t>(end_pos - current_pos) < name_len) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: descriptors", file_path);
+    }
+    helper.name_ = std::string(current_pos, name_len);
+    current_pos += name_len;
+
+    // Weight length, offset, datatype
+    take(&helper.descriptor_.data_len, sizeof(uint64_t));
+    take(&helper.descriptor_.offset, sizeof(uint64_t));
+    take(&helper.descriptor_.dtype, sizeof(int32_t));
+
+    // emplace
+    tensor_meta_info.emplace_back(helper);
+  }
+  return tensor_meta_info;
+}
+
+// A V1 file keeps no shape, only the number of bytes.
+TensorViewImpl::shape_t v1Shape(const std::string& file_path, const ModelFileV1ParamsDescriptorHelper& desc, uint64_t file_size) {
+  auto dtype = static_cast<DataTypes>(desc.descriptor_.dtype);
+  if (!isSizedType(dtype) || desc.descriptor_.data_len % bytesOfType(dtype) != 0
+      || desc.descriptor_.data_len / bytesOfType(dtype) > std::numeric_limits<int32_t>::max() / lanesOfType(dtype)) {
+    MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: parameter {}", file_path, desc.name_);
+  }
+  TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
+  checkStoredTensor(file_path, desc.name_, shape, desc.descriptor_.dtype, desc.descriptor_.offset, desc.descriptor_.data_len,
+                    file_size);
+  return shape;
+}
+
+uint64_t sizeOfStream(std::ifstream& file, const std::string& file_path) {
+  file.seekg(0, std::ios::end);
+  auto size = file.tellg();
+  file.seekg(0, std::ios::beg);
+  if (!file || size < 0) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to read file {}.", file_path); }
+  return static_cast<uint64_t>(size);
+}
+
+void readStream(std::ifstream& file, const std::string& file_path, void* to, uint64_t bytes) {
+  file.read(static_cast<char*>(to), static_cast<std::streamsize>(bytes));
+  if (!file || static_cast<uint64_t>(file.gcount()) != bytes) {
+    MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to read file {}.", file_path);
+  }
+}
+}  // namespace
+
 ParameterFile::ParameterFile(ModelFileVersion v) : version_(v) {}
 
 ParameterFile::ptr_t ParameterFile::create(ModelFileVersion v) { return std::make_shared<ParameterFile>(v); }
@@ -76,55 +170,33 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     p_file->setMappedFile(mmap_file);
 
     // Process Header
+    if (mmap_file->size() < sizeof(ModelFileV1Descriptor)) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: header", file_path);
+    }
     uint64_t parameter_desc_offset = -1;
     {
       auto* header = static_cast<ModelFileV1Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header->magic_number);
       parameter_desc_offset = header->parameter_desc_offset;
     }
+    if (!insideFile(sizeof(ModelFileV1Descriptor), parameter_desc_offset, mmap_file->size())) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: header", file_path);
+    }
     char* current_pos = static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor);
-    char* end_pos = current_pos + parameter_desc_offset;
 
     // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
-      helper.ptr_ = static_cast<char*>(mmap_file->data()) + helper.descriptor_.offset;
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
-    }
+    auto tensor_meta_info = parseV1Descriptors(file_path, current_pos, parameter_desc_offset);
 
     for (auto& desc : tensor_meta_info) {
       MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= desc.descriptor_.name_len);
 
       auto dtype = static_cast<DataTypes>(desc.descriptor_.dtype);
-      TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
+      TensorViewImpl::shape_t shape = v1Shape(file_path, desc, mmap_file->size());
       auto s = TensorStorage::create(shape, dtype, kCPU);
       auto t = TensorViewImpl::create(shape, s);
 
       s->name_ = desc.name_;
-      s->ptr_ = desc.ptr_;
+      s->ptr_ = static_cast<char*>(mmap_file->data()) + desc.descriptor_.offset;
       s->mem_type_ = kParamsMMAP;
 
       p_file->push(desc.name_, Tensor(t));
@@ -135,55 +207,29 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to open file for reading: {}", file_path); }
 
+    const uint64_t file_size = sizeOfStream(file, file_path);
+
     // Process Header
     ModelFileV1Descriptor header{};
-    file.read(reinterpret_cast<char*>(&header), sizeof(header));
+    readStream(file, file_path, &header, sizeof(header));
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header.magic_number);
 
     uint64_t parameter_desc_offset = header.parameter_desc_offset;
-    char* buffer = new char[parameter_desc_offset];
-    file.read(buffer, parameter_desc_offset);
-
-    char* current_pos = buffer;
-    char* end_pos = current_pos + parameter_desc_offset;
-
-    // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
+    if (!insideFile(sizeof(ModelFileV1Descriptor), parameter_desc_offset, file_size)) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: header", file_path);
     }
+    std::vector<char> buffer(parameter_desc_offset);
+    readStream(file, file_path, buffer.data(), parameter_desc_offset);
 
-    delete[] buffer;
+    // Loop to find each tensor
+    auto tensor_meta_info = parseV1Descriptors(file_path, buffer.data(), buffer.size());
 
     // Read tensor data
     for (auto& desc : tensor_meta_info) {
       MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= desc.descriptor_.name_len);
 
       auto dtype = static_cast<DataTypes>(desc.descriptor_.dtype);
-      TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
+      TensorViewImpl::shape_t shape = v1Shape(file_path, desc, file_size);
 
       // Seek to data position and read
       file.seekg(desc.descriptor_.offset, std::ios::beg);
@@ -194,7 +240,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       s->name_ = desc.name_;
       s->mem_type_ = kParamsNormal;
       p_file->push(desc.name_, Tensor(t).alloc());
-      file.read(static_cast<char*>(s->ptr_), desc.descriptor_.data_len);
+      readStream(file, file_path, s->ptr_, desc.descriptor_.data_len);
     }
 
     file.close();
@@ -277,6 +323,9 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     p_file->setMappedFile(mmap_file);
 
     // Process Header
+    if (mmap_file->size() < sizeof(ModelFileV2Descriptor)) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: header", file_path);
+    }
     {
       auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header->magic_number);
@@ -284,6 +333,10 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     }
 
     auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
+    if (header->params_desc_offset < sizeof(ModelFileV2Descriptor)
+        || !insideFile(header->params_desc_offset, header->num_params * sizeof(ModelFileV2ParamsDescriptor), mmap_file->size())) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: header", file_path);
+    }
     char* params_desc_begin = static_cast<char*>(mmap_file->data()) + header->params_desc_offset;
 
     if (header->params_desc_offset != sizeof(ModelFileV2Descriptor)) {
@@ -308,6 +361,9 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
         shape.push_back(param_desc->shape[j]);
       }
 
+      checkStoredTensor(file_path, name, shape, param_desc->parameter_type, param_desc->parameter_offset, param_desc->parameter_size,
+                        mmap_file->size());
+
       // Create tensor storage and view
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc->parameter_type), kCPU);
       auto t = TensorViewImpl::create(shape, s);
@@ -329,8 +385,10 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to open parameter file"); }
 
+    const uint64_t file_size = sizeOfStream(file, file_path);
+
     ModelFileV2Descriptor header;
-    file.read(reinterpret_cast<char*>(&header), sizeof(ModelFileV2Descriptor));
+    readStream(file, file_path, &header, sizeof(ModelFileV2Descriptor));
 
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header.magic_number);
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_VERSION, header.version);
@@ -342,9 +400,14 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
           file_path);
     }
 
+    if (header.params_desc_offset < sizeof(ModelFileV2Descriptor)
+        || !insideFile(header.params_desc_offset, header.num_params * sizeof(ModelFileV2ParamsDescriptor), file_size)) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "The model file {} is damaged: header", file_path);
+    }
+
     std::vector<ModelFileV2ParamsDescriptor> param_descriptors(header.num_params);
     file.seekg(header.params_desc_offset);
-    file.read(reinterpret_cast<char*>(param_descriptors.data()), header.num_params * sizeof(ModelFileV2ParamsDescriptor));
+    readStream(file, file_path, param_descriptors.data(), header.num_params * sizeof(ModelFileV2ParamsDescriptor));
 
     for (uint32_t i = 0; i < header.num_params; i++) {
       const auto& param_desc = param_descriptors[i];
@@ -357,13 +420,16 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
         shape.push_back(param_desc.shape[j]);
       }
 
+      checkStoredTensor(file_path, name, shape, param_desc.parameter_type, param_desc.parameter_offset, param_desc.parameter_size,
+                        file_size);
+
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc.parameter_type), kCPU);
       auto t = TensorViewImpl::create(shape, s);
 
       s->name_ = name;
       auto tensor = Tensor(t).alloc();
       file.seekg(param_desc.parameter_offset);
-      file.read(static_cast<char*>(s->ptr_), param_desc.parameter_size);
+      readStream(file, file_path, s->ptr_, tensor.bytes());
       s->mem_type_ = kParamsNormal;
       MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
       p_file->push(name, tensor);
-- 
2.43.0


From 315442c9a7388b1fccf0d2a9728e994fd413ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 57/76] fix: the V1 descriptor section is as long as the names
 written into it

Its length was computed from the storages' names, its content from the names the
parameters are registered under.
---
 mllm/core/ParameterFile.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 3ffad52..29b0c36 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -259,12 +259,11 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Calculate total size of the descriptor section
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    param_desc_total_size += sizeof(uint32_t);                        // name length
-    param_desc_total_size += tensor.impl()->storage()->name_.size();  // name string
-    param_desc_total_size += sizeof(uint64_t);                        // data length
-    param_desc_total_size += sizeof(uint64_t);                        // offset
-    param_desc_total_size += sizeof(int32_t);                         // data type
+    param_desc_total_size += sizeof(uint32_t);   // name length
+    param_desc_total_size += pair.first.size();  // name string
+    param_desc_total_size += sizeof(uint64_t);   // data length
+    param_desc_total_size += sizeof(uint64_t);   // offset
+    param_desc_total_size += sizeof(int32_t);    // data type
   }
 
   // Write header: parameter_desc_offset is now the SIZE of the descriptor section
-- 
2.43.0


From f4750e03ef42500a57e09a4d1158934aef3fb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 58/76] fix: a V2 model file is not written with a shortened
 parameter name

---
 mllm/core/ParameterFile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 29b0c36..83cf7b5 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -485,8 +485,10 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     for (size_t i = 0; i < shape.size() && i < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; i++) { param_desc.shape[i] = shape[i]; }
 
     // Set name
-    strncpy(param_desc.name, name.c_str(), MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH - 1);
-    param_desc.name[MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH - 1] = '\0';
+    if (name.size() > MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH || shape.size() > MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "A model file cannot hold the name or the shape of parameter {}", name);
+    }
+    std::memcpy(param_desc.name, name.data(), name.size());
 
     // Write parameter descriptor
     out_file.write(reinterpret_cast<const char*>(&param_desc), sizeof(param_desc));
-- 
2.43.0


From e694d77dc76c9e1bcdcc44edc203390adb75c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 59/76] fix: saving a model file reports failed writes

---
 mllm/core/ParameterFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 83cf7b5..d8116db 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -306,6 +306,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
   }
 
   out_file.close();
+  if (!out_file) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write file: {}", file_path); }
 }
 
 //===----------------------------------------------------------------------===//
@@ -504,5 +505,6 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
   }
 
   out_file.close();
+  if (!out_file) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write file: {}", file_path); }
 }
 }  // namespace mllm
-- 
2.43.0


From de8c324394e7441de08bf57cae4610d067e4a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 60/76] fix: streaming more tensors than were reserved does not
 overwrite the data of the first one

---
 pymllm/mobile/convertor/model_file_v2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 976c044..769096b 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -159,7 +159,10 @@ class ModelFileV2:
 
         tensor_size = len(tensor_data)
 
-        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num
+        if len(self.v2_param_descriptor) >= self.max_params_descriptor_buffer_num:
+            raise ValueError(
+                f"Only {self.max_params_descriptor_buffer_num} parameters were reserved"
+            )
         desc = ModelFileV2ParamsDescriptor(
             param_id=len(self.v2_param_descriptor),
             param_type=true_dtype,
-- 
2.43.0


From bed002ff9c6c5ae9300886d031d4adcf4b2bfb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 61/76] fix: numpy arrays can be written into a V2 model file

---
 pymllm/mobile/convertor/model_file_v2.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 769096b..b9503ca 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -32,6 +32,11 @@ def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     return t.view(torch.uint8).numpy().tobytes()
 
 
+def _numpy_array_bytes(array: "np.ndarray") -> bytes:
+    # Model files are little endian.
+    return array.astype(array.dtype.newbyteorder("<"), copy=False).tobytes()
+
+
 class ModelFileV2Descriptor:
     SIZE = 532
 
@@ -145,8 +150,8 @@ class ModelFileV2:
         elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(tensor_obj, np.ndarray):
             # Numpy array
             shape = list(tensor_obj.shape)
-            tensor_data = tensor_obj.tobytes()
-            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype]
+            tensor_data = _numpy_array_bytes(tensor_obj)
+            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype.type]
         elif isinstance(tensor_obj, Tensor):
             # Mllm Tensor
             shape = list(tensor_obj.shape)
@@ -219,8 +224,8 @@ class ModelFileV2:
             elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(tensor, np.ndarray):
                 # Numpy array
                 shape = list(tensor.shape)
-                tensor_data = tensor.tobytes()
-                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype]
+                tensor_data = _numpy_array_bytes(tensor)
+                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype.type]
             elif isinstance(tensor, Tensor):
                 # Mllm Tensor
                 shape = list(tensor.shape)
-- 
2.43.0


From d1372e89be3911f61ec76bd4931173520be7c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 62/76] fix: a streamed model file without tensors lists none

---
 pymllm/mobile/convertor/model_file_v2.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index b9503ca..d2e7aa5 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -118,9 +118,7 @@ class ModelFileV2:
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
             model_name="",
-            num_params=0
-            if update_mode == "Static"
-            else self.max_params_descriptor_buffer_num,
+            num_params=0,
         )
 
         # Open file
-- 
2.43.0


From d86a0fc0d7d476bb3e5045455ec0ca9ebbff6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 63/76] fix: the Python model writer does not shorten parameter
 names

---
 pymllm/mobile/convertor/model_file_v2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index d2e7aa5..da0a144 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -85,6 +85,11 @@ def _pack_descriptor(desc) -> bytes:
         )
     elif isinstance(desc, ModelFileV2ParamsDescriptor):
         name_bytes = desc.name.encode("utf-8")
+        if (
+            len(name_bytes) > MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH
+            or b"\0" in name_bytes
+        ):
+            raise ValueError(f"A model file cannot hold the parameter name {desc.name}")
         name_bytes = name_bytes.ljust(MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH, b"\0")[
             :MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH
         ]
-- 
2.43.0


From 0e81a43bfd0cf8086381736d4f2336b01e0030c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 64/76] fix: a V2 model file written from Python names its
 model

---
 pymllm/mobile/convertor/model_file_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index da0a144..b316193 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -122,7 +122,7 @@ class ModelFileV2:
             )
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
-            model_name="",
+            model_name=model_name,
             num_params=0,
         )
 
-- 
2.43.0


From 6cbc2fc79473ff369e0747cf59fca6b6fb568708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 65/76] fix: params that no quantization pass takes are counted

---
 pymllm/mobile/quantize/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/mobile/quantize/solver.py b/pymllm/mobile/quantize/solver.py
index c9669e4..a88e3f6 100644
--- a/pymllm/mobile/quantize/solver.py
+++ b/pymllm/mobile/quantize/solver.py
@@ -56,6 +56,9 @@ class QuantizeSolver:
                         )
                         param_groups[group_regex][1][payload_name] = prepared_payload
                         break
+                else:
+                    # No pass takes these params, they are written as they are.
+                    payload.inputs_dict = {}
 
         # Update params nums
         aux = set(tensor_dict.keys())
-- 
2.43.0


From 27f90b2d9f06d1feb8cdbaaf0fd5034620346583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 66/76] fix: slices with a last dimension of one can be written
 into a V2 model file

---
 pymllm/mobile/convertor/model_file_v2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index b316193..ffabe57 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -29,6 +29,9 @@ def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     t = tensor.detach().cpu().contiguous()
     if t.dim() == 0:
         t = t.reshape(1)
+    elif t.stride(-1) != 1:
+        # A dimension of size 1 may have any stride in a contiguous tensor.
+        t = t.clone(memory_format=torch.contiguous_format)
     return t.view(torch.uint8).numpy().tobytes()
 
 
-- 
2.43.0


From e8b1de22564602e75ab1c27b24b0254a1f5bfdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:14 +0000
Subject: [PATCH 67/76] fix: control threads get their own session block,
 distinct ids and distinct random states

---
 mllm/engine/Context.cpp | 30 +++++++++++++++++++-----------
 mllm/engine/Context.hpp |  3 +++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/mllm/engine/Context.cpp b/mllm/engine/Context.cpp
index 7dddff6..c218300 100644
--- a/mllm/engine/Context.cpp
+++ b/mllm/engine/Context.cpp
@@ -96,35 +96,40 @@ std::vector<Tensor> Context::buildOpAndSubmitTask(OpTypes op_type, const BaseOpO
   }
 }
 
-uint32_t Context::getUUID() {
-  uint32_t ret = custom_uuid_giver_;
-  custom_uuid_giver_++;
-  return ret;
-}
+uint32_t Context::getUUID() { return custom_uuid_giver_.fetch_add(1); }
 
 SessionTCB::ptr_t Context::thisThread() {
-  if (!session_threads_.count(std::this_thread::get_id())) {
-    session_threads_.insert({std::this_thread::get_id(), std::make_shared<SessionTCB>()});
+  auto tid = std::this_thread::get_id();
+  std::lock_guard<std::mutex> lock(session_threads_mutex_);
+  auto& tcb = session_threads_[tid];
+  if (!tcb) {
+    tcb = std::make_shared<SessionTCB>();
+    tcb->system_tid = tid;
     std::stringstream ss;
-    ss << std::this_thread::get_id();
+    ss << tid;
     MLLM_WARN(
         "This control thread did not registered a SessionTCB in Context. The Context will automatically create one for you. "
         "But it is recommend to create SessionTCB manually. THREAD ID: {}",
         ss.str());
   }
-  return session_threads_[std::this_thread::get_id()];
+  return tcb;
 }
 
 SessionTCB::ptr_t Context::mainThread() { return main_thread_; }
 
 void Context::setRandomSeed(uint64_t seed) {
+  std::lock_guard<std::mutex> lock(random_mutex_);
   random_seed_ = seed;
   random_state_ = seed;
 }
 
-uint64_t Context::getRandomSeed() { return random_seed_; }
+uint64_t Context::getRandomSeed() {
+  std::lock_guard<std::mutex> lock(random_mutex_);
+  return random_seed_;
+}
 
 uint64_t Context::getRandomState() {
+  std::lock_guard<std::mutex> lock(random_mutex_);
   auto ret = random_state_;
   std::mt19937 gen(random_state_);
   random_state_ = gen();
@@ -137,7 +142,10 @@ uint64_t Context::curTime() {
   return std::chrono::duration_cast<std::chrono::microseconds>(duration).count();
 }
 
-std::unordered_map<std::thread::id, SessionTCB::ptr_t> Context::refSessionThreads() { return session_threads_; }
+std::unordered_map<std::thread::id, SessionTCB::ptr_t> Context::refSessionThreads() {
+  std::lock_guard<std::mutex> lock(session_threads_mutex_);
+  return session_threads_;
+}
 
 void Context::setPrintPrecision(int precision) { print_precision_ = precision; }
 
diff --git a/mllm/engine/Context.hpp b/mllm/engine/Context.hpp
index 4f1f5ee..df3deb7 100644
--- a/mllm/engine/Context.hpp
+++ b/mllm/engine/Context.hpp
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <atomic>
+#include <mutex>
 
 #include <nlohmann/json.hpp>
 
@@ -81,9 +82,11 @@ class Context {
   // Plugin system
   plugin::OpPluginSystem op_plugin_system_;
 
+  std::mutex random_mutex_;
   uint64_t random_seed_ = 42;
   uint64_t random_state_ = 42;
   SessionTCB::ptr_t main_thread_;
+  std::mutex session_threads_mutex_;
   std::unordered_map<std::thread::id, SessionTCB::ptr_t> session_threads_;
 
   std::atomic<uint32_t> custom_uuid_giver_ = 0;
-- 
2.43.0


From d6755173dd55de5ba41316d938831224ae2f47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:12 +0000
Subject: [PATCH 68/76] fix: loading a tensor in the background loads it

---
 mllm/engine/io/Primitives.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/io/Primitives.cpp b/mllm/engine/io/Primitives.cpp
index 3545b28..7f6f961 100644
--- a/mllm/engine/io/Primitives.cpp
+++ b/mllm/engine/io/Primitives.cpp
@@ -37,13 +37,13 @@ TaskResult::sender_t loadAnonymousMemoryTensorFromDisk(Tensor& dst, const std::s
                                                        const std::string& file_name, ModelFileVersion version) {
   auto task = std::make_shared<Task>();
 
-  task->type = (TaskTypes)AsyncIOTaskTypes::kPromoteMMAPTensor2AnonymousMemoryTensor;
+  task->type = (TaskTypes)AsyncIOTaskTypes::kLoadAnonymousMemoryTensorFromDisk;
   task->inputs = {dst};
   task->outputs = {dst};
   task->args = {
       AnyValue(std::string(tensor_name)),
       AnyValue(std::string(file_name)),
-      AnyValue(version),
+      AnyValue(ModelFileVersion(version)),  // owned: the task runs after this function returned
   };
   task->custom_context_ptr = nullptr;
 
-- 
2.43.0


From be2a20009b0b3e4dfe361942a8338dd5a6d70342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:22 +0000
Subject: [PATCH 69/76] fix: dispatchers can be registered while other threads
 use the engine

---
 mllm/compile/ir/Trace.cpp         | 23 +++++++++++++++--------
 mllm/engine/DispatcherManager.cpp | 20 +++++++++++++++-----
 mllm/engine/DispatcherManager.hpp |  2 ++
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/mllm/compile/ir/Trace.cpp b/mllm/compile/ir/Trace.cpp
index 4c81647..2a22ae4 100644
--- a/mllm/compile/ir/Trace.cpp
+++ b/mllm/compile/ir/Trace.cpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 
 #include <memory>
+#include <mutex>
 
 #include "mllm/compile/ir/Trace.hpp"
 #include "mllm/compile/ir/builtin/Attribute.hpp"
@@ -12,15 +13,24 @@
 
 namespace mllm::ir {
 
+namespace {
+void ensureTraceDispatcher() {
+  static std::mutex mutex;
+  std::lock_guard<std::mutex> lock(mutex);
+  auto manager = Context::instance().dispatcherManager();
+  if (!manager->hasDispatcher(Dispatcher::trace_dispatcher_id)) {
+    // Always need_async_exec_ false.
+    manager->registerDispatcher(createIRTraceDispatcher(manager->getExecutor(), {}));
+  }
+}
+}  // namespace
+
 IRContext::ptr_t trace_(nn::Module& module, const std::vector<Tensor>& ref_inputs, const std::vector<AnyValue>& args) {
   auto& ctx = Context::instance();
   auto this_session = ctx.thisThread();
 
   // Check if the Trace dispatcher is registered. If not register one for user.
-  if (!ctx.dispatcherManager()->hasDispatcher(Dispatcher::trace_dispatcher_id)) {
-    // Always need_async_exec_ false.
-    ctx.dispatcherManager()->registerDispatcher(createIRTraceDispatcher(ctx.dispatcherManager()->getExecutor(), {}));
-  }
+  ensureTraceDispatcher();
 
   // Mark this thread SessionTCB as trace mode.
   this_session->trace_mode = true;
@@ -65,10 +75,7 @@ void traceStart() {
   auto this_session = ctx.thisThread();
 
   // Check if the Trace dispatcher is registered. If not register one for user.
-  if (!ctx.dispatcherManager()->hasDispatcher(Dispatcher::trace_dispatcher_id)) {
-    // Always need_async_exec_ false.
-    ctx.dispatcherManager()->registerDispatcher(createIRTraceDispatcher(ctx.dispatcherManager()->getExecutor(), {}));
-  }
+  ensureTraceDispatcher();
 
   // Mark this thread SessionTCB as trace mode.
   this_session->trace_mode = true;
diff --git a/mllm/engine/DispatcherManager.cpp b/mllm/engine/DispatcherManager.cpp
index 6ff0e62..53c9c76 100644
--- a/mllm/engine/DispatcherManager.cpp
+++ b/mllm/engine/DispatcherManager.cpp
@@ -1,6 +1,9 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <mutex>
+#include <shared_mutex>
+
 #include "mllm/engine/DispatcherManager.hpp"
 #include "exec/static_thread_pool.hpp"
 #include "mllm/utils/Common.hpp"
@@ -17,20 +20,27 @@ DispatcherManager::DispatcherManager(const DispatcherManagerOptions& options)
 
 void DispatcherManager::submit(dispatcher_id_t id, const Task::ptr_t& task) {
   MLLM_TRACY_ZONE_SCOPED;
-  dispatchers_[id]->receive(task);
+  getDispatcher(id)->receive(task);
 }
 
 TaskResult::sender_t DispatcherManager::asyncSubmit(dispatcher_id_t id, const Task::ptr_t& task) {
-  return dispatchers_[id]->asyncReceive(task);
+  return getDispatcher(id)->asyncReceive(task);
 }
 
-void DispatcherManager::syncWait(dispatcher_id_t id) { dispatchers_[id]->syncWait(); }
+void DispatcherManager::syncWait(dispatcher_id_t id) { getDispatcher(id)->syncWait(); }
 
 void DispatcherManager::registerDispatcher(const Dispatcher::ptr_t& dispatcher) {
+  std::unique_lock<std::shared_mutex> lock(dispatchers_mutex_);
   dispatchers_.reg(dispatcher->id(), dispatcher);
 }
 
-bool DispatcherManager::hasDispatcher(dispatcher_id_t id) { return dispatchers_.has(id); }
+bool DispatcherManager::hasDispatcher(dispatcher_id_t id) {
+  std::shared_lock<std::shared_mutex> lock(dispatchers_mutex_);
+  return dispatchers_.has(id);
+}
 
-Dispatcher::ptr_t DispatcherManager::getDispatcher(dispatcher_id_t id) { return dispatchers_[id]; }
+Dispatcher::ptr_t DispatcherManager::getDispatcher(dispatcher_id_t id) {
+  std::shared_lock<std::shared_mutex> lock(dispatchers_mutex_);
+  return dispatchers_[id];
+}
 }  // namespace mllm
diff --git a/mllm/engine/DispatcherManager.hpp b/mllm/engine/DispatcherManager.hpp
index 19e0271..3419947 100644
--- a/mllm/engine/DispatcherManager.hpp
+++ b/mllm/engine/DispatcherManager.hpp
@@ -5,6 +5,7 @@
 
 #include <cstdint>
 #include <memory>
+#include <shared_mutex>
 
 #include "mllm/engine/Task.hpp"
 #include "mllm/engine/Dispatcher.hpp"
@@ -55,6 +56,7 @@ class DispatcherManager {
  private:
   DispatcherManagerOptions options_;
   exec::static_thread_pool thread_pool_;
+  std::shared_mutex dispatchers_mutex_;  // dispatchers may be registered while other threads submit
   SymbolTable<int32_t, Dispatcher::ptr_t> dispatchers_;
 };
 
-- 
2.43.0


From 1e6cc9a41efd28553fc099860975eee242e2533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:22 +0000
Subject: [PATCH 70/76] fix: a thread does not stay in trace mode when the
 traced module fails

---
 mllm/compile/ir/Trace.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mllm/compile/ir/Trace.cpp b/mllm/compile/ir/Trace.cpp
index 2a22ae4..08a335f 100644
--- a/mllm/compile/ir/Trace.cpp
+++ b/mllm/compile/ir/Trace.cpp
@@ -23,6 +23,15 @@ void ensureTraceDispatcher() {
     manager->registerDispatcher(createIRTraceDispatcher(manager->getExecutor(), {}));
   }
 }
+
+// Leaves the trace mode of a session, also when the traced module throws.
+struct TraceModeGuard {
+  SessionTCB::ptr_t session;
+  ~TraceModeGuard() {
+    session->trace_mode = false;
+    session->ir_context = nullptr;
+  }
+};
 }  // namespace
 
 IRContext::ptr_t trace_(nn::Module& module, const std::vector<Tensor>& ref_inputs, const std::vector<AnyValue>& args) {
@@ -32,7 +41,8 @@ IRContext::ptr_t trace_(nn::Module& module, const std::vector<Tensor>& ref_input
   // Check if the Trace dispatcher is registered. If not register one for user.
   ensureTraceDispatcher();
 
-  // Mark this thread SessionTCB as trace mode.
+  // Mark this thread SessionTCB as trace mode. It is marked as normal mode again when this function is left.
+  TraceModeGuard guard{this_session};
   this_session->trace_mode = true;
 
   // Create IRContext
@@ -51,10 +61,6 @@ IRContext::ptr_t trace_(nn::Module& module, const std::vector<Tensor>& ref_input
   // Forward
   module.__trace(ref_inputs, args);
 
-  // Mark this thread SessionTCB as normal mode.
-  this_session->trace_mode = false;
-  this_session->ir_context = nullptr;
-
   return ir_context;
 }
 
-- 
2.43.0


From c14cbd095ddac211a5bb4db1dfd03bca4052d844 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:49:19 +0000
Subject: [PATCH 71/76] fix: a tensor can be deleted before its scope ends

---
 mllm/core/Tensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/core/Tensor.cpp b/mllm/core/Tensor.cpp
index 37aea2d..35c06f6 100644
--- a/mllm/core/Tensor.cpp
+++ b/mllm/core/Tensor.cpp
@@ -36,8 +36,8 @@ void Tensor::operator delete(void* ptr) noexcept {
 }
 
 void Tensor::delete_() noexcept {
+  // The attached views go with the last owner of the impl.
   this->impl_.reset();
-  for (auto& [a, _] : this->impl_->attachedViews()) { this->impl_->attachedViews()[a].second.reset(); }
 }
 
 /**
-- 
2.43.0


From f18fb521fb4cacb679258a78051a68bc0958b026 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:49:19 +0000
Subject: [PATCH 72/76] fix: generate() does not use the scores it has deleted

---
 mllm/models/ARGeneration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 0017061..b195bb2 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -157,6 +157,7 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
     if (i == 0) { prefillEventEndTimePoint(); }
 
     Tensor logits = output["sequence"];
+    auto device = logits.device();
 
     int64_t next_token_id;
     if (use_sampling) {
@@ -177,7 +178,7 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
 
     // [B, S]
     past = output;
-    past["sequence"] = Tensor::empty({1, 1}, kInt64, logits.device()).alloc();
+    past["sequence"] = Tensor::empty({1, 1}, kInt64, device).alloc();
     past["sequence"].at<mllm_int64_t>({0, 0}) = next_token_id;
 
     ar_steps_++;
-- 
2.43.0


From 24a4ce8b5966e5f58b1042938b49db061e7614cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:49:19 +0000
Subject: [PATCH 73/76] fix: top-k sampling with k above the size of the
 vocabulary

---
 mllm/models/ARGeneration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index b195bb2..ddac951 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -391,6 +391,7 @@ int64_t ARGeneration::sampleTopK(Tensor& logits, int k, float temperature) {
   // Indexing
   std::vector<int> indices(vocab_size);
   std::iota(indices.begin(), indices.end(), 0);
+  k = std::min(k, vocab_size);
   std::partial_sort(indices.begin(), indices.begin() + k, indices.end(),
                     [&prob_data](int i1, int i2) { return prob_data[i1] > prob_data[i2]; });
   // Get top k
-- 
2.43.0


From 8e4c1c8218dd32e5641db8aa8cce720d08554989 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:51:07 +0000
Subject: [PATCH 74/76] fix: generation at temperature zero takes the best
 token

---
 mllm/models/ARGeneration.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index ddac951..c151851 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -73,7 +73,8 @@ void ARGenerationChatIterator::step() {
     return;
   }
 
-  bool use_sampling = do_sample_ || (temperature_ != 1.0f) || (top_k_ > 0) || (top_p_ > 0.0f);
+  // A temperature of zero asks for the best token.
+  bool use_sampling = temperature_ > 0.0f && (do_sample_ || (temperature_ != 1.0f) || (top_k_ > 0) || (top_p_ > 0.0f));
 
   // Timing
   if (step_count_ == 0) {
@@ -140,7 +141,8 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
   int eos_token_id = args.count("eos_token_id") ? args.at("eos_token_id").get<int>() : eos_token_id_;
   bool do_sample = args.count("do_sample") ? args.at("do_sample").get<bool>() : do_sample_;
 
-  bool use_sampling = do_sample || (temperature != 1.0f) || (top_k > 0) || (top_p > 0.0f);
+  // A temperature of zero asks for the best token.
+  bool use_sampling = temperature > 0.0f && (do_sample || (temperature != 1.0f) || (top_k > 0) || (top_p > 0.0f));
 
   for (int i = 0; i < max_length; ++i) {
     // Timing
@@ -212,7 +214,8 @@ void ARGeneration::streamGenerate(const ARGenerationOutputPast& input, const ARG
   int eos_token_id = args.count("eos_token_id") ? args.at("eos_token_id").get<int>() : eos_token_id_;
   bool do_sample = args.count("do_sample") ? args.at("do_sample").get<bool>() : do_sample_;
 
-  bool use_sampling = do_sample || (temperature != 1.0f) || (top_k > 0) || (top_p > 0.0f);
+  // A temperature of zero asks for the best token.
+  bool use_sampling = temperature > 0.0f && (do_sample || (temperature != 1.0f) || (top_k > 0) || (top_p > 0.0f));
 
   for (int i = 0; i < max_length; ++i) {
     // Timing
-- 
2.43.0


From a45452e74985bef6d58ac7ad0e072da6e3b3ff5a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:56:23 +0000
Subject: [PATCH 75/76] fix: a static KV cache refuses what exceeds its
 capacity

---
 mllm/nn/lmcache/StaticCache.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index d1938d9..876fc83 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -92,6 +92,10 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
 
     auto inputs_seq_len = k.shape()[2];
 
+    if (current_seq_cnt_[layer_idx] + inputs_seq_len > max_cache_length_) {
+      throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+    }
+
     auto repeat_times = q_heads_ / kv_heads_;
 
     switch (device_type_) {
@@ -157,6 +161,10 @@ std::array<Tensor, 2> StaticCache::getKVCache(int32_t layer_idx) {
 std::array<Tensor, 2> StaticCache::preGetKVWriteLocation(int32_t layer_idx, int32_t s) {
   if (!use_fa2_) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "StaticCache::preGetKVWriteLocation is not supported in eager mode"); }
 
+  if (current_seq_cnt_[layer_idx] + s > max_cache_length_) {
+    throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+  }
+
   auto new_shape = {1, s, kv_heads_ * kv_dims_};
   auto k = k_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
   auto v = v_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
-- 
2.43.0


From 22d20b2c05413c877824da844aa91655e30e31d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:58:58 +0000
Subject: [PATCH 76/76] fix: sampling never leaves the vocabulary

---
 mllm/models/ARGeneration.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index c151851..a830ed0 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -466,9 +466,13 @@ int64_t ARGeneration::categoricalSample(const Tensor& probs) {
   std::random_device rd;
   std::mt19937 gen(rd());
   std::uniform_real_distribution<> dis(0.0, 1.0);
-  float r = dis(gen);
+  float r = dis(gen) * cumulative_probs.back();
 
-  auto it = std::lower_bound(cumulative_probs.begin(), cumulative_probs.end(), r);
+  // The first token whose share lies above r, so none of probability zero. Rounding may lift r to the total.
+  auto it = std::upper_bound(cumulative_probs.begin(), cumulative_probs.end(), r);
+  if (it == cumulative_probs.end()) {
+    it = std::lower_bound(cumulative_probs.begin(), cumulative_probs.end(), cumulative_probs.back());
+  }
   return std::distance(cumulative_probs.begin(), it);
 }
 __MLLM_UNSAFE_OPT_END
-- 
2.43.0

