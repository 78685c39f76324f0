From 8afebd0facb2f4c8899065eb33eba64cf16a8efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 001/210] fix: accept the lock token in every prefix cache's
 dec_lock_ref

ModelRunnerProcess passes the token returned by inc_lock_ref positionally;
MambaRadixCache and ChunkCache only took the node, so enable_mamba_cache=True
raised TypeError on the first prefix reuse.
---
 pymllm/mem_cache/base_prefix_cache.py | 9 +++++++--
 pymllm/mem_cache/chunk_cache.py       | 4 +++-
 pymllm/mem_cache/mamba_radix_cache.py | 9 +++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pymllm/mem_cache/base_prefix_cache.py b/pymllm/mem_cache/base_prefix_cache.py
index a49355d..c232043 100644
--- a/pymllm/mem_cache/base_prefix_cache.py
+++ b/pymllm/mem_cache/base_prefix_cache.py
@@ -182,8 +182,13 @@ class BasePrefixCache(ABC):
         ...
 
     @abstractmethod
-    def dec_lock_ref(self, node: Any, **kwargs: Any) -> None:
-        """Unlock *node* (and ancestors)."""
+    def dec_lock_ref(
+        self, node: Any, lock_token: Optional[Any] = None, **kwargs: Any
+    ) -> None:
+        """Unlock *node* (and ancestors).
+
+        *lock_token* is the value returned by :meth:`inc_lock_ref`.
+        """
         ...
 
     # ------------------------------------------------------------------
diff --git a/pymllm/mem_cache/chunk_cache.py b/pymllm/mem_cache/chunk_cache.py
index c53b2b6..5cd9349 100644
--- a/pymllm/mem_cache/chunk_cache.py
+++ b/pymllm/mem_cache/chunk_cache.py
@@ -69,6 +69,8 @@ class ChunkCache(BasePrefixCache):
         """No-op: nothing to lock."""
         return None
 
-    def dec_lock_ref(self, node: Any, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: Any, lock_token: Optional[Any] = None, **kwargs: Any
+    ) -> None:
         """No-op: nothing to unlock."""
         pass
diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index bee8027..de093f9 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -502,8 +502,13 @@ class MambaRadixCache(BasePrefixCache):
             cur = cur.parent
         return None
 
-    def dec_lock_ref(self, node: MambaTreeNode, **kwargs: Any) -> None:
-        """Unlock full KV and Mamba state."""
+    def dec_lock_ref(
+        self, node: MambaTreeNode, lock_token: Optional[Any] = None, **kwargs: Any
+    ) -> None:
+        """Unlock full KV and Mamba state.
+
+        *lock_token* is whatever :meth:`inc_lock_ref` returned; it is unused here.
+        """
         if node is None:
             return
 
-- 
2.43.0


From 55cc87985a809682098b7d912e09f41f776a6bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 002/210] fix: keep evictable size equal to the unlocked cached
 tokens when a leaf grows a child

_add_leaf subtracted the parent's tokens although locking, unlocking and
leaf deletion count every unlocked node, so evictable_size() drifted to zero
or below and KV allocation gave up while evictable entries remained.
---
 pymllm/mem_cache/mamba_radix_cache.py | 9 ---------
 pymllm/mem_cache/radix_cache.py       | 8 --------
 2 files changed, 17 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index de093f9..ef67ccb 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -539,15 +539,6 @@ class MambaRadixCache(BasePrefixCache):
         value: torch.Tensor,
         mamba_value: Optional[torch.Tensor] = None,
     ) -> MambaTreeNode:
-        # Parent may lose leaf status
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.full_lock_ref == 0
-            and not parent.evicted
-        ):
-            self._full_evictable -= len(parent.key)
-
         new_node = MambaTreeNode()
         new_node.parent = parent
         new_node.key = key
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 80f3d6f..e7d3fec 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -639,14 +639,6 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         swa_tombstone: bool = False,
     ) -> TreeNode:
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.lock_ref == 0
-            and not parent.evicted
-        ):
-            self._evictable_size -= len(parent.key)
-
         new_node = TreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From 37d5c6031623fef7028d678339dc16867780bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 003/210] fix: hash a cached node over its whole prefix even if
 its parent was not hashed yet

compute_node_hash ignored a parent whose hashes had not been computed, so the
hash of a node depended on the order of calls and two different prefixes with
the same tail got the same 'position-aware' hash.
---
 pymllm/mem_cache/radix_cache.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index e7d3fec..9b95ad0 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -423,13 +423,8 @@ class RadixCache(BasePrefixCache):
             return node.hash_values
 
         parent_hash: Optional[str] = None
-        if (
-            node.parent is not None
-            and node.parent.hash_values is not None
-            and len(node.parent.key) > 0
-            and len(node.parent.hash_values) > 0
-        ):
-            parent_hash = node.parent.hash_values[-1]
+        if node.parent is not None and len(node.parent.key) > 0:
+            parent_hash = self.compute_node_hash(node.parent)[-1]
 
         hashes: List[str] = []
         for start in range(0, len(node.key), self.page_size):
-- 
2.43.0


From cb49ec064efcf834c81196e253397103e8132059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 004/210] fix: continue a sliding-window insert from the split
 node

_insert_swa dropped the node returned by _split_node and went on with the
lower half: its value was overwritten and the new leaf hung below tokens that
are not a prefix of the inserted key.
---
 pymllm/mem_cache/radix_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 9b95ad0..03aa326 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -587,7 +587,7 @@ class RadixCache(BasePrefixCache):
             plen = _key_match(node.key, key, self.page_size)
 
             if plen < len(node.key):
-                self._split_node(node.key, node, plen)
+                node = self._split_node(node.key, node, plen)
 
             beyond_protected = prev_prefix_len < total_prefix + plen
             if beyond_protected and node.swa_tombstone:
-- 
2.43.0


From 50139dfe82d00f57d9d237d83d3d5e8428a54f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 005/210] fix: free each duplicate KV index once with a
 sliding-window prefix cache

In SWA mode insert() frees duplicate indices itself, but the model runner did
not pass prev_prefix_len and freed them again, so the tree's own slots (the
reused prefix) were released while still cached, and duplicates twice.
---
 pymllm/mem_cache/radix_cache.py             |  9 ++++---
 pymllm/orchestrator/model_runner_process.py | 30 ++++++++++++++++-----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 03aa326..9c79090 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -259,7 +259,8 @@ class RadixCache(BasePrefixCache):
 
         Returns how many leading tokens were already present (the prefix
         length).  The caller is responsible for freeing duplicate KV indices
-        in the range ``[cache_protected_len, prefix_len)``.
+        in the range ``[cache_protected_len, prefix_len)``; in SWA mode the
+        cache frees the ones beyond *prev_prefix_len* itself.
 
         Parameters
         ----------
@@ -590,7 +591,9 @@ class RadixCache(BasePrefixCache):
                 node = self._split_node(node.key, node, plen)
 
             beyond_protected = prev_prefix_len < total_prefix + plen
-            if beyond_protected and node.swa_tombstone:
+            # Values before prev_prefix_len are the tree's own indices.
+            dup_start = max(0, prev_prefix_len - total_prefix)
+            if beyond_protected and node.swa_tombstone and dup_start == 0:
                 if swa_evicted_seqlen <= total_prefix:
                     self._free_indices(node.value[:plen])
                     node.value = value[:plen].clone()
@@ -599,7 +602,7 @@ class RadixCache(BasePrefixCache):
                 else:
                     self._free_indices(value[:plen])
             elif beyond_protected:
-                self._free_indices(value[:plen])
+                self._free_indices(value[dup_start:plen])
 
             total_prefix += plen
             key = key[plen:]
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d7b6585..c9a5ecc 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -554,11 +554,13 @@ class ModelRunnerProcess:
                 )
 
             key = RadixKey(input_ids)
-            result = cache.insert(key, kv_indices)
+            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            result = cache.insert(
+                key, kv_indices, prev_prefix_len=cache_protected_len
+            )
             new_prefix_len = result.prefix_len
 
             # --- Step 2: free duplicates ---
-            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
             if _dbg:
                 logger.debug(
                     "[CACHE INSERT] rid=%s insert prefix_len=%d cache_protected=%d",
@@ -566,7 +568,7 @@ class ModelRunnerProcess:
                     new_prefix_len,
                     cache_protected_len,
                 )
-            if new_prefix_len > cache_protected_len:
+            if new_prefix_len > cache_protected_len and not self._cache_frees_dups():
                 dup_indices = kv_indices[cache_protected_len:new_prefix_len]
                 if _dbg:
                     logger.debug(
@@ -879,6 +881,10 @@ class ModelRunnerProcess:
 
         return out_cache_loc, actual_prefix_lens, actual_extend_lens
 
+    def _cache_frees_dups(self) -> bool:
+        """A sliding-window cache frees duplicate indices in ``insert`` itself."""
+        return bool(getattr(self._radix_cache, "supports_swa", False))
+
     def _unlock_matched_nodes(self, requests_meta: List[Dict[str, Any]]) -> None:
         """Rollback radix locks acquired during match_prefix.
 
@@ -1057,11 +1063,16 @@ class ModelRunnerProcess:
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
-                result = cache.insert(key, prompt_kv)
+                result = cache.insert(
+                    key, prompt_kv, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if (
+                    new_prefix_len > cache_protected_len
+                    and not self._cache_frees_dups()
+                ):
                     dup_indices = prompt_kv[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
@@ -1075,11 +1086,16 @@ class ModelRunnerProcess:
                 if output_ids:
                     full_token_ids.extend(output_ids)
                 key = RadixKey(full_token_ids)
-                result = cache.insert(key, all_kv_indices)
+                result = cache.insert(
+                    key, all_kv_indices, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if (
+                    new_prefix_len > cache_protected_len
+                    and not self._cache_frees_dups()
+                ):
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
-- 
2.43.0


From 9a89f9c1537e67d9090b7d21a2c8afa1a253e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 006/210] fix: cache whole pages only when the prefix cache
 page size is above one

insert() stored an unaligned tail as a short leaf that match_prefix never
returns; the next insert of the same sequence added the same KV indices again
under a full-page node, so they were freed twice on eviction. The tail now
stays with the request and is freed with it.
---
 pymllm/mem_cache/mamba_radix_cache.py       | 3 +++
 pymllm/mem_cache/radix_cache.py             | 3 +++
 pymllm/orchestrator/model_runner_process.py | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index ef67ccb..ec330dc 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -384,6 +384,9 @@ class MambaRadixCache(BasePrefixCache):
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
+        # Only whole pages are cached; the caller keeps the unaligned tail.
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if len(key) == 0:
             return InsertResult()
 
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 9c79090..22a1d02 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -274,6 +274,9 @@ class RadixCache(BasePrefixCache):
         """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
+        # Only whole pages are cached; the caller keeps the unaligned tail.
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if self.supports_swa:
             plen = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index c9a5ecc..60cefaa 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1080,6 +1080,7 @@ class ModelRunnerProcess:
                 # Free decode KV indices (tree does not own them)
                 if decode_kv.numel() > 0:
                     runner.token_to_kv_pool_allocator.free(decode_kv)
+                cached_len = prompt_len
             else:
                 # Non-hybrid or no decode tokens: insert full sequence
                 full_token_ids = list(input_ids)
@@ -1099,6 +1100,14 @@ class ModelRunnerProcess:
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
+                cached_len = total_len
+
+            # The tree only takes whole pages; the rest is still ours.
+            page_tail = all_kv_indices[
+                cached_len - cached_len % cache.page_size : cached_len
+            ]
+            if page_tail.numel() > 0:
+                runner.token_to_kv_pool_allocator.free(page_tail)
 
             did_insert = True
 
-- 
2.43.0


From 93df9d0a5267facad070f18e4024bdf1c8fe4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 007/210] fix: release only the KV slots a finished request
 really wrote

_free_rid_resources counted the last sampled token, whose KV is never
computed: it read one stale req_to_token entry (another request's slot, or the
padding slot), inserted it into the radix tree or freed it, so KV slots got
two owners or leaked into the free list while in use.
---
 pymllm/orchestrator/model_runner_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 60cefaa..2737510 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1043,7 +1043,8 @@ class ModelRunnerProcess:
         # Phase 1: Read all KV indices BEFORE freeing anything.
         # ----------------------------------------------------------
         prompt_len = len(input_ids) if input_ids is not None else 0
-        decode_len = len(output_ids) if output_ids else 0
+        # The last sampled token was never fed back, so it has no KV entry.
+        decode_len = len(output_ids) - 1 if output_ids else 0
         total_len = prompt_len + decode_len
 
         all_kv_indices: Optional[torch.Tensor] = None
@@ -1085,7 +1086,7 @@ class ModelRunnerProcess:
                 # Non-hybrid or no decode tokens: insert full sequence
                 full_token_ids = list(input_ids)
                 if output_ids:
-                    full_token_ids.extend(output_ids)
+                    full_token_ids.extend(output_ids[:decode_len])
                 key = RadixKey(full_token_ids)
                 result = cache.insert(
                     key, all_kv_indices, prev_prefix_len=cache_protected_len
-- 
2.43.0


From 4c57f1110068d64851d53fec0779b8a04ada7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 008/210] fix: recompute a single-token prompt that is already
 cached

The 'leave something to extend' guard skipped one-token prompts, so sending
the same one twice produced a zero-length extend and sampled from another
row's logits.
---
 pymllm/orchestrator/model_runner_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 2737510..9f7e9bc 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -725,8 +725,8 @@ class ModelRunnerProcess:
             #    where s1 (log-partition) is computed incorrectly, causing
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
-            if prefix_len >= full_seq_len - 1 and full_seq_len >= 2:
-                prefix_len = full_seq_len - 2
+            if prefix_len > 0 and prefix_len >= full_seq_len - 1:
+                prefix_len = max(full_seq_len - 2, 0)
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 5ea17dedcc88bfd91f22d529901a769b13ff1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 009/210] fix: do not restore a recurrent-state snapshot past a
 shortened prefix hit

When (almost) the whole prompt was cached the KV hit was cut to full_len - 2,
but the GDN state was restored from the snapshot of the full match, so the
last tokens were applied to the recurrent state twice.
---
 pymllm/orchestrator/model_runner_process.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 9f7e9bc..6f021e2 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -699,12 +699,17 @@ class ModelRunnerProcess:
             # node has a GDN state snapshot.  Without it, the full-attention
             # layers would use cached KV while GDN layers start from zero,
             # causing an attention/GDN state mismatch.  Discard the hit so
-            # the entire prompt is processed from scratch.
+            # the entire prompt is processed from scratch.  The same goes for
+            # a hit that is shortened below: the snapshot belongs to the end
+            # of the matched node and cannot be rewound.
             if (
                 gdn_pool is not None
                 and prefix_len > 0
                 and last_node is not None
-                and self._node_id_to_gdn_track_slot.get(last_node.id) is None
+                and (
+                    self._node_id_to_gdn_track_slot.get(last_node.id) is None
+                    or prefix_len >= full_seq_len - 1
+                )
             ):
                 logger.debug(
                     "Discarding radix cache hit for rid=%s: no GDN state "
-- 
2.43.0


From 63ecb4fdc1d7e53fc7d3caa81b8c325e6632acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 010/210] fix: keep CUDA-graph padding rows away from live
 request slots

GDNPool reserves state slot 0 for padding, but ReqToTokenPool handed slot 0 to
requests and padded decode rows kept the request slots of an earlier, larger
batch, so replaying a padded graph advanced a live request's recurrent state.
---
 pymllm/executor/cuda_graph_runner.py |  1 +
 pymllm/mem_cache/memory_pool.py      | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymllm/executor/cuda_graph_runner.py b/pymllm/executor/cuda_graph_runner.py
index 7fa674b..9000780 100644
--- a/pymllm/executor/cuda_graph_runner.py
+++ b/pymllm/executor/cuda_graph_runner.py
@@ -181,6 +181,7 @@ class _InputBuffers:
 
         # Reset padding slots when the padded size exceeds the real size.
         if padded_bs != real_bs:
+            self.req_pool_indices.zero_()
             self.seq_lens.fill_(seq_len_fill_value)
             self.out_cache_loc.zero_()
             self.mrope_position_deltas.zero_()
diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 9c8ab2a..56a2946 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -366,7 +366,8 @@ class ReqToTokenPool:
     Parameters
     ----------
     max_reqs : int
-        Maximum number of concurrent requests (number of rows).
+        Maximum number of concurrent requests.  Slots are ``[1, max_reqs]``;
+        row 0 is reserved for padding.
     max_context_len : int
         Maximum sequence length any single request can reach (number of cols).
     device : str | torch.device
@@ -383,10 +384,11 @@ class ReqToTokenPool:
         self.max_context_len = max_context_len
         self.device = torch.device(device)
 
+        # Row 0 is the padding row (CUDA-graph padding and GDNPool slot 0).
         self.req_to_token = torch.zeros(
-            (max_reqs, max_context_len), dtype=torch.int32, device=self.device
+            (max_reqs + 1, max_context_len), dtype=torch.int32, device=self.device
         )
-        self._free_slots: List[int] = list(range(max_reqs))
+        self._free_slots: List[int] = list(range(1, max_reqs + 1))
 
     def available_size(self) -> int:
         return len(self._free_slots)
@@ -411,7 +413,7 @@ class ReqToTokenPool:
         self.req_to_token[index] = values
 
     def clear(self) -> None:
-        self._free_slots = list(range(self.size))
+        self._free_slots = list(range(1, self.size + 1))
         self.req_to_token.zero_()
 
 
-- 
2.43.0


From cd9f5cdee1822ec914d0e6c96c4510d4d6b8f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 011/210] fix: bind a recurrent-state snapshot to its node or
 free it

A snapshot slot that was not bound to a tree node (prefix cache disabled,
sliding-window insert, prompt not a whole number of pages) was never returned,
and one taken at an unaligned prompt end was bound to the shorter aligned node
and later restored for the wrong prefix.
---
 pymllm/orchestrator/model_runner_process.py | 24 +++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 6f021e2..c915562 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -635,16 +635,18 @@ class ModelRunnerProcess:
                 self._rid_to_radix_lock[rid] = (new_last_node, swa_id)
 
             # --- GDN track slot association (hybrid models) ---
-            if gdn_pool is not None and result.last_node is not None:
-                track_slot = self._rid_to_gdn_track_slot.get(rid)
-                if track_slot is not None:
-                    node_id = result.last_node.id
-                    old_ts = self._node_id_to_gdn_track_slot.get(node_id)
-                    if old_ts is None:
-                        self._node_id_to_gdn_track_slot[node_id] = track_slot
-                    else:
-                        gdn_pool.free_track_slot(track_slot)
-                        self._rid_to_gdn_track_slot.pop(rid, None)
+            # A snapshot is only usable for the node that ends at the prompt.
+            track_slot = self._rid_to_gdn_track_slot.pop(rid, None)
+            if gdn_pool is not None and track_slot is not None:
+                node = result.last_node
+                if (
+                    node is not None
+                    and len(new_indices) == seq_len
+                    and node.id not in self._node_id_to_gdn_track_slot
+                ):
+                    self._node_id_to_gdn_track_slot[node.id] = track_slot
+                else:
+                    gdn_pool.free_track_slot(track_slot)
 
     # ------------------------------------------------------------------
     # KV allocation helpers
@@ -877,7 +879,7 @@ class ModelRunnerProcess:
                 # Allocate a track slot only when the radix cache is enabled;
                 # track slots are freed via the eviction callback so they must
                 # be associated with a node, which only happens when cache is on.
-                if cache is not None:
+                if cache is not None and not isinstance(cache, ChunkCache):
                     ts = gdn_pool.alloc_track_slot()
                     if ts is not None:
                         self._rid_to_gdn_track_slot[rid] = ts
-- 
2.43.0


From 94395cc1c1c3ddad9368c70604541b779da4312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 012/210] fix: start Qwen3-VL prefill positions after the
 cached prefix

---
 pymllm/models/qwen3_vl.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 273a291..062b800 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -1192,6 +1192,11 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                     self.vision_start_token_id,
                     self.spatial_merge_size,
                 )
+                # Cached prefix tokens are not part of input_ids, so the
+                # positions of the remaining tokens start after them.
+                prefix_lens = getattr(forward_batch, "extend_prefix_lens", None)
+                if prefix_lens is not None:
+                    pos3d = pos3d + int(prefix_lens[i].item())
                 mrope_positions_list.append(pos3d)
                 deltas.append(delta)
 
-- 
2.43.0


From ef5788b32649f5bd5f6941efb1f48d70fe081c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 013/210] fix: keep prompts with image inputs out of the prefix
 cache

---
 pymllm/orchestrator/model_runner_process.py | 42 +++++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index c915562..7c5fbbb 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -21,7 +21,7 @@ RadixCache lifecycle
 
 import logging
 import time
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Dict, List, Optional, Set, Tuple
 
 import torch
 
@@ -38,6 +38,18 @@ _EVICT_FRACTION = 0.10
 _MAX_EVICT_RETRIES = 3
 
 
+def _has_vision_inputs(mm_inputs: Optional[Dict[str, Any]]) -> bool:
+    """Whether *mm_inputs* carries image data for the vision encoder."""
+    if mm_inputs is None:
+        return False
+    src = mm_inputs.get("image_inputs") if "image_inputs" in mm_inputs else mm_inputs
+    if src is None:
+        return False
+    if hasattr(src, "get"):
+        return src.get("pixel_values") is not None
+    return getattr(src, "pixel_values", None) is not None
+
+
 class ModelRunnerProcess:
     """GPU-owning component created in-process by SchedulerProcess."""
 
@@ -82,6 +94,10 @@ class ModelRunnerProcess:
         # tokens due to 3-D image grid positions.
         self._rid_to_mrope_delta: Dict[str, int] = {}
 
+        # Rids whose KV depends on more than the token ids (image inputs).  Their
+        # KV is neither looked up in nor inserted into the prefix cache.
+        self._uncached_rids: Set[str] = set()
+
         # GDN prefix cache state tracking (hybrid models only):
         # Maps rid -> GDN track slot index in GDNPool (for snapshotting state)
         self._rid_to_gdn_track_slot: Dict[str, int] = {}
@@ -534,6 +550,12 @@ class ModelRunnerProcess:
             if input_ids is None:
                 continue
 
+            if rid in self._uncached_rids:
+                track_slot = self._rid_to_gdn_track_slot.pop(rid, None)
+                if gdn_pool is not None and track_slot is not None:
+                    gdn_pool.free_track_slot(track_slot)
+                continue
+
             slot = self._rid_to_req_pool_idx.get(rid)
             if slot is None:
                 continue
@@ -686,7 +708,16 @@ class ModelRunnerProcess:
             # Store input_ids for later radix cache insert
             self._rid_to_input_ids[m["rid"]] = full_input_ids
 
-            if cache is not None and len(full_input_ids) > 0:
+            # Token ids do not identify an image, so a prompt with image inputs
+            # must not share KV through the prefix cache.
+            if _has_vision_inputs(m.get("mm_inputs")):
+                self._uncached_rids.add(m["rid"])
+
+            if (
+                cache is not None
+                and len(full_input_ids) > 0
+                and m["rid"] not in self._uncached_rids
+            ):
                 key = RadixKey(full_input_ids)
                 match_result = cache.match_prefix(key)
                 prefix_len = match_result.prefix_len
@@ -1044,7 +1075,12 @@ class ModelRunnerProcess:
         # and the eviction callback; here we just remove the rid mapping.
         self._rid_to_gdn_track_slot.pop(rid, None)
 
-        cache_enabled = cache is not None and not isinstance(cache, ChunkCache)
+        cache_enabled = (
+            cache is not None
+            and not isinstance(cache, ChunkCache)
+            and rid not in self._uncached_rids
+        )
+        self._uncached_rids.discard(rid)
 
         # ----------------------------------------------------------
         # Phase 1: Read all KV indices BEFORE freeing anything.
-- 
2.43.0


From bc440e01221659fae806aff93fa52be12f9c21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 014/210] fix: hold back incomplete characters in streamed text
 deltas

---
 pymllm/orchestrator/detokenizer_process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 7b8bf26..4ef5430 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -158,9 +158,13 @@ class DetokenizerProcess:
                 text = ""
 
             # Compute incremental delta by diffing against previous text
+            # A trailing U+FFFD is usually a character whose remaining bytes are
+            # still to come; hold it back until it is complete.
             prev_text = self._rid_to_prev_text.get(rid, "")
-            delta_text = text[len(prev_text):]
-            self._rid_to_prev_text[rid] = text
+            stable_text = text if is_finished else text.rstrip("\ufffd")
+            delta_text = stable_text[len(prev_text):]
+            if delta_text:
+                self._rid_to_prev_text[rid] = stable_text
 
             # Clean up tracking when request finishes
             if is_finished:
-- 
2.43.0


From f9d4d67094cda1bb3c76f60e6636bee8d08728eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 015/210] fix: receive aborts in shared-queue mode too

---
 pymllm/orchestrator/scheduler_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 29e05fe..41840d1 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -533,8 +533,8 @@ class SchedulerProcess:
         """
         if self._enable_shared_queue and self._shared_queue is not None:
             self._recv_from_shared_queue()
-        else:
-            self._recv_from_zmq()
+        # Aborts always arrive over ZMQ.
+        self._recv_from_zmq()
 
     def _recv_from_zmq(self) -> None:
         """Receive requests via legacy ZMQ path."""
-- 
2.43.0


From 223c938f6d45381a5ac8a78b9fb6e7de459c9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 016/210] fix: finish a request with unusable sampling
 parameters instead of stopping the scheduler

---
 pymllm/orchestrator/scheduler_process.py | 51 ++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 41840d1..29f4d3a 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -29,6 +29,7 @@ The main ``event_loop``::
 """
 
 import logging
+import math
 import queue as stdlib_queue
 import time
 from collections import deque
@@ -82,6 +83,39 @@ class IdleSleeper:
         self.poller.poll(self.poll_timeout_ms)
 
 
+# ======================================================================
+# Sampling parameter validation
+# ======================================================================
+
+# Types of the sampling parameters consumed by the scheduler and model runner.
+_SAMPLING_PARAM_TYPES = {
+    "max_new_tokens": int,
+    "temperature": float,
+    "top_p": float,
+    "top_k": int,
+    "repetition_penalty": float,
+    "frequency_penalty": float,
+    "presence_penalty": float,
+}
+
+
+def _normalize_sampling_params(params: Optional[Dict[str, Any]]) -> Dict[str, Any]:
+    """Return a copy with unset entries dropped and known entries converted.
+
+    Raises ``ValueError`` / ``TypeError`` for values no sampler can work with.
+    """
+    sp = {k: v for k, v in (params or {}).items() if v is not None}
+    for name, cast in _SAMPLING_PARAM_TYPES.items():
+        if name in sp:
+            sp[name] = cast(sp[name])
+            if not math.isfinite(sp[name]):
+                raise ValueError(f"`{name}` must be finite")
+    if sp.get("repetition_penalty", 1.0) <= 0:
+        raise ValueError("`repetition_penalty` must be > 0")
+    sp["stop_token_ids"] = [int(t) for t in sp.get("stop_token_ids", [])]
+    return sp
+
+
 # ======================================================================
 # Req -- per-request state tracker
 # ======================================================================
@@ -630,16 +664,20 @@ class SchedulerProcess:
         while self._waiting_queue:
             raw = self._waiting_queue.popleft()
 
+            try:
+                sp = _normalize_sampling_params(raw.sampling_params)
+            except (TypeError, ValueError, OverflowError, AttributeError) as exc:
+                self._reject_request(raw, f"invalid sampling parameters: {exc}")
+                continue
+
             # Merge EOS token into stop_token_ids if not already present
-            sp = dict(raw.sampling_params) if raw.sampling_params else {}
             # Inject model-aware default for max_new_tokens when not provided
             if "max_new_tokens" not in sp:
                 sp["max_new_tokens"] = self._default_max_new_tokens
-            stop_ids = list(sp.get("stop_token_ids", []))
+            stop_ids = sp["stop_token_ids"]
             for eid in self._eos_token_ids:
                 if eid not in stop_ids:
                     stop_ids.append(eid)
-            sp["stop_token_ids"] = stop_ids
 
             req = Req(
                 rid=raw.rid,
@@ -1019,6 +1057,13 @@ class SchedulerProcess:
         self._used_tokens = max(0, self._used_tokens - tokens_to_free)
         req.req_pool_idx = -1
 
+    def _reject_request(self, raw: TokenizedGenerateReqInput, why: str) -> None:
+        """Finish a request that cannot be served, leaving the others alone."""
+        logger.error("Rejecting request %s: %s", raw.rid, why)
+        req = Req(rid=raw.rid, input_ids=raw.input_ids, stream=raw.stream)
+        req.abort()
+        self._collect_finished_output(req)
+
     def _abort_request(self, rid: str) -> None:
         """Abort a request by rid from pending or running queues."""
         # Remove from pending queue
-- 
2.43.0


From 54c5311f57bc3a6fdb68161edbe7ff1d1f9ad255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 017/210] fix: keep every sequence within the KV pool and
 context and admit long prompts

---
 pymllm/orchestrator/model_runner_process.py |  5 +++++
 pymllm/orchestrator/scheduler_process.py    | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 7c5fbbb..e9f9d75 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -184,6 +184,11 @@ class ModelRunnerProcess:
             on_node_evict=evict_cb,
         )
 
+    def max_seq_len(self) -> int:
+        """Longest sequence whose KV fits the context and the KV pool."""
+        runner = self._runner
+        return min(runner.context_len, runner.token_to_kv_pool_allocator.size)
+
     # ------------------------------------------------------------------
     # Forward pass
     # ------------------------------------------------------------------
diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 29f4d3a..0bd17aa 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -679,6 +679,17 @@ class SchedulerProcess:
                 if eid not in stop_ids:
                     stop_ids.append(eid)
 
+            # A sequence has to fit the token budget, the KV pool and the
+            # context; the last generated token needs no KV slot.
+            max_len = min(self._max_total_tokens, self._model_runner.max_seq_len())
+            prompt_len = len(raw.input_ids)
+            if not 0 < prompt_len <= max_len:
+                self._reject_request(
+                    raw, f"prompt length {prompt_len} not in [1, {max_len}]"
+                )
+                continue
+            sp["max_new_tokens"] = min(sp["max_new_tokens"], max_len - prompt_len + 1)
+
             req = Req(
                 rid=raw.rid,
                 input_ids=raw.input_ids,
@@ -743,7 +754,8 @@ class SchedulerProcess:
             # process_batch_result.
             can_fit_request = total_running < self._max_running_requests
             can_fit_tokens = (self._used_tokens + input_len) <= self._max_total_tokens
-            can_fit_prefill = input_len <= prefill_token_budget
+            # A prompt longer than the prefill limit runs in a batch of its own.
+            can_fit_prefill = input_len <= prefill_token_budget or not new_prefill
 
             if can_fit_request and can_fit_tokens and can_fit_prefill:
                 # Allocate req pool slot
-- 
2.43.0


From cc001998fafecb2199910227c0dd4e8b62ccbf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 018/210] fix: send requests back to the queue when the KV pool
 runs out instead of stopping the scheduler

---
 pymllm/orchestrator/model_runner_process.py |  7 +++++
 pymllm/orchestrator/scheduler_process.py    | 29 ++++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index e9f9d75..7e144dc 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -189,6 +189,13 @@ class ModelRunnerProcess:
         runner = self._runner
         return min(runner.context_len, runner.token_to_kv_pool_allocator.size)
 
+    def num_available_kv_tokens(self) -> int:
+        """KV slots that are free or become free by evicting cached prefixes."""
+        available = self._runner.token_to_kv_pool_allocator.available_size()
+        if self._radix_cache is not None:
+            available += self._radix_cache.evictable_size()
+        return available
+
     # ------------------------------------------------------------------
     # Forward pass
     # ------------------------------------------------------------------
diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 0bd17aa..a507867 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -742,6 +742,10 @@ class SchedulerProcess:
         new_prefill: List[Req] = []
         remaining_pending: List[Req] = []
         prefill_token_budget = self._max_prefill_tokens
+        # KV slots for new prompts, leaving the running requests their next one.
+        available_kv = self._model_runner.num_available_kv_tokens() - len(
+            self._running_batch
+        )
 
         for req in self._pending_queue:
             input_len = len(req.input_ids)
@@ -753,7 +757,10 @@ class SchedulerProcess:
             # won't need new KV allocation; the budget is corrected in
             # process_batch_result.
             can_fit_request = total_running < self._max_running_requests
-            can_fit_tokens = (self._used_tokens + input_len) <= self._max_total_tokens
+            can_fit_tokens = (
+                self._used_tokens + input_len <= self._max_total_tokens
+                and input_len <= available_kv
+            )
             # A prompt longer than the prefill limit runs in a batch of its own.
             can_fit_prefill = input_len <= prefill_token_budget or not new_prefill
 
@@ -764,6 +771,7 @@ class SchedulerProcess:
                 # Reserve token budget (full input_len as conservative estimate)
                 self._used_tokens += input_len
                 prefill_token_budget -= input_len
+                available_kv -= input_len
                 new_prefill.append(req)
                 logger.debug(
                     "Scheduled prefill for %s (len=%d, used=%d/%d)",
@@ -781,10 +789,29 @@ class SchedulerProcess:
         if new_prefill:
             return ScheduleBatch(new_prefill, ForwardMode.EXTEND)
         elif self._running_batch:
+            self._make_room_for_decode()
             return ScheduleBatch(self._running_batch, ForwardMode.DECODE)
         else:
             return None
 
+    def _make_room_for_decode(self) -> None:
+        """Send the newest running requests back to the pending queue until the
+        others can all get a KV slot for their next token.
+
+        A returned request continues from its generated tokens later on.
+        """
+        while len(self._running_batch) > max(
+            1, self._model_runner.num_available_kv_tokens()
+        ):
+            req = self._running_batch.pop()
+            self._model_runner._free_rid_resources(req.rid)
+            self._free_req_resources(req)
+            req.input_ids = req.input_ids[: req.prompt_len] + req.output_ids
+            req.prefix_len = 0
+            req.is_prefilled = False
+            self._pending_queue.insert(0, req)
+            logger.info("KV pool exhausted: request %s goes back to pending", req.rid)
+
     # ------------------------------------------------------------------
     # Step 4: run the batch via ModelRunnerProcess
     # ------------------------------------------------------------------
-- 
2.43.0


From ca30d4e21414a4b9bee01f467e7bf431d49bd870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 019/210] fix: fail only the request that cannot be tokenized

---
 pymllm/orchestrator/tokenizer_process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/tokenizer_process.py b/pymllm/orchestrator/tokenizer_process.py
index e0e4139..7a10ff1 100644
--- a/pymllm/orchestrator/tokenizer_process.py
+++ b/pymllm/orchestrator/tokenizer_process.py
@@ -134,7 +134,12 @@ class TokenizerProcess:
         )
         while True:
             raw_request: Dict[str, Any] = self._recv_from_rr.recv_pyobj()
-            tokenized = self._tokenize(raw_request)
+            try:
+                tokenized = self._tokenize(raw_request)
+            except Exception:
+                # An empty prompt makes the scheduler finish this request alone.
+                logger.exception("Cannot tokenize request %s", raw_request.get("rid"))
+                tokenized = TokenizedGenerateReqInput(rid=raw_request.get("rid"))
 
             if self._enable_shared_queue and self._shared_queue is not None:
                 # Shared queue fast path
-- 
2.43.0


From fd8b51ab16ffec99c575279015f2d24b84e044d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 020/210] fix: a non-positive or oversized top_k disables the
 top-k filter in the torch fallback

---
 pymllm/layers/sampling.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pymllm/layers/sampling.py b/pymllm/layers/sampling.py
index 26c769f..0eb444d 100644
--- a/pymllm/layers/sampling.py
+++ b/pymllm/layers/sampling.py
@@ -48,6 +48,15 @@ def _to_scalar_or_tensor(
     return value.to(device=device, dtype=torch.float32)
 
 
+def _effective_top_k(
+    top_k: Union[torch.Tensor, int], vocab_size: int
+) -> Union[torch.Tensor, int]:
+    """Clip *top_k* to the vocabulary; values below 1 disable the filter."""
+    if isinstance(top_k, int):
+        return min(top_k, vocab_size) if top_k > 0 else vocab_size
+    return torch.where(top_k > 0, top_k, vocab_size).clamp(max=vocab_size)
+
+
 # ---------------------------------------------------------------------------
 # softmax
 # ---------------------------------------------------------------------------
@@ -567,6 +576,7 @@ def _torch_top_k_renorm_probs(
     top_k: Union[torch.Tensor, int],
 ) -> torch.Tensor:
     """Pure-torch top-k renormalization (operates on float32)."""
+    top_k = _effective_top_k(top_k, probs.shape[-1])
     if isinstance(top_k, int):
         # uniform top_k across batch
         topk_vals, _ = torch.topk(probs, top_k, dim=-1)
@@ -611,6 +621,7 @@ def top_k_mask_logits(
     if _HAS_FLASHINFER:
         return _fi_sampling.top_k_mask_logits(logits, top_k)
 
+    top_k = _effective_top_k(top_k, logits.shape[-1])
     if isinstance(top_k, int):
         topk_vals, _ = torch.topk(logits, top_k, dim=-1)
         threshold = topk_vals[:, -1:]
-- 
2.43.0


From e98d5f5a73950590a333790e9f3848ea60a8114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 021/210] fix: deliver rejected requests before the scheduler
 sleeps

---
 pymllm/orchestrator/scheduler_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index a507867..a92e5cb 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -542,7 +542,7 @@ class SchedulerProcess:
             if batch is not None:
                 result = self.run_batch(batch)
                 self.process_batch_result(batch, result)
-            else:
+            elif not self._finished:
                 # No work available -- sleep until a new request arrives
                 # on the ZMQ socket (or timeout).  Avoids busy-looping.
                 self._idle_sleeper.sleep()
-- 
2.43.0


From c2d1c0b3973c77c82cd73f32f1bad1c662b63dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 022/210] fix: keep the recomputed tail of a fully cached
 prompt evictable

---
 pymllm/orchestrator/model_runner_process.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 7e144dc..cf577ab 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -776,9 +776,13 @@ class ModelRunnerProcess:
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
             if prefix_len > 0 and prefix_len >= full_seq_len - 1:
-                prefix_len = max(full_seq_len - 2, 0)
-                if cached_indices is not None:
-                    cached_indices = cached_indices[:prefix_len]
+                # Match the shortened prefix again: only what is reused may be
+                # locked, the recomputed tokens have to stay evictable.
+                key = RadixKey(full_input_ids[: max(full_seq_len - 2, 0)])
+                match_result = cache.match_prefix(key)
+                prefix_len = match_result.prefix_len
+                last_node = match_result.last_node
+                cached_indices = match_result.indices
 
             extend_len = full_seq_len - prefix_len
             actual_prefix_lens.append(prefix_len)
-- 
2.43.0


From a542e4d2e87cb8a7098a6a0373f125905767cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 023/210] fix: split a batch of one request like any other
 batch

Indexing a one-element batch returned the batch itself, so its rid and text
stayed lists: the caller waited on a rid no result carries and the scheduler
met an unhashable rid.
---
 pymllm/engine/io_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index 06c8d78..f948af3 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -85,7 +85,7 @@ class GenerateReqInput(BaseReq):
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-        if self.batch_size == 1:
+        if self.is_single:
             return self
         return GenerateReqInput(
             rid=self._pick(self.rid, i),
-- 
2.43.0


From ea78e60771940b55f8acdc45d339ed47d0250305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 024/210] fix: refuse a batch whose per-request lists do not
 match its size

A short list raised IndexError after some requests were already queued, a
longer one was silently cut, and one rid string for the whole batch made all
its requests share a result slot.
---
 pymllm/engine/io_struct.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index f948af3..10abcfa 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -53,6 +53,8 @@ class GenerateReqInput(BaseReq):
     def normalize_batch_and_arguments(self) -> None:
         self._validate_inputs()
         self._determine_batch_size()
+        if not self.is_single:
+            self._validate_batch_lists()
 
     def _validate_inputs(self) -> None:
         has_text = self.text is not None
@@ -82,6 +84,29 @@ class GenerateReqInput(BaseReq):
             self.is_single = False
             self.batch_size = len(self.input_ids)
 
+    def _validate_batch_lists(self) -> None:
+        if isinstance(self.rid, str) or (
+            isinstance(self.rid, list) and len(set(self.rid)) != len(self.rid)
+        ):
+            raise ValueError("A batch needs one distinct `rid` per request.")
+        for name in (
+            "rid",
+            "sampling_params",
+            "return_logprob",
+            "logprob_start_len",
+            "top_logprobs_num",
+            "image_data",
+            "video_data",
+            "audio_data",
+            "lora_path",
+            "session_params",
+        ):
+            value = getattr(self, name)
+            if isinstance(value, list) and len(value) != self.batch_size:
+                raise ValueError(
+                    f"`{name}` has {len(value)} entries for a batch of {self.batch_size}."
+                )
+
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-- 
2.43.0


From f81e2cdafc23f46495c86720b76849f4295e2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 025/210] fix: never let an abort overtake the request it is
 for

Aborts were sent straight to the socket while the request could still sit in
the send queue; the tokenizer then saw the abort first and the request ran to
its end.
---
 pymllm/orchestrator/request_response_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index f59ffa5..9f09cd0 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -156,7 +156,9 @@ class RequestResponseProcess:
             state.out_list.append({"rid": rid, "error": "aborted", "finished": True})
             state.event.set()
         if self._send_to_tokenizer is not None:
-            await self._send_to_tokenizer.send_pyobj({"rid": rid, "abort": True})
+            # Behind the request itself, which may still be queued.
+            self.listen()
+            await self._request_queue.put({"rid": rid, "abort": True})
 
     async def shutdown(self) -> None:
         if self._loop_task is not None:
-- 
2.43.0


From 8aa87848bc4062c4fa893b48faf5876e38911cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 026/210] fix: refuse a request id that is still in use

The second request replaced the first one's result slot, so the first caller
waited forever and the second received both outputs.
---
 pymllm/orchestrator/request_response_process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 9f09cd0..66a1e12 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -126,6 +126,10 @@ class RequestResponseProcess:
         if max_queued is not None and self._request_queue.qsize() >= max_queued:
             raise RuntimeError("Server overloaded: too many queued requests")
 
+        for rid in request.rid if isinstance(request.rid, list) else [request.rid]:
+            if rid in self._rid_to_state:
+                raise ValueError(f"Request id {rid!r} is already in use.")
+
         if request.is_single:
             rid = request.rid if isinstance(request.rid, str) else request.rid[0]
             state = ReqState()
-- 
2.43.0


From db6195380726923f976d86c6157c459199c019c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 027/210] fix: let Engine.generate() be called more than once

Each call ran on a new event loop that was closed afterwards, while the
request queue and its tasks stayed bound to the first one; the second call
raised 'Event loop is closed'. Result slots are released as well.
---
 pymllm/engine/launch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 8fd39ca..7cc08e0 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -128,6 +128,9 @@ def _get_model_default_max_new_tokens(hf_config) -> Optional[int]:
 
 
 class Engine:
+    # Event loop of the synchronous ``generate()``
+    _sync_loop: Optional[asyncio.AbstractEventLoop] = None
+
     def __init__(self):
         self._subprocesses: List[mp.Process] = []
         self._rr_process: Optional[RequestResponseProcess] = None
@@ -401,11 +404,14 @@ class Engine:
             )
             return list(outputs)
 
-        loop = asyncio.new_event_loop()
+        # The request/response tasks live on this loop from call to call.
+        if self._sync_loop is None:
+            self._sync_loop = asyncio.new_event_loop()
         try:
-            return loop.run_until_complete(_run())
+            return self._sync_loop.run_until_complete(_run())
         finally:
-            loop.close()
+            for r in rid if isinstance(rid, list) else [rid]:
+                self._rr_process.remove_state(r)
 
     async def generate_async(
         self,
-- 
2.43.0


From 66a777066a0a8eaeeead3e62f74a66f73995a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 028/210] fix: forget an aborted request's text when its rid is
 used again

No output ends an aborted request in the detokenizer, so the next request with
the same rid lost as many characters as the aborted one had delivered.
---
 pymllm/orchestrator/detokenizer_process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 4ef5430..126c777 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -111,6 +111,7 @@ class DetokenizerProcess:
                 len(rids),
             )
         decode_ids: List[int] = token_id_out.get("decode_ids", [])
+        read_offsets: List[int] = token_id_out.get("read_offsets", [])
         skip_special_tokens_list: List[bool] = token_id_out.get(
             "skip_special_tokens", []
         )
@@ -157,6 +158,11 @@ class DetokenizerProcess:
             else:
                 text = ""
 
+            # A first output (nothing delivered yet) starts afresh: an aborted
+            # request with the same rid may have left its text behind.
+            if i < len(read_offsets) and read_offsets[i] == 0:
+                self._rid_to_prev_text.pop(rid, None)
+
             # Compute incremental delta by diffing against previous text
             # A trailing U+FFFD is usually a character whose remaining bytes are
             # still to come; hold it back until it is complete.
-- 
2.43.0


From e28a55e61dfd85245a6ab7887c185add52550c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 029/210] fix: report batched completions under the index of
 their prompt

Results arrive in completion order; /v1/completions numbered them in that
order (always 0 when streaming, with the usage of the last one only) and
/generate returned them in that order.
---
 pymllm/server/launch.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 19b9520..d0a47ad 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -626,6 +626,11 @@ def _make_chat_completion_id() -> str:
     return f"chatcmpl-{uuid.uuid4().hex[:24]}"
 
 
+def _rid_index(rids: Union[str, List[str]], result: Dict[str, Any]) -> int:
+    """Position in the batch of the request *result* belongs to."""
+    return rids.index(result["rid"]) if isinstance(rids, list) else 0
+
+
 # ---------------------------------------------------------------------------
 # Native generate endpoint
 # ---------------------------------------------------------------------------
@@ -635,6 +640,7 @@ def _make_chat_completion_id() -> str:
 async def generate(obj: GenerateRequest, request: Request):
     """Native generation endpoint.  Supports SSE streaming."""
     engine = _get_engine()
+    rids = Engine._make_rids(obj.rid, obj.text, obj.input_ids)
 
     # Collect extra fields as extra_options
     known = set(GenerateRequest.model_fields.keys())
@@ -653,7 +659,7 @@ async def generate(obj: GenerateRequest, request: Request):
         "lora_path": obj.lora_path,
         "session_params": obj.session_params,
         "stream": obj.stream,
-        "rid": obj.rid,
+        "rid": rids,
         **extra_options,
     }
     # Strip None values so Engine defaults are used
@@ -687,6 +693,7 @@ async def generate(obj: GenerateRequest, request: Request):
             results.append(item)
         if not results:
             raise HTTPException(status_code=500, detail="No output from engine")
+        results.sort(key=lambda r: _rid_index(rids, r))
         result = results[0] if len(results) == 1 else results
         return ORJSONResponse(result)
     except HTTPException:
@@ -720,6 +727,7 @@ async def openai_completions(obj: CompletionRequest, request: Request):
     if obj.logprobs is not None and obj.logprobs > 0:
         raise HTTPException(status_code=400, detail="logprobs is not yet supported")
     engine = _get_engine()
+    rids = Engine._make_rids(None, obj.prompt, None)
     sp = _build_sampling_params(
         temperature=obj.temperature,
         top_p=obj.top_p,
@@ -741,15 +749,18 @@ async def openai_completions(obj: CompletionRequest, request: Request):
 
         async def _stream() -> AsyncIterator[bytes]:
             comp_id = _make_completion_id()
-            prompt_tokens = 0
-            completion_tokens = 0
+            usage: Dict[int, Any] = {}  # index -> (prompt, completion) tokens
             gen = engine.generate_async(
-                prompt=obj.prompt, sampling_params=sp, stream=True
+                prompt=obj.prompt, sampling_params=sp, stream=True, rid=rids
             )
             try:
                 async for chunk in _iter_with_disconnect_check(gen, request):
-                    prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
-                    completion_tokens = chunk.get("completion_tokens", completion_tokens)
+                    index = _rid_index(rids, chunk)
+                    prompt_tokens, completion_tokens = usage.get(index, (0, 0))
+                    usage[index] = (
+                        chunk.get("prompt_tokens", prompt_tokens),
+                        chunk.get("completion_tokens", completion_tokens),
+                    )
                     delta_text = chunk.get("delta", "")
                     finish_reason = _normalize_finish_reason(
                         chunk.get("finished_reason")
@@ -764,7 +775,7 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                         "model": model_name,
                         "choices": [
                             {
-                                "index": 0,
+                                "index": index,
                                 "text": delta_text,
                                 "logprobs": None,
                                 "finish_reason": finish_reason,
@@ -780,6 +791,8 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                 await gen.aclose()
             # Final usage-only chunk (OpenAI stream_options.include_usage)
             if include_usage:
+                prompt_tokens = sum(p for p, _ in usage.values())
+                completion_tokens = sum(c for _, c in usage.values())
                 usage_chunk: Dict[str, Any] = {
                     "id": comp_id,
                     "object": "text_completion",
@@ -798,12 +811,13 @@ async def openai_completions(obj: CompletionRequest, request: Request):
         return StreamingResponse(_stream(), media_type="text/event-stream")
 
     gen = engine.generate_async(
-        prompt=obj.prompt, sampling_params=sp
+        prompt=obj.prompt, sampling_params=sp, rid=rids
     )
     try:
         results = []
         async for item in _iter_with_disconnect_check(gen, request):
             results.append(item)
+        results.sort(key=lambda r: _rid_index(rids, r))
         choices = []
         prompt_tokens = 0
         completion_tokens = 0
-- 
2.43.0


From c8c4913a072cf9e6d04c5f3ea3dad57d0b704715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 030/210] fix: split reasoning from content the same way
 however the text is chunked

---
 pymllm/parsers/reasoning_parser.py | 33 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 1f73c78..4d76274 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -93,22 +93,23 @@ class ReasoningParser:
 
         Returns ``(reasoning_content, content)`` where either may be empty.
         """
-        start_idx = text.find(self._start)
-        end_idx = text.find(self._end)
-
-        if start_idx == -1 and not self._force:
-            return None, text
-
         # Determine boundaries
-        if self._force and start_idx == -1:
-            # Model didn't emit explicit start tag; treat prefix as reasoning
+        if self._force:
+            # The start tag is optional: the text begins with reasoning
+            before = ""
+            lead = text.lstrip()
             reason_start = 0
+            if lead.startswith(self._start):
+                reason_start = len(text) - len(lead) + len(self._start)
         else:
+            start_idx = text.find(self._start)
+            if start_idx == -1:
+                return None, text
+            before = text[:start_idx]
             reason_start = start_idx + len(self._start)
 
-        before = text[:start_idx] if start_idx != -1 else ""
-
-        if end_idx != -1 and end_idx >= reason_start:
+        end_idx = text.find(self._end, reason_start)
+        if end_idx != -1:
             reasoning = text[reason_start:end_idx]
             after = text[end_idx + len(self._end) :]
         else:
@@ -141,12 +142,12 @@ class ReasoningParser:
         # In forced reasoning mode, consume the start tag if it appears
         # (the model may or may not emit it explicitly).
         if self._in_reasoning and not self._start_consumed:
-            idx = self._buffer.find(self._start)
-            if idx != -1:
-                # Start tag found — strip it and any text before it
-                self._buffer = self._buffer[idx + len(self._start) :]
+            lead = self._buffer.lstrip()
+            if lead.startswith(self._start):
+                # Start tag found — strip it and the whitespace before it
+                self._buffer = lead[len(self._start) :]
                 self._start_consumed = True
-            elif _could_be_partial(self._buffer, self._start):
+            elif self._start.startswith(lead):
                 # Might be a partial start tag — hold the buffer
                 return "", ""
             else:
-- 
2.43.0


From 6de429bfc26a95fe6eb406cdf7d093578a0e6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 031/210] fix: deliver the reasoning and content a stream
 parser still holds at the end

---
 pymllm/parsers/reasoning_parser.py | 12 ++++++++++++
 pymllm/server/launch.py            |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 4d76274..bf92036 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -83,6 +83,7 @@ class ReasoningParser:
         self._in_reasoning = cfg.force
         self._start_consumed = False  # True once start tag has been stripped
         self._done = False  # True once end tag has been seen
+        self._held_reasoning = ""  # reasoning not emitted yet (stream_reasoning=False)
 
     # ------------------------------------------------------------------ #
     # Non-streaming
@@ -195,10 +196,21 @@ class ReasoningParser:
                 self._buffer = ""
 
         if not self._stream_reasoning:
+            self._held_reasoning += reasoning_out
             reasoning_out = ""
+            if self._done:
+                reasoning_out, self._held_reasoning = self._held_reasoning, ""
 
         return reasoning_out, content_out
 
+    def flush(self) -> Tuple[str, str]:
+        """Return what is still held back (call at request end)."""
+        held, self._buffer = self._buffer, ""
+        if not self._in_reasoning:
+            return "", held
+        held, self._held_reasoning = self._held_reasoning + held, ""
+        return held, ""
+
 
 # ---------------------------------------------------------------------------
 # Helpers
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index d0a47ad..c557096 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -979,6 +979,10 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         reasoning_delta, content_delta = r_parser.parse_stream_chunk(
                             raw_delta
                         )
+                    if r_parser and finish_reason is not None:
+                        held_reasoning, held_content = r_parser.flush()
+                        reasoning_delta += held_reasoning
+                        content_delta += held_content
 
                     # --- Phase 2: tool-call parser ---
                     tool_items: list = []
-- 
2.43.0


From 84771b98ac2d636cef22220a5c482760db3c970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 032/210] fix: recognise tool-call tags that are split between
 stream chunks

---
 pymllm/parsers/tool_call_parser.py | 43 ++++++++++++++++--------------
 pymllm/server/launch.py            |  4 ++-
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index fdfe939..27d7b50 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -229,14 +229,9 @@ class ToolCallParser:
                     continue  # try to process call content
                 else:
                     # Check for partial bot token at tail
-                    if self._bot and _could_be_partial(self._buffer, self._bot):
-                        safe = len(self._buffer) - len(self._bot) + 1
-                        if safe > 0:
-                            content_out += self._buffer[:safe]
-                            self._buffer = self._buffer[safe:]
-                    else:
-                        content_out += self._buffer
-                        self._buffer = ""
+                    safe = len(self._buffer) - _partial_len(self._buffer, self._bot)
+                    content_out += self._buffer[:safe]
+                    self._buffer = self._buffer[safe:]
                     break
 
             if self._in_call:
@@ -254,9 +249,12 @@ class ToolCallParser:
                         self._current_tool_idx += 1
                         continue  # there may be more calls
                     else:
-                        # Accumulate and stream arguments
-                        self._current_call_buf += self._buffer
-                        self._buffer = ""
+                        # Accumulate and stream arguments, but keep back a
+                        # tail that may be the beginning of the end token
+                        held = _partial_len(self._buffer, self._end)
+                        safe = len(self._buffer) - held
+                        self._current_call_buf += self._buffer[:safe]
+                        self._buffer = self._buffer[safe:]
                         item = self._stream_partial_call()
                         if item is not None:
                             items.append(item)
@@ -272,15 +270,19 @@ class ToolCallParser:
 
         return content_out, items
 
-    def flush(self) -> List[ToolCallItem]:
-        """Flush any remaining buffered tool call (call at request end)."""
+    def flush(self) -> Tuple[str, List[ToolCallItem]]:
+        """Flush held content and any remaining buffered tool call (call at request end)."""
         items: List[ToolCallItem] = []
-        if self._in_call and self._current_call_buf.strip():
+        held, self._buffer = self._buffer, ""
+        if not self._in_call:
+            return held, items
+        self._current_call_buf += held
+        if self._current_call_buf.strip():
             item = self._finalize_call()
             if item is not None:
                 items.append(item)
-            self._in_call = False
-        return items
+        self._in_call = False
+        return "", items
 
     # ------------------------------------------------------------------ #
     # Internal helpers
@@ -426,8 +428,9 @@ def _make_tool_call_id() -> str:
     return f"call_{uuid.uuid4().hex[:24]}"
 
 
-def _could_be_partial(text: str, pattern: str) -> bool:
-    for i in range(1, len(pattern)):
+def _partial_len(text: str, pattern: str) -> int:
+    """Length of the longest proper prefix of *pattern* that ends *text*."""
+    for i in range(min(len(pattern) - 1, len(text)), 0, -1):
         if text.endswith(pattern[:i]):
-            return True
-    return False
+            return i
+    return 0
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index c557096..5b42d55 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -1015,7 +1015,9 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                     if finish_reason is not None:
                         # Flush remaining tool call data
                         if tc_parser:
-                            remaining = tc_parser.flush()
+                            held_content, remaining = tc_parser.flush()
+                            if held_content:
+                                yield _make_sse({"content": held_content})
                             for tc in remaining:
                                 has_tool_calls = True
                                 yield _make_sse({"tool_calls": [tc.to_openai_dict()]})
-- 
2.43.0


From da5815c32e2dac9a3597f0036ea989e7de56ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 033/210] fix: a tool-call body that is not a call object is
 not a tool call

---
 pymllm/parsers/tool_call_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index 27d7b50..b8ae49c 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -296,9 +296,11 @@ class ToolCallParser:
             obj = json.loads(body)
         except json.JSONDecodeError:
             return None
-        name = obj.get("name")
+        if not isinstance(obj, dict) or not isinstance(obj.get("name"), str):
+            return None
+        name = obj["name"]
         args = obj.get("arguments") or obj.get("parameters") or {}
-        if isinstance(args, dict):
+        if not isinstance(args, str):
             args = json.dumps(args, ensure_ascii=False)
         return ToolCallItem(name=name, arguments=args)
 
-- 
2.43.0


From ccb16e4c9839fe7b16b7ced769fd9fbcf2badf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 034/210] fix: stream a tool call's arguments so that the
 pieces add up to them

---
 pymllm/parsers/tool_call_parser.py | 57 +++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index b8ae49c..64a4a85 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -374,8 +374,13 @@ class ToolCallParser:
             parsed.tool_call_id = _make_tool_call_id()
             return parsed
 
-        # Name was already sent — emit remaining arguments
-        full_args = parsed.arguments
+        # Name was already sent — emit remaining arguments (JSON arguments
+        # that were partly streamed go on as the model wrote them)
+        full_args = None
+        if self._prev_args_len and self._model_type != "qwen3_coder":
+            full_args = self._try_extract_args_partial(self._current_call_buf.strip())
+        if full_args is None:
+            full_args = parsed.arguments
         new_chars = full_args[self._prev_args_len :]
         if new_chars:
             return ToolCallItem(
@@ -390,8 +395,9 @@ class ToolCallParser:
         if self._model_type == "qwen3_coder":
             m = re.search(r"<function=([^>]+)>", partial)
             return m.group(1) if m else None
-        m = re.search(r'"name"\s*:\s*"([^"]+)"', partial)
-        return m.group(1) if m else None
+        start, end = _member_spans(partial).get("name", (0, None))
+        name = json.loads(partial[start:end]) if end is not None else None
+        return name if isinstance(name, str) else None
 
     def _try_extract_args_partial(self, partial: str) -> Optional[str]:
         """Try to extract partial arguments from call body."""
@@ -399,7 +405,7 @@ class ToolCallParser:
             # Build JSON incrementally from <parameter=K>V</parameter> tags
             params: Dict[str, Any] = {}
             for pm in re.finditer(
-                r"<parameter=([^>]+)>(.*?)(?:</parameter>)",
+                r"<parameter=([^>]+)>(.*?)(?:</parameter>|(?=<parameter=)|(?=</function>))",
                 partial,
                 re.DOTALL,
             ):
@@ -410,15 +416,13 @@ class ToolCallParser:
                 except (json.JSONDecodeError, ValueError):
                     params[key] = val
             if params:
-                return json.dumps(params, ensure_ascii=False)
+                # without the closing brace: more parameters may follow
+                return json.dumps(params, ensure_ascii=False)[:-1]
             return None
-        m = re.search(r'"arguments"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        m = re.search(r'"parameters"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        return None
+        spans = _member_spans(partial)
+        start, end = spans.get("arguments") or spans.get("parameters") or (0, 0)
+        args = partial[start:end]
+        return args if args.startswith("{") else None
 
 
 # ---------------------------------------------------------------------------
@@ -436,3 +440,30 @@ def _partial_len(text: str, pattern: str) -> int:
         if text.endswith(pattern[:i]):
             return i
     return 0
+
+
+def _member_spans(body: str) -> Dict[str, Tuple[int, Optional[int]]]:
+    """``(start, end)`` of each member value of a (partial) JSON object.
+
+    ``end`` is ``None`` for the value the text breaks off in.
+    """
+    decoder = json.JSONDecoder()
+    spans: Dict[str, Tuple[int, Optional[int]]] = {}
+    m = re.match(r"\s*\{\s*", body)
+    while m:
+        try:
+            key, pos = decoder.raw_decode(body, m.end())
+        except json.JSONDecodeError:
+            break
+        m = re.compile(r"\s*:\s*").match(body, pos)
+        if m is None or not isinstance(key, str):
+            break
+        start = m.end()
+        try:
+            _, end = decoder.raw_decode(body, start)
+        except json.JSONDecodeError:
+            spans[key] = (start, None)
+            break
+        spans[key] = (start, end)
+        m = re.compile(r"\s*,\s*").match(body, end)
+    return spans
-- 
2.43.0


From 34262a59c6794a5deb6ffd7e5f0439bfee69fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 035/210] fix: do not count the resampled token as an emitted
 draft token

---
 pymllm/layers/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/layers/sampling.py b/pymllm/layers/sampling.py
index 0eb444d..892d840 100644
--- a/pymllm/layers/sampling.py
+++ b/pymllm/layers/sampling.py
@@ -758,8 +758,8 @@ def _torch_chain_speculative_sampling(
                     resampled = torch.multinomial(
                         diff.unsqueeze(0), num_samples=1, generator=generator
                     ).item()
+                    # not a draft token: not counted as emitted
                     output_ids[b, t] = resampled
-                    emitted_count[b] += 1
                     all_accepted = False
 
         # bonus token (sampled from target at position after last emitted)
-- 
2.43.0


From 9399deeb3647c547ea8586b2ce5694970d4e2d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 036/210] fix: keep greedy requests exact when batched with
 sampled ones

---
 pymllm/executor/model_runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 7e1cf6d..79971bb 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1529,6 +1529,11 @@ class ModelRunner:
         else:
             next_token_ids = sampling_from_probs(probs)
 
+        # Greedy requests stay greedy when batched with sampled ones.
+        if temperatures is not None:
+            greedy_ids = logits.argmax(dim=-1).to(next_token_ids.dtype)
+            next_token_ids = torch.where(temperatures < 1e-6, greedy_ids, next_token_ids)
+
         return next_token_ids
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 0439194749053b6e932ad7783e76d89d86e09a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 037/210] fix: apply frequency penalties to half-precision
 logits

---
 pymllm/executor/model_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 79971bb..1126530 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -253,7 +253,7 @@ def _apply_penalties(
         if pres_p != 0.0:
             selected_logits = selected_logits - pres_p
 
-        logits[i, token_ids_t] = selected_logits
+        logits[i, token_ids_t] = selected_logits.to(logits.dtype)
 
     return logits
 
-- 
2.43.0


From 3c52c243bb579e5f51b48f2d5b6665be90364680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 038/210] fix: keep an abort behind its request in shared-queue
 mode

---
 pymllm/orchestrator/scheduler_process.py | 20 ++++++++++++--------
 pymllm/orchestrator/tokenizer_process.py |  6 +++---
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index a92e5cb..467567a 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -567,7 +567,6 @@ class SchedulerProcess:
         """
         if self._enable_shared_queue and self._shared_queue is not None:
             self._recv_from_shared_queue()
-        # Aborts always arrive over ZMQ.
         self._recv_from_zmq()
 
     def _recv_from_zmq(self) -> None:
@@ -579,16 +578,18 @@ class SchedulerProcess:
             msg = self._recv_from_tokenizer.recv_pyobj(zmq.NOBLOCK)
             # Abort sentinel: plain dict with "abort" key.
             if isinstance(msg, dict) and msg.get("abort"):
-                rid = msg.get("rid")
-                logger.debug("Scheduler received abort for rid=%s", rid)
-                self._waiting_queue = type(self._waiting_queue)(
-                    r for r in self._waiting_queue if r.rid != rid
-                )
-                # Also abort from pending queue
-                self._abort_request(rid)
+                self._receive_abort(msg.get("rid"))
             else:
                 self._waiting_queue.append(msg)
 
+    def _receive_abort(self, rid: str) -> None:
+        logger.debug("Scheduler received abort for rid=%s", rid)
+        self._waiting_queue = type(self._waiting_queue)(
+            r for r in self._waiting_queue if r.rid != rid
+        )
+        # Also abort from pending queue
+        self._abort_request(rid)
+
     def _recv_from_shared_queue(self) -> None:
         """Receive requests via shared memory + shared queue fast path.
 
@@ -606,6 +607,9 @@ class SchedulerProcess:
         while True:
             try:
                 rid, shm_name, mm_inputs = self._shared_queue.get(timeout=0.002)
+                if not shm_name:  # abort sentinel
+                    self._receive_abort(rid)
+                    continue
 
                 # Read metadata from shared memory (and unlink immediately)
                 metadata: TokenizedGenerateReqInput = SharedMemoryManager.read_metadata(
diff --git a/pymllm/orchestrator/tokenizer_process.py b/pymllm/orchestrator/tokenizer_process.py
index 7a10ff1..9f106c3 100644
--- a/pymllm/orchestrator/tokenizer_process.py
+++ b/pymllm/orchestrator/tokenizer_process.py
@@ -161,12 +161,12 @@ class TokenizerProcess:
         * ``"cuda_ipc_pool"`` – copied into the :class:`MmItemMemoryPool` workspace and
           wrapped in :class:`CudaIpcTensorTransportProxy`.
 
-        Abort sentinel messages are forwarded via ZMQ (they are lightweight dicts).
+        Abort sentinel messages take the same queue, without a metadata segment,
+        so that they never overtake the request they are for.
         """
         # Handle abort sentinel
         if isinstance(tokenized, dict) and tokenized.get("abort"):
-            # Fallback to ZMQ for abort messages (no tensor payload)
-            self._send_to_scheduler.send_pyobj(tokenized)
+            self._shared_queue.put(tokenized.get("rid"), "", None)
             return
 
         assert isinstance(tokenized, TokenizedGenerateReqInput), (
-- 
2.43.0


From efcd02132e952d67ae538dfeec0b2a9a5243b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 039/210] fix: accept any request id in shared-queue mode

---
 pymllm/orchestrator/shared_memory_queue.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 2f006bd..9941938 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -68,7 +68,7 @@ class SharedMemoryManager:
     """Manages shared memory segments for passing metadata between processes.
 
     Each tokenized request's metadata is written to a unique shared memory
-    segment keyed by its request ID (rid). The scheduler reads and immediately
+    segment of its own. The scheduler reads and immediately
     unlinks the segment to prevent memory leaks.
     """
 
@@ -77,7 +77,7 @@ class SharedMemoryManager:
         """Write metadata to shared memory and return the segment name.
 
         Args:
-            rid: Request ID (used as part of the shared memory name)
+            rid: Request ID
             metadata: Serializable metadata object
 
         Returns:
@@ -85,7 +85,8 @@ class SharedMemoryManager:
         """
         data = pickle.dumps(metadata)
         size = len(data)
-        shm_name = f"pymllm_meta_{rid}_{uuid.uuid4().hex[:8]}"
+        # A client may choose any rid, a segment name may not hold all of them.
+        shm_name = f"pymllm_meta_{uuid.uuid4().hex}"
         try:
             shm = SharedMemory(name=shm_name, create=True, size=size)
             shm.buf[:size] = data
-- 
2.43.0


From acf03239c0aafdec7b9c66ba380f66377bfc459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 040/210] fix: keep tensors intact and chunks recyclable when
 pool transport meets odd tensors or no IPC

---
 pymllm/orchestrator/cuda_ipc_transport.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 938132c..f247ee5 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -400,7 +400,7 @@ class CudaIpcTensorTransportProxy:
                 "falling back to direct tensor.",
                 exc,
             )
-            return {"ipc_handle": None, "tensor_data": data}
+            return {"ipc_handle": None, "tensor_data": info_data}
 
     def reconstruct_on_device(self, device_index: Optional[int] = None) -> torch.Tensor:
         """Map IPC memory and copy into a new local tensor.
@@ -434,10 +434,7 @@ class CudaIpcTensorTransportProxy:
                 result = torch.empty(
                     h["target_shape"], dtype=h["target_dtype"], device=target_device
                 ).contiguous()
-                result.view(torch.int8).view(-1).copy_(slice_tensor)
-
-            # Signal sender that the chunk can be recycled
-            _increment_sync_flag(self.sync_data_meta)
+                result.view(-1).view(torch.int8).copy_(slice_tensor)
         elif state["tensor_data"] is not None:
             result = state["tensor_data"]
             if device_index is not None:
@@ -445,6 +442,8 @@ class CudaIpcTensorTransportProxy:
         else:
             raise RuntimeError("CudaIpcTensorTransportProxy: invalid state")
 
+        # Signal sender that the chunk can be recycled
+        _increment_sync_flag(self.sync_data_meta)
         self._reconstructed = result
         return result
 
@@ -599,7 +598,9 @@ def _wrap_cuda_tensor(
         sync_meta, pool_slice = pool.get_slice_with_flag(tensor)
         if pool_slice is not None:
             # Copy tensor bytes into the pool slice
-            pool_slice.copy_(tensor.view(torch.int8).view(-1), non_blocking=True)
+            pool_slice.copy_(
+                tensor.contiguous().view(-1).view(torch.int8), non_blocking=True
+            )
             return CudaIpcTensorTransportProxy(
                 data=pool_slice,
                 info_data=tensor,
-- 
2.43.0


From c50af19c1900aa2c2d6721bd424e64e6402c12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 041/210] fix: hand out page-aligned KV slots within the pool
 only

---
 pymllm/mem_cache/memory_pool.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 56a2946..3c07108 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -258,7 +258,8 @@ class TokenToKVPoolAllocator:
                 1, self.size + 1, dtype=torch.int32, device=self.device
             )
         else:
-            num_pages = self.size // self.page_size
+            # Page 0 holds the padding slot; every page must end within [1, size].
+            num_pages = max((self.size + 1) // self.page_size - 1, 0)
             self.free_slots = torch.arange(
                 1, num_pages + 1, dtype=torch.int32, device=self.device
             )
@@ -313,7 +314,9 @@ class TokenToKVPoolAllocator:
             return None
         pages = self.free_slots[:num_pages]
         self.free_slots = self.free_slots[num_pages:]
-        offsets = torch.arange(self.page_size, device=self.device)
+        offsets = torch.arange(
+            self.page_size, dtype=torch.int32, device=self.device
+        )
         out = (pages[:, None] * self.page_size + offsets).reshape(-1)
         return out[:need_size]
 
-- 
2.43.0


From 49615ea5e2b05340d4a19347684d43155f2a6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 042/210] fix: do not let an extra option turn a request into
 an abort

---
 pymllm/engine/io_struct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index 10abcfa..ad2b8f4 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -61,6 +61,9 @@ class GenerateReqInput(BaseReq):
         has_input_ids = self.input_ids is not None
         if has_text == has_input_ids:
             raise ValueError("Exactly one of `text` or `input_ids` must be provided.")
+        if "abort" in self.extra_options:
+            # Marks an abort message further down the pipeline.
+            raise ValueError("`abort` is not a generation option.")
 
     def _determine_batch_size(self) -> None:
         if self.text is not None:
-- 
2.43.0


From a917778d1dd9f595ae1470dd7ab9687c76a682d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 043/210] fix: send a single request under its own rid when
 given as a list

---
 pymllm/engine/io_struct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index ad2b8f4..76c028b 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -55,6 +55,10 @@ class GenerateReqInput(BaseReq):
         self._determine_batch_size()
         if not self.is_single:
             self._validate_batch_lists()
+        elif isinstance(self.rid, list):
+            if len(self.rid) != 1:
+                raise ValueError("A single request needs exactly one `rid`.")
+            self.rid = self.rid[0]
 
     def _validate_inputs(self) -> None:
         has_text = self.text is not None
-- 
2.43.0


From e8b5f3a0a993bbf2e60c2e340e6358e5134d13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 044/210] fix: abort a streaming request whose client is gone

---
 pymllm/server/launch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 5b42d55..4925529 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -84,10 +84,13 @@ async def _iter_with_disconnect_check(
                     # Close the generator to trigger its finally block.
                     await agen.aclose()
                     return
-        except Exception:
+        except BaseException:
+            # Also when cancelled because the client is gone: the generator has
+            # to be at rest before its owner can close it.
             next_task.cancel()
-            with contextlib.suppress(asyncio.CancelledError, StopAsyncIteration):
-                await next_task
+            while not next_task.done():
+                with contextlib.suppress(asyncio.CancelledError):
+                    await asyncio.wait({next_task})
             raise
 
         try:
-- 
2.43.0


From 99a374d9b2170d7f663b3d3e91a0f2072599d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 045/210] fix: let endpoints see that their client has
 disconnected (auth as plain ASGI middleware)

---
 pymllm/server/launch.py | 57 ++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 4925529..6ecd4f1 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -297,26 +297,43 @@ app = FastAPI(lifespan=lifespan)
 _AUTH_EXEMPT_PATHS = frozenset({"/health", "/health_generate"})
 
 
-@app.middleware("http")
-async def _auth_middleware(request: Request, call_next):
-    """Enforce ``Authorization: Bearer <key>`` when ``api_key`` is configured."""
-    cfg = get_global_config()
-    api_key = cfg.server.api_key
-    if api_key is None:
-        # No key configured — open access.
-        return await call_next(request)
-    if request.url.path in _AUTH_EXEMPT_PATHS:
-        return await call_next(request)
-    auth = request.headers.get("Authorization", "")
-    if auth == f"Bearer {api_key}":
-        return await call_next(request)
-    admin_key = cfg.server.admin_api_key
-    if admin_key and auth == f"Bearer {admin_key}":
-        return await call_next(request)
-    return ORJSONResponse(
-        status_code=401,
-        content={"error": {"message": "Invalid or missing API key", "code": 401}},
-    )
+class _AuthMiddleware:
+    """Enforce ``Authorization: Bearer <key>`` when ``api_key`` is configured.
+
+    A plain ASGI middleware: behind ``@app.middleware("http")`` an endpoint
+    cannot see that its client has disconnected.
+    """
+
+    def __init__(self, app):
+        self.app = app
+
+    async def __call__(self, scope, receive, send):
+        if scope["type"] != "http" or self._is_authorized(Request(scope)):
+            await self.app(scope, receive, send)
+            return
+        response = ORJSONResponse(
+            status_code=401,
+            content={"error": {"message": "Invalid or missing API key", "code": 401}},
+        )
+        await response(scope, receive, send)
+
+    @staticmethod
+    def _is_authorized(request: Request) -> bool:
+        cfg = get_global_config()
+        api_key = cfg.server.api_key
+        if api_key is None:
+            # No key configured — open access.
+            return True
+        if request.url.path in _AUTH_EXEMPT_PATHS:
+            return True
+        auth = request.headers.get("Authorization", "")
+        if auth == f"Bearer {api_key}":
+            return True
+        admin_key = cfg.server.admin_api_key
+        return bool(admin_key) and auth == f"Bearer {admin_key}"
+
+
+app.add_middleware(_AuthMiddleware)
 
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From 33f9b8f13c5278b1a9dc52f0cf08e0609e5353d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 046/210] fix: let the pool for CUDA IPC transport be created

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index f247ee5..bfbd133 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -205,11 +205,11 @@ class MmItemMemoryPool:
                 memory_size, dtype=torch.int8, device=f"cuda:{device}"
             ).contiguous()
 
+        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
+        self._sync_pool: List[ShmSyncBuffer] = []
         init_chunk = MmItemMemoryChunk((0, memory_size), self._new_sync_buffer())
         self.available_chunks: List[MmItemMemoryChunk] = [init_chunk]
         self.occupied_chunks: List[MmItemMemoryChunk] = []
-        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
-        self._sync_pool: List[ShmSyncBuffer] = []
 
         self._recycler = threading.Thread(
             target=self._recycle_loop,
-- 
2.43.0


From 66f11641d8af32c3c8aa1d2acdde1d1dfef789c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 047/210] fix: let the transport pool merge around a recycled
 empty chunk

---
 pymllm/orchestrator/cuda_ipc_transport.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index bfbd133..fc67005 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -307,6 +307,9 @@ class MmItemMemoryPool:
         for chunk in self.occupied_chunks:
             if chunk.try_to_recycle(self.num_consumers):
                 self._return_sync_buffer(chunk.sync_flag)
+                if chunk.mem_size == 0:
+                    # An empty chunk would keep its neighbours from merging.
+                    continue
                 chunk.sync_flag = self._new_sync_buffer()
                 self.available_chunks.append(chunk)
             else:
-- 
2.43.0


From 703a1fc58ba111d1edfb047f7ac7da00a6422e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 048/210] fix: end a prefix-tree walk at a partly matched node

insert and search went on into the children of a node of which only a part
had matched, so [1,2,9] under [1,2,3]+[9] was taken for a longer match, with
another sequence's cache addresses.
---
 mllm/engine/prefix_cache/RadixTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index d9049c5..a7e42f5 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -68,7 +68,8 @@ bool RadixTree::insert(const RadixTreeNodeKey& key, const RadixTreeNodeValue& va
       found = true;
       break;
     }
-    if (!found) break;
+    // A child that is matched only in part ends the walk: what follows its matched tokens is not below it.
+    if (!found || edge_matched < deepest->key.token_ids.size()) break;
     cur = deepest;
   }
 
@@ -118,6 +119,7 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
   // Start from root to find.
   while (cur_searched_len < key.token_ids.size() && cur_node) {
     bool found_next_child = false;
+    bool matched_whole_child = false;
     auto sub_token_ids = key.token_ids.subview(cur_searched_len, key.token_ids.size() - cur_searched_len);
 
     for (auto& [child_key, child_node] : cur_node->children) {
@@ -130,11 +132,13 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
         cur_searched_len += matched_len;
         path.emplace_back(cur_node, matched_len);
         found_next_child = true;
+        matched_whole_child = matched_len == child_key.token_ids.size();
         break;
       }
     }
 
-    if (!found_next_child) { break; }
+    // A child that is matched only in part ends the walk: what follows its matched tokens is not below it.
+    if (!found_next_child || !matched_whole_child) { break; }
   }
 
   if (cur_searched_len) {
-- 
2.43.0


From c796815b8f434d59b230908e544c6b35fcf5ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 049/210] fix: keep sequences of different extra keys apart in
 the prefix tree

Node keys compared equal whatever their extra_key, so a sibling of another
extra_key with the same tokens could be dropped, and what was promoted with an
extra_key could not be found again.
---
 mllm/engine/prefix_cache/Cache.cpp     | 4 ++--
 mllm/engine/prefix_cache/Cache.hpp     | 2 +-
 mllm/engine/prefix_cache/RadixTree.cpp | 4 +++-
 mllm/nn/lmcache/PrefixCache.cpp        | 8 ++++----
 mllm/nn/lmcache/PrefixCache.hpp        | 5 +++--
 5 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/mllm/engine/prefix_cache/Cache.cpp b/mllm/engine/prefix_cache/Cache.cpp
index 0076112..279f2f4 100644
--- a/mllm/engine/prefix_cache/Cache.cpp
+++ b/mllm/engine/prefix_cache/Cache.cpp
@@ -21,8 +21,8 @@ void Cache::promote(const std::vector<int64_t>& token_ids, const std::vector<std
   tree_.insert(RadixTreeNodeKey(VectorView<int64_t>(token_ids), extra_key), value);
 }
 
-RadixSearchResult Cache::find(const std::vector<int64_t>& token_ids) {
-  return tree_.search(RadixTreeNodeKey(VectorView<int64_t>(token_ids)));
+RadixSearchResult Cache::find(const std::vector<int64_t>& token_ids, int64_t extra_key) {
+  return tree_.search(RadixTreeNodeKey(VectorView<int64_t>(token_ids), extra_key));
 }
 
 // low level APIs
diff --git a/mllm/engine/prefix_cache/Cache.hpp b/mllm/engine/prefix_cache/Cache.hpp
index b6e520a..b413a82 100644
--- a/mllm/engine/prefix_cache/Cache.hpp
+++ b/mllm/engine/prefix_cache/Cache.hpp
@@ -27,7 +27,7 @@ class Cache {
   void promote(const std::vector<int64_t>& token_ids, const std::vector<std::vector<vp_addr_t>>& key_cache_addresses,
                const std::vector<std::vector<vp_addr_t>>& value_cache_addresses, int64_t extra_key = 0);
 
-  RadixSearchResult find(const std::vector<int64_t>& token_ids);
+  RadixSearchResult find(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   // Low level APIs
   vp_addr_t alloc(DeviceTypes device_type);
diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index a7e42f5..36c8549 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -11,7 +11,9 @@ namespace mllm::prefix_cache {
 RadixTreeNodeKey::RadixTreeNodeKey(const VectorView<int64_t>& token_ids_tmp, int64_t extra_key_tmp)
     : token_ids(token_ids_tmp), extra_key(extra_key_tmp) {}
 
-bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept { return token_ids == o.token_ids; }
+bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept {
+  return extra_key == o.extra_key && token_ids == o.token_ids;
+}
 
 bool RadixTreeNodeKey::operator!=(const RadixTreeNodeKey& o) const noexcept { return !(*this == o); }
 
diff --git a/mllm/nn/lmcache/PrefixCache.cpp b/mllm/nn/lmcache/PrefixCache.cpp
index e88109d..88fd217 100644
--- a/mllm/nn/lmcache/PrefixCache.cpp
+++ b/mllm/nn/lmcache/PrefixCache.cpp
@@ -49,8 +49,8 @@ void PrefixCache::purgeKey(int layer_idx, prefix_cache::vp_addr_t addr) {}
 
 void PrefixCache::purgeValue(int layer_idx, prefix_cache::vp_addr_t addr) {}
 
-prefix_cache::RadixSearchResult PrefixCache::find(const std::vector<int64_t>& token_ids) {
-  return tree_->search(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids)));
+prefix_cache::RadixSearchResult PrefixCache::find(const std::vector<int64_t>& token_ids, int64_t extra_key) {
+  return tree_->search(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids), extra_key));
 }
 
 CpuPrefixCache::CpuPrefixCache(const PrefixCacheOptions& options) : PrefixCache(options) {
@@ -83,7 +83,7 @@ void CpuPrefixCache::promote(const std::vector<int64_t>& token_ids,
   tree_->insert(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids), extra_key), value);
 }
 
-void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids) {
+void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids, int64_t extra_key) {
   // Check the sliding window layers if they need to be evicted
   // Remember that the token_ids is full and not partial
   if (!options_.hybrid_sliding_window_cache.value_or(false)) { return; }
@@ -91,7 +91,7 @@ void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token
 
   // We evict the tokens outof sliding window.
   // 1. find token_ids path
-  auto result = find(token_ids);
+  auto result = find(token_ids, extra_key);
 
   for (int layer_idx = 0; layer_idx < options_.total_layers; ++layer_idx) {
     // Only perform on sliding window
diff --git a/mllm/nn/lmcache/PrefixCache.hpp b/mllm/nn/lmcache/PrefixCache.hpp
index 89aba2e..1a948da 100644
--- a/mllm/nn/lmcache/PrefixCache.hpp
+++ b/mllm/nn/lmcache/PrefixCache.hpp
@@ -60,7 +60,7 @@ class PrefixCache {
  public:
   explicit PrefixCache(const PrefixCacheOptions& options);
 
-  prefix_cache::RadixSearchResult find(const std::vector<int64_t>& token_ids);
+  prefix_cache::RadixSearchResult find(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   virtual ~PrefixCache();
 
@@ -115,8 +115,9 @@ class CpuPrefixCache final : public PrefixCache {
    * @brief This function will evict kv cache outside of sliding window layers
    *
    * @param token_ids
+   * @param extra_key the extra_key the tokens were promoted with
    */
-  void evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids);
+  void evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   prefix_cache::vp_addr_t allocKey(int layer_idx) override;
 
-- 
2.43.0


From 2e75bfba6820e43994dcc8550054bac8a859bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 050/210] fix: free the KV lane that was given, not one of the
 first page

free() left the page bits of the address out, so it marked a lane of page 0
free, which may be in use, and never the one it was given.
---
 mllm/engine/prefix_cache/ZenFS.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 604be3f..13ef937 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -596,15 +596,17 @@ void ZenFileSystem::free(vp_addr_t addr) {
   // Extract blob address from the virtual address
   vp_blob_addr_t blob_addr = getBlobAddr(addr, options_.page_bits, options_.lane_bits);
 
-  // Get the lane address to determine which bit to free in the bitmap
+  // The bitmap has one bit for each lane of each page, in address order
+  vp_page_addr_t page_addr = getPageAddr(addr, options_.page_bits, options_.lane_bits);
   vp_lane_addr_t lane_addr = getLaneAddr(addr, options_.page_bits, options_.lane_bits);
+  size_t slot = ((size_t)page_addr << options_.lane_bits) | lane_addr;
 
   // Find the blob
   auto it = blob_.find(blob_addr);
   if (it != blob_.end()) {
     // Calculate which word in the bitmap and which bit within that word
-    size_t word_index = lane_addr / 64;
-    size_t bit_index = lane_addr % 64;
+    size_t word_index = slot / 64;
+    size_t bit_index = slot % 64;
 
     // Set the bit to 1 to indicate it's free
     if (word_index < it->second.free_lanes_bits_map.size()) {
-- 
2.43.0


From 5bd2dc0d31146bc4103e3384b20a66c01e5d4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 051/210] fix: hand out only KV lanes that a ZenFS blob has

A blob of fewer than 64 lanes had a bit for each of 64, and a blob on disk one
for each byte of a word, so malloc gave addresses past the end of the blob.
---
 mllm/engine/prefix_cache/ZenFS.cpp | 27 ++++++++++++---------------
 mllm/engine/prefix_cache/ZenFS.hpp |  2 ++
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 13ef937..87c10a0 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -324,16 +324,13 @@ void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
 
   // X. Create the first block Tensor for KV
   {
-    size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-    size_t uint64_count = (total_bits + 64 - 1) / 64;
-
     // The first blob is in memory
     blob_.insert({blob_.size(), ZenFSBlob{.data = Tensor::zeros({(1 << (options_.page_bits + options_.lane_bits)),
                                                                  (int32_t)options.per_k_token_ele},
                                                                 options.k_dtype),
                                           .type = ZenFSBlobType::kInMemory,
                                           .mmap_file = std::nullopt,
-                                          .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                          .free_lanes_bits_map = _allLanesFree()}});
   }
 }
 
@@ -491,9 +488,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
       }
 
       // Initialize free lanes bitmap
-      size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-      size_t uint64_count = (total_bits + 64 - 1) / 64;
-      blob.free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL);
+      blob.free_lanes_bits_map = _allLanesFree();
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
@@ -639,9 +634,6 @@ char* ZenFileSystem::access(vp_addr_t addr) {
 
 void ZenFileSystem::_createBlobOnDisk() {
   // Calculate blob size.
-  size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + sizeof(uint64_t) - 1) / sizeof(uint64_t);
-
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
   // K and V shared one blob.
@@ -668,14 +660,11 @@ void ZenFileSystem::_createBlobOnDisk() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = _allLanesFree()}});
 }
 
 void ZenFileSystem::_createBlobOnAnonymousFile() {
   // Calculate blob size.
-  size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + 64 - 1) / 64;
-
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
   // K and V shared one blob.
@@ -701,7 +690,15 @@ void ZenFileSystem::_createBlobOnAnonymousFile() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = _allLanesFree()}});
+}
+
+std::vector<uint64_t> ZenFileSystem::_allLanesFree() const {
+  size_t total_bits = 1ULL << (options_.page_bits + options_.lane_bits);
+  std::vector<uint64_t> bits((total_bits + 64 - 1) / 64, ~0ULL);
+  // A blob may have fewer lanes than a word has bits
+  if (total_bits % 64) { bits.back() = (1ULL << (total_bits % 64)) - 1; }
+  return bits;
 }
 
 void ZenFileSystem::_findFreeAddrInBlob(vp_blob_addr_t blob_addr, vp_addr_t* ret_addr) {
diff --git a/mllm/engine/prefix_cache/ZenFS.hpp b/mllm/engine/prefix_cache/ZenFS.hpp
index 9a9222e..e8e7fcc 100644
--- a/mllm/engine/prefix_cache/ZenFS.hpp
+++ b/mllm/engine/prefix_cache/ZenFS.hpp
@@ -154,6 +154,8 @@ class ZenFileSystem {
 
   void _createBlobOnAnonymousFile();
 
+  [[nodiscard]] std::vector<uint64_t> _allLanesFree() const;
+
   void _findFreeAddrInBlob(vp_blob_addr_t blob_addr, vp_addr_t* ret_addr);
 
   nlohmann::json index_;
-- 
2.43.0


From 281246d74f8bad01fdcd933a1d4a1337de40f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 052/210] fix: create and reopen file-backed KV blobs at their
 own path

mkstemp was given a path without the XXXXXX it needs, so no file-backed blob
could ever be made, and the file was unlinked although finalize records its
path and recover maps it again.
---
 mllm/engine/prefix_cache/ZenFS.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 87c10a0..b3e734b 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -51,14 +51,12 @@ bool ZenFSBlobMMAPFile::initAnonymous(size_t size, std::error_code& ec) {
 
 bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec) {
   size_ = size;
-  std::vector<char> tmp(fpath.begin(), fpath.end());
-  tmp.push_back('\0');
-  fd_ = ::mkstemp(tmp.data());
+  // The file stays at fpath: it is recorded in index.json and opened again by recover().
+  fd_ = ::open(fpath.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
   if (fd_ < 0) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
-  ::unlink(tmp.data());  // File is deleted when fd_ is closed
   if (::ftruncate(fd_, static_cast<off_t>(size)) != 0) {
     ec = std::error_code(errno, std::system_category());
     ::close(fd_);
-- 
2.43.0


From 1351de1998826a3a7f5e91841a2522fa5de7e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 053/210] fix: keep the lanes of a recovered ZenFS that were in
 use

recover() restored the tokens' data but took every lane for free, so the next
malloc handed one of them out again.
---
 mllm/engine/prefix_cache/ZenFS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index b3e734b..e45060d 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -342,6 +342,7 @@ void ZenFileSystem::finalize() {
       blob_info["type"] = static_cast<int>(blob.type);
       blob_info["data_shape"] = blob.data.shape();
       blob_info["data_dtype"] = blob.data.dtype();
+      blob_info["free_lanes"] = blob.free_lanes_bits_map;
 
       // Record if blob has mmap file
       if (blob.mmap_file.has_value()) {
@@ -487,6 +488,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
 
       // Initialize free lanes bitmap
       blob.free_lanes_bits_map = _allLanesFree();
+      if (blob_info.contains("free_lanes")) { blob_info["free_lanes"].get_to(blob.free_lanes_bits_map); }
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
-- 
2.43.0


From 0393790e9be63a954a0d0f4f383425936926506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 054/210] fix: keep a token's KV data when it is purged from
 memory

The purge and prefetch hints worked on the wrong offset (pages counted as one
token each), and purging anonymous memory zeroed it.
---
 mllm/engine/prefix_cache/ZenFS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index e45060d..9859341 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -138,6 +138,9 @@ void ZenFSBlobMMAPFile::prefetch(size_t offset, size_t len) const {
 
 void ZenFSBlobMMAPFile::purge(size_t offset, size_t len) {
   if (offset + len > size_) return;
+#if !defined(_WIN32)
+  if (fd_ < 0) return;  // Anonymous memory has no file its contents could come back from
+#endif
   uint8_t* start = addr_ + offset;
 #if defined(_WIN32)
   ::FlushViewOfFile(start, len);
@@ -526,7 +529,7 @@ void ZenFileSystem::hintsPrefetch(vp_addr_t token_lane_addr) const {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = ((size_t)page_addr << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
@@ -547,7 +550,7 @@ void ZenFileSystem::hintsPurge(vp_addr_t token_lane_addr) {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = ((size_t)page_addr << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
-- 
2.43.0


From 94e77a76f8e0cf63a93d4ece26c94201e7242a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 055/210] fix: keep the index of a recovered ZenFS for its next
 finalize

A store that had been recovered wrote an index without its geometry, so that
recovering it a second time used the default one.
---
 mllm/engine/prefix_cache/ZenFS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 9859341..77a01a7 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -414,7 +414,8 @@ void ZenFileSystem::recover(const std::string& working_dir) {
     MLLM_ERROR_EXIT(ExitCode::kCoreError, "{}", "Failed to parse index.json: " + std::string(e.what()));
   }
 
-  // 4. Recover options from index
+  // 4. Recover options from index, which is also what the next finalize() writes back
+  index_ = index;
   options_.working_dir = working_dir;
   options_.blob_bits_size = index.value("blob_bits_size", 20);
   options_.lane_bits = index.value("lane_bits_size", 5);
-- 
2.43.0


From d5f89cd63b2b34458c7b5a1c2ea4001d114bd79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 056/210] fix: guard the buddy pool's segments and block table
 against concurrent use

A new segment was added outside the lock and the table of live blocks had
none, so tensors made on several threads at once could corrupt both.
---
 mllm/engine/BuddyMemPool.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index e7b5141..7228116 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -62,6 +62,7 @@ void BuddyMemPool::alloc(Storage* s) {
   s->ptr_ = omb->ptr;
 
   // Reg to memory pool
+  std::lock_guard<std::mutex> lock(mutex_);
   st_.reg(s->custom_32bit_uuid_, omb);
 }
 
@@ -72,13 +73,18 @@ void BuddyMemPool::free(Storage* s) {
 
   if (s->ptr_ == nullptr) { return; }
 
+  BuddyMemBlock* omb = nullptr;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    omb = st_[s->custom_32bit_uuid_];
+    st_.remove(s->custom_32bit_uuid_);
+  }
+
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(st_[s->custom_32bit_uuid_]);
+    freeObjCache(omb);
   } else {
-    freeBuddy(st_[s->custom_32bit_uuid_]);
+    freeBuddy(omb);
   }
-
-  st_.remove(s->custom_32bit_uuid_);
 }
 
 void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
@@ -108,9 +114,9 @@ void BuddyMemPool::report() const {
 }
 
 BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
-  // lock_guard should in this scope.
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
+  // Held while a new segment is added, too.
+  std::lock_guard<std::mutex> lock(mutex_);
+  do {
     auto& cur_segs = context_.segments;
     auto& cur_seg_blocks = context_.segment_blocks;
 
@@ -172,9 +178,8 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
         return block;
       }
     }
-  }
-  // lock_guard freed, so that we can call allocBuddy again if not found, alloc a new seg.
-  if (expandBuddySegment()) { return allocBuddy(omb_size); }
+    // If not found, alloc a new seg and search again.
+  } while (expandBuddySegment());
 
   MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc a new segment for buddy memory pool.");
 
-- 
2.43.0


From 26fdaea01589d7ea8685d3f4dc2c38d3e93fe532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 057/210] fix: let the object cache of the buddy pool be hit
 and emptied

Blocks were cached under their rounded size but looked up under the requested
one, so a cached size that is no power of two only ever lost memory; and a size
that left the cached set kept its blocks for good.
---
 mllm/engine/BuddyMemPool.cpp | 27 ++++++++++++++++-----------
 mllm/engine/BuddyMemPool.hpp |  2 +-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 7228116..934bf17 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -81,7 +81,7 @@ void BuddyMemPool::free(Storage* s) {
   }
 
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(omb);
+    freeObjCache(omb, try_to_alloc_size);
   } else {
     freeBuddy(omb);
   }
@@ -90,16 +90,21 @@ void BuddyMemPool::free(Storage* s) {
 void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
 
 void BuddyMemPool::updateCacheSizeList(const std::unordered_set<size_t>& cache_size_set) {
-  auto& object_cache = free_object_cache_st_;
-  for (auto size : cache_size_set) {
-    if (!isInObjCache(size)) {
-      auto& free_list = object_cache[size];
-      for (auto it : free_list) { freeBuddy(it); }
-      object_cache.erase(object_cache.find(size));
+  // Blocks of a size that is no longer cached go back to the buddy pool.
+  std::list<BuddyMemBlock*> uncached;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    for (auto it = free_object_cache_st_.begin(); it != free_object_cache_st_.end();) {
+      if (cache_size_set.count(it->first)) {
+        ++it;
+      } else {
+        uncached.splice(uncached.end(), it->second);
+        it = free_object_cache_st_.erase(it);
+      }
     }
+    options_.cache_size_set = cache_size_set;
   }
-
-  options_.cache_size_set = cache_size_set;
+  for (auto block : uncached) { freeBuddy(block); }
 }
 
 void BuddyMemPool::report() const {
@@ -292,10 +297,10 @@ BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
   return ret;
 }
 
-void BuddyMemPool::freeObjCache(BuddyMemBlock* omb) {
+void BuddyMemPool::freeObjCache(BuddyMemBlock* omb, size_t omb_size) {
   std::lock_guard<std::mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
-  object_cache[omb->size].push_back(omb);
+  object_cache[omb_size].push_back(omb);  // Under the size it is looked up with, not the block's
   obj_cached_times_++;
 }
 
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index 3b15f98..e36e7e3 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -91,7 +91,7 @@ class BuddyMemPool {
 
   BuddyMemBlock* allocObjCache(size_t omb_size);
 
-  void freeObjCache(BuddyMemBlock* omb);
+  void freeObjCache(BuddyMemBlock* omb, size_t omb_size);
 
   bool isInObjCache(size_t omb_size);
 
-- 
2.43.0


From 8d42a2fb804ab077c234388db5c20f76e225a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 058/210] fix: count the last, partial step of a parallel loop

The number of tiles was rounded down, so a range that is no multiple of its
step lost its last tile and overran the index vector.
---
 mllm/engine/HpcThreadPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 9d552d2..d1d1608 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -6,7 +6,7 @@
 namespace mllm {
 
 void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   // There is no need to fall in back to thread pool
   if (tiles_num <= 1 || task_slot_idx < 0) {
@@ -81,7 +81,7 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   int _cnt = 0;
   std::vector<int> true_idx(tiles_num);
-- 
2.43.0


From 052133ef8f3641810f51d6a7d1475797d8c51454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 059/210] fix: finish parallel loops that run nested,
 concurrently or while the pool idles

Two threads pushing to the backend's one task slot overwrote each other's
task, a pool made idle during a loop left it waiting for ever, a pool of no
threads looped for ever, and an active pool could not be destroyed.
---
 mllm/engine/HpcThreadPool.cpp | 24 +++++++++++++++++++++---
 mllm/engine/HpcThreadPool.hpp |  3 +++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index d1d1608..f83d7dc 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -36,6 +36,7 @@ void HpcThreadPool::deactivate() {
 
 void HpcThreadPool::idle() {
   std::lock_guard<std::mutex> _l(queue_mutex_);
+  if (available_task_slots_ == 0) { return; }  // Idle already: keep what wakeup() restores
   available_task_slots_old_ = available_task_slots_.load();
   available_task_slots_.store(0);
 }
@@ -76,8 +77,24 @@ void HpcThreadPool::showCpuTopology() {
 void HpcThreadPool::__threadPoolDestroy() { available_task_slots_ = 0; }
 
 void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
+  // A slot holds one task: while another thread (or a task that runs on this one) uses it, compute here.
+  struct Busy {
+    std::atomic_bool& slot;
+    std::atomic_int& running;
+    bool mine;
+    Busy(std::atomic_bool& s, std::atomic_int& r) : slot(s), running(r), mine(!s.exchange(true)) {
+      if (mine) { ++running; }
+    }
+    ~Busy() {
+      if (mine) {
+        --running;
+        slot = false;
+      }
+    }
+  } busy(slot_busy_[task_slot_idx], running_tasks_);
+
   // There are no task slots, use this main thread to compute!
-  if (available_task_slots_ == 0) {
+  if (!busy.mine || available_task_slots_ == 0 || thread_cnt_ < 2) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
@@ -153,7 +170,8 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
     int thread_idx = i;
     workers_.emplace_back([this, thread_idx]() {
       while (!stop_) {
-        while (available_task_slots_ > 0) {
+        // A task that was begun is finished even when the pool was made idle meanwhile.
+        while (!stop_ && (available_task_slots_ > 0 || running_tasks_ > 0)) {
           for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) {
             if (*tasks_[i].second[thread_idx]) {
               tasks_[i].first.func(thread_idx);
@@ -163,7 +181,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
           std::this_thread::yield();
         }
         std::unique_lock<std::mutex> _l(queue_mutex_);
-        condition_.wait(_l, [this] { return stop_ || available_task_slots_ > 0; });
+        condition_.wait(_l, [this] { return stop_ || available_task_slots_ > 0 || running_tasks_ > 0; });
       }
     });
   }
diff --git a/mllm/engine/HpcThreadPool.hpp b/mllm/engine/HpcThreadPool.hpp
index db0f1c9..2824cfb 100644
--- a/mllm/engine/HpcThreadPool.hpp
+++ b/mllm/engine/HpcThreadPool.hpp
@@ -67,6 +67,9 @@ class HpcThreadPool {
   std::vector<bool> task_available_;
   std::vector<std::pair<HpcThreadPoolTask, std::vector<std::atomic_bool*>>> tasks_;
 
+  std::atomic_bool slot_busy_[MLLM_HPC_THREAD_POOL_TASK_LIMITS] = {};
+  std::atomic_int running_tasks_ = 0;
+
   std::atomic<bool> stop_ = false;
   std::mutex queue_mutex_;
   std::condition_variable condition_;
-- 
2.43.0


From 13195af88392cf1fc4b6c8c914d9ae145a3270c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 060/210] fix: wake the caller a response is for

With several callers waiting, notify_one could wake one that waits for another
request, and the response was never picked up.
---
 mllm/engine/service/Service.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 5400bcd..5044052 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -47,7 +47,7 @@ void ResponsePool::push(const std::string& req_id, ResponseItem item) {
   std::unique_lock lk(mtx_);
   auto& q = queues_[req_id];
   q.push(std::move(item));
-  cv_.notify_one();
+  cv_.notify_all();  // Waiters wait for different requests: the one woken must be the one it is for
 }
 
 std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
-- 
2.43.0


From 565cfbe0aa9627b5888388f118a18fed72a8f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 061/210] fix: lock the session pool

Sessions may be inserted while workers look theirs up; the pool's mutex was
never taken.
---
 mllm/engine/service/Service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 5044052..9bb141f 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -75,11 +75,13 @@ void ResponsePool::shutdown() {
 // SessionPool
 //===----------------------------------------------------------------------===//
 std::shared_ptr<Session> SessionPool::get(const std::string& session_id) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) { return sessions_[session_id]; }
   return nullptr;
 }
 
 void SessionPool::registerSession(const std::string& session_id, const std::shared_ptr<Session>& session) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) {
     // TODO
     return;
-- 
2.43.0


From 01c15e4753de9d0e229908c53d818c9ab29d251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 062/210] fix: hand out the responses that are left when the
 service has stopped

pop() returned nothing once stopped, even for requests whose answer was
complete and waiting.
---
 mllm/engine/service/Service.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 9bb141f..32851ab 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -56,9 +56,10 @@ std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
     auto it = queues_.find(req_id);
     return (it != queues_.end() && !it->second.empty()) || stop_;
   });
-  if (stop_) return std::nullopt;
+  auto it = queues_.find(req_id);
+  if (it == queues_.end()) return std::nullopt;  // Stopped, and nothing left for it
 
-  auto& q = queues_[req_id];
+  auto& q = it->second;
   auto v = std::move(q.front());
   q.pop();
   if (q.empty()) queues_.erase(req_id);
-- 
2.43.0


From b9075e664d6f04786496ac9b8ff3e371594ba26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 063/210] fix: end every request to the service with a last
 response

A request for a model that is not loaded ended the process, one without a
model read a missing key, and one whose session threw was never answered.
---
 mllm/engine/service/Service.cpp | 52 ++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 32851ab..2780982 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -121,27 +121,39 @@ void Service::workerLoop() {
     try {
       if (auto req_opt = req_pool_.pop(); req_opt) {
         RequestItem& req = *req_opt;
-        auto session = sess_pool_.get(req.payload.value("model", "<none>"));
-
-        session->streamGenerate(
-            req.payload, [this, req_payload = req.payload, req_id = req.id](const std::string& token, bool finished) {
-              ResponseItem item;
-              item.id = req_id;
-              item.finished = finished;
-              item.raw = token;
-
-              std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
-
-              // Make payload
-              item.payload = {
-                  {"model", req_payload["model"]},
-                  {"created", now},
-                  {"choices", nlohmann::json::array({{{"index", 0},
-                                                      {"delta", {{"content", token}}},
-                                                      {"finish_reason", finished ? "stop" : nlohmann::json(nullptr)}}})}};
-
-              resp_pool_.push(req_id, std::move(item));
+
+        auto respond = [this, &req](const std::string& token, const nlohmann::json& finish_reason) {
+          ResponseItem item;
+          item.id = req.id;
+          item.finished = !finish_reason.is_null();
+          item.raw = token;
+
+          std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
+
+          // Make payload
+          item.payload = {
+              {"model", req.payload.contains("model") ? req.payload["model"] : nlohmann::json("<none>")},
+              {"created", now},
+              {"choices", nlohmann::json::array({{{"index", 0}, {"delta", {{"content", token}}}, {"finish_reason", finish_reason}}})}};
+
+          resp_pool_.push(req.id, std::move(item));
+        };
+
+        // Whoever waits for this request gets a last response, whatever becomes of it.
+        bool finished = false;
+        try {
+          auto session = sess_pool_.get(req.payload.value("model", "<none>"));
+          if (session) {
+            session->streamGenerate(req.payload, [&](const std::string& token, bool is_last) {
+              respond(token, is_last ? nlohmann::json("stop") : nlohmann::json(nullptr));
+              finished = finished || is_last;
             });
+          }
+        } catch (...) {
+          if (!finished) { respond("", "error"); }
+          finished = true;
+        }
+        if (!finished) { respond("", "error"); }
       } else {
         // pop return empty, which means service is stopped and queue is empty.
         break;
-- 
2.43.0


From 641f9b4e1989c8405277eccf4c6a8c5173929fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 064/210] fix: keep responses whose token is no complete UTF-8
 text

dump() threw on them, and the caller was told of an error and the end of the
stream instead.
---
 mllm/engine/service/Service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 2780982..b4d003e 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -207,7 +207,8 @@ Response getResponse(const std::string& id) {
     j["id"] = opt->id;
     j["object"] = "chat.completion.chunk";
     j["finished"] = opt->finished;
-    std::string s = j.dump();
+    // A token may end within a character
+    std::string s = j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     return s;
   } catch (...) {
     // TODO
-- 
2.43.0


From 4b99ec88a9c67dd256cb516ef9e8300e159c39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 065/210] fix: refuse a storage no segment of the buddy pool
 can hold

---
 mllm/engine/BuddyMemPool.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 934bf17..2df5df2 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -121,6 +121,16 @@ void BuddyMemPool::report() const {
 BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
   // Held while a new segment is added, too.
   std::lock_guard<std::mutex> lock(mutex_);
+
+  // No segment is made larger than that: adding more of them would not help.
+  auto max_segment_cap = std::max(options_.buddy_first_segment_cap, (size_t)(1ULL << 29ULL));
+  if (omb_size > max_segment_cap) {
+    MLLM_ERROR_EXIT(ExitCode::kMemory,
+                    "The tensor size {} you want to alloc is too large. Buddy memory pool support max "
+                    "tensor size is {}. You should change the `buddy_first_segment_cap` in MemManagerCargo.",
+                    omb_size, max_segment_cap);
+  }
+
   do {
     auto& cur_segs = context_.segments;
     auto& cur_seg_blocks = context_.segment_blocks;
@@ -242,7 +252,8 @@ bool BuddyMemPool::expandBuddySegment() {
   for (auto& seg : cur_segs) { previous_seg_cap = std::max(previous_seg_cap, (size_t)(1ULL << seg.second->max_order)); }
 
   size_t min_order = options_.buddy_min_order;
-  size_t new_cap = std::min(previous_seg_cap * 2, (size_t)(1ULL << 29ULL));  // max is 512MB
+  // max is 512MB, or the size of the first segment
+  size_t new_cap = std::min(previous_seg_cap * 2, std::max(options_.buddy_first_segment_cap, (size_t)(1ULL << 29ULL)));
   size_t max_order = _log2_ceil(new_cap);
 
   void* _p = nullptr;
-- 
2.43.0


From d191d9ecf44dafad7a5ce4abac891f077f14cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 066/210] fix: finish parallel loops that a worker of the pool
 begins

---
 mllm/engine/HpcThreadPool.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index f83d7dc..52c0238 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -5,6 +5,11 @@
 
 namespace mllm {
 
+namespace MLLM_ANONYMOUS_NAMESPACE {
+// The pool this thread is a worker of.
+thread_local const HpcThreadPool* _worker_of = nullptr;
+}  // namespace MLLM_ANONYMOUS_NAMESPACE
+
 void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
   int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
@@ -36,7 +41,7 @@ void HpcThreadPool::deactivate() {
 
 void HpcThreadPool::idle() {
   std::lock_guard<std::mutex> _l(queue_mutex_);
-  if (available_task_slots_ == 0) { return; }  // Idle already: keep what wakeup() restores
+  if (available_task_slots_ <= 0) { return; }  // Idle already: keep what wakeup() restores
   available_task_slots_old_ = available_task_slots_.load();
   available_task_slots_.store(0);
 }
@@ -93,8 +98,8 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
     }
   } busy(slot_busy_[task_slot_idx], running_tasks_);
 
-  // There are no task slots, use this main thread to compute!
-  if (!busy.mine || available_task_slots_ == 0 || thread_cnt_ < 2) {
+  // There are no task slots, use this main thread to compute! A worker does so, too: it would wait for its own share.
+  if (!busy.mine || available_task_slots_ <= 0 || thread_cnt_ < 2 || _worker_of == this) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
@@ -169,6 +174,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
   for (int i = 1; i < thread_cnt_; ++i) {
     int thread_idx = i;
     workers_.emplace_back([this, thread_idx]() {
+      _worker_of = this;
       while (!stop_) {
         // A task that was begun is finished even when the pool was made idle meanwhile.
         while (!stop_ && (available_task_slots_ > 0 || running_tasks_ > 0)) {
-- 
2.43.0


From 4e3c4eee35ad541deab08ee50fe9695744f5301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 067/210] fix: save parameters under any name and of any view
 whole

---
 mllm/core/ParameterFile.cpp | 45 ++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 072adfa..7f9c681 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -15,6 +15,15 @@
 
 namespace mllm {
 
+namespace MLLM_ANONYMOUS_NAMESPACE {
+
+// What a parameter is written from: contiguous, and only the part of the storage the tensor covers.
+Tensor _contiguous(const Tensor& tensor) { return tensor.isContiguous() ? tensor : Tensor(tensor).contiguous(); }
+
+size_t _bytes(const Tensor& tensor) { return tensor.numel() / lanesOfType(tensor.dtype()) * bytesOfType(tensor.dtype()); }
+
+}  // namespace MLLM_ANONYMOUS_NAMESPACE
+
 ParameterFile::ParameterFile(ModelFileVersion v) : version_(v) {}
 
 ParameterFile::ptr_t ParameterFile::create(ModelFileVersion v) { return std::make_shared<ParameterFile>(v); }
@@ -213,12 +222,11 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Calculate total size of the descriptor section
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    param_desc_total_size += sizeof(uint32_t);                        // name length
-    param_desc_total_size += tensor.impl()->storage()->name_.size();  // name string
-    param_desc_total_size += sizeof(uint64_t);                        // data length
-    param_desc_total_size += sizeof(uint64_t);                        // offset
-    param_desc_total_size += sizeof(int32_t);                         // data type
+    param_desc_total_size += sizeof(uint32_t);    // name length
+    param_desc_total_size += pair.first.size();   // name string
+    param_desc_total_size += sizeof(uint64_t);    // data length
+    param_desc_total_size += sizeof(uint64_t);    // offset
+    param_desc_total_size += sizeof(int32_t);     // data type
   }
 
   // Write header: parameter_desc_offset is now the SIZE of the descriptor section
@@ -241,7 +249,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
     out_file.write(name.c_str(), name_len);
 
     // Data length (bytes)
-    uint64_t data_len = tensor.bytes();
+    uint64_t data_len = _bytes(tensor);
     out_file.write(reinterpret_cast<const char*>(&data_len), sizeof(data_len));
 
     // Offset (absolute from file start)
@@ -255,8 +263,8 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Write tensor data
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    size_t data_size = tensor.bytes();
+    auto tensor = _contiguous(pair.second);
+    size_t data_size = _bytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
@@ -396,20 +404,26 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
 
   // First pass: write parameter descriptors
   std::vector<std::pair<std::string, Tensor>> tensors;
-  for (const auto& pair : *parameter_file) { tensors.emplace_back(pair.first, pair.second); }
+  for (const auto& pair : *parameter_file) {
+    if (pair.first.size() > MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "Parameter name is too long to be saved: {}", pair.first);
+    }
+    tensors.emplace_back(pair.first, _contiguous(pair.second));
+  }
 
   // Write parameter descriptors
+  uint32_t parameter_id = 0;
   for (const auto& [name, tensor] : tensors) {
     ModelFileV2ParamsDescriptor param_desc{};
 
     // Set parameter id (using index in the list)
-    param_desc.parameter_id = &tensor - &tensors[0].second;  // This is a simple way to get index
+    param_desc.parameter_id = parameter_id++;
 
     // Set parameter type
     param_desc.parameter_type = static_cast<uint32_t>(tensor.dtype());
 
     // Set parameter size
-    param_desc.parameter_size = tensor.bytes();
+    param_desc.parameter_size = _bytes(tensor);
 
     // Set parameter offset
     param_desc.parameter_offset = current_data_offset;
@@ -420,19 +434,18 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     for (size_t i = 0; i < shape.size() && i < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; i++) { param_desc.shape[i] = shape[i]; }
 
     // Set name
-    strncpy(param_desc.name, name.c_str(), MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH - 1);
-    param_desc.name[MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH - 1] = '\0';
+    std::memcpy(param_desc.name, name.data(), name.size());
 
     // Write parameter descriptor
     out_file.write(reinterpret_cast<const char*>(&param_desc), sizeof(param_desc));
 
     // Update current data offset
-    current_data_offset += tensor.bytes();
+    current_data_offset += _bytes(tensor);
   }
 
   // Second pass: write tensor data
   for (const auto& [name, tensor] : tensors) {
-    size_t data_size = tensor.bytes();
+    size_t data_size = _bytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
-- 
2.43.0


From fa38ee1e85bf3f08011d37cdd317d82cebdb18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 068/210] fix: refuse parameter files whose contents do not fit
 the file

---
 mllm/core/ParameterFile.cpp | 175 ++++++++++++++++++------------------
 1 file changed, 86 insertions(+), 89 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 7f9c681..4781a6a 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -17,6 +17,65 @@ namespace mllm {
 
 namespace MLLM_ANONYMOUS_NAMESPACE {
 
+// [offset, offset + len) must lie in the file. Model files may be truncated or damaged.
+void _assertInFile(uint64_t offset, uint64_t len, uint64_t file_size) {
+  MLLM_RT_ASSERT(offset <= file_size && len <= file_size - offset);
+}
+
+uint64_t _fileSize(std::ifstream& file) {
+  file.seekg(0, std::ios::end);
+  auto size = static_cast<uint64_t>(file.tellg());
+  file.seekg(0, std::ios::beg);
+  return size;
+}
+
+template<typename T>
+T _readField(const char*& pos, const char* end) {
+  MLLM_RT_ASSERT(static_cast<size_t>(end - pos) >= sizeof(T));
+  T ret;
+  std::memcpy(&ret, pos, sizeof(T));
+  pos += sizeof(T);
+  return ret;
+}
+
+std::vector<ModelFileV1ParamsDescriptorHelper> _readV1Descriptors(const char* pos, const char* end, uint64_t file_size) {
+  std::vector<ModelFileV1ParamsDescriptorHelper> ret;
+  while (pos < end) {
+    ModelFileV1ParamsDescriptorHelper helper;
+    auto name_len = _readField<uint32_t>(pos, end);
+    MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= name_len && static_cast<size_t>(end - pos) >= name_len);
+    helper.descriptor_.name_len = name_len;
+    helper.name_ = std::string(pos, name_len);
+    pos += name_len;
+    helper.descriptor_.data_len = _readField<uint64_t>(pos, end);
+    helper.descriptor_.offset = _readField<uint64_t>(pos, end);
+    helper.descriptor_.dtype = _readField<int32_t>(pos, end);
+    _assertInFile(helper.descriptor_.offset, helper.descriptor_.data_len, file_size);
+    MLLM_RT_ASSERT(helper.descriptor_.data_len % bytesOfType(static_cast<DataTypes>(helper.descriptor_.dtype)) == 0);
+    ret.emplace_back(helper);
+  }
+  return ret;
+}
+
+// The bytes of a parameter must lie in the file and its shape must account for them.
+void _assertV2Descriptor(const ModelFileV2ParamsDescriptor& desc, uint64_t file_size) {
+  MLLM_RT_ASSERT(desc.shape_len <= MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH);
+  _assertInFile(desc.parameter_offset, desc.parameter_size, file_size);
+  auto dtype = static_cast<DataTypes>(desc.parameter_type);
+  bool empty = false;
+  for (size_t i = 0; i < desc.shape_len; i++) {
+    MLLM_RT_ASSERT(desc.shape[i] >= 0);
+    empty = empty || desc.shape[i] == 0;
+  }
+  uint64_t limit = desc.parameter_size / bytesOfType(dtype) * lanesOfType(dtype);
+  uint64_t numel = empty ? 0 : 1;
+  for (size_t i = 0; i < desc.shape_len && !empty; i++) {
+    numel *= desc.shape[i];
+    MLLM_RT_ASSERT(numel <= limit);
+  }
+  MLLM_RT_ASSERT(numel <= limit);
+}
+
 // What a parameter is written from: contiguous, and only the part of the storage the tensor covers.
 Tensor _contiguous(const Tensor& tensor) { return tensor.isContiguous() ? tensor : Tensor(tensor).contiguous(); }
 
@@ -85,55 +144,23 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     p_file->setMappedFile(mmap_file);
 
     // Process Header
-    uint64_t parameter_desc_offset = -1;
-    {
-      auto* header = static_cast<ModelFileV1Descriptor*>(mmap_file->data());
-      MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header->magic_number);
-      parameter_desc_offset = header->parameter_desc_offset;
-    }
-    char* current_pos = static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor);
-    char* end_pos = current_pos + parameter_desc_offset;
-
-    // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
+    MLLM_RT_ASSERT(mmap_file->size() >= sizeof(ModelFileV1Descriptor));
+    auto* header = static_cast<ModelFileV1Descriptor*>(mmap_file->data());
+    MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header->magic_number);
+    _assertInFile(sizeof(ModelFileV1Descriptor), header->parameter_desc_offset, mmap_file->size());
 
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
-      helper.ptr_ = static_cast<char*>(mmap_file->data()) + helper.descriptor_.offset;
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
-    }
+    // Find each tensor
+    const char* desc_begin = static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor);
+    auto tensor_meta_info = _readV1Descriptors(desc_begin, desc_begin + header->parameter_desc_offset, mmap_file->size());
 
     for (auto& desc : tensor_meta_info) {
-      MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= desc.descriptor_.name_len);
-
       auto dtype = static_cast<DataTypes>(desc.descriptor_.dtype);
       TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
       auto s = TensorStorage::create(shape, dtype, kCPU);
       auto t = TensorViewImpl::create(shape, s);
 
       s->name_ = desc.name_;
-      s->ptr_ = desc.ptr_;
+      s->ptr_ = static_cast<char*>(mmap_file->data()) + desc.descriptor_.offset;
       s->mem_type_ = kParamsMMAP;
 
       p_file->push(desc.name_, Tensor(t));
@@ -145,52 +172,20 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to open file for reading: {}", file_path); }
 
     // Process Header
+    auto file_size = _fileSize(file);
+    MLLM_RT_ASSERT(file_size >= sizeof(ModelFileV1Descriptor));
     ModelFileV1Descriptor header{};
     file.read(reinterpret_cast<char*>(&header), sizeof(header));
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header.magic_number);
+    _assertInFile(sizeof(header), header.parameter_desc_offset, file_size);
 
-    uint64_t parameter_desc_offset = header.parameter_desc_offset;
-    char* buffer = new char[parameter_desc_offset];
-    file.read(buffer, parameter_desc_offset);
-
-    char* current_pos = buffer;
-    char* end_pos = current_pos + parameter_desc_offset;
-
-    // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
-    }
-
-    delete[] buffer;
+    // Find each tensor
+    std::vector<char> buffer(header.parameter_desc_offset);
+    file.read(buffer.data(), buffer.size());
+    auto tensor_meta_info = _readV1Descriptors(buffer.data(), buffer.data() + buffer.size(), file_size);
 
     // Read tensor data
     for (auto& desc : tensor_meta_info) {
-      MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= desc.descriptor_.name_len);
-
       auto dtype = static_cast<DataTypes>(desc.descriptor_.dtype);
       TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
 
@@ -285,13 +280,13 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     p_file->setMappedFile(mmap_file);
 
     // Process Header
-    {
-      auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
-      MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header->magic_number);
-      MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_VERSION, header->version);
-    }
-
+    MLLM_RT_ASSERT(mmap_file->size() >= sizeof(ModelFileV2Descriptor));
     auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
+    MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header->magic_number);
+    MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_VERSION, header->version);
+    _assertInFile(header->params_desc_offset, (uint64_t)header->num_params * sizeof(ModelFileV2ParamsDescriptor),
+                  mmap_file->size());
+
     char* params_desc_begin = static_cast<char*>(mmap_file->data()) + header->params_desc_offset;
 
     if (header->params_desc_offset != sizeof(ModelFileV2Descriptor)) {
@@ -310,7 +305,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       std::string name(param_desc->_param_name_view());
 
       // Build shape
-      MLLM_RT_ASSERT(param_desc->shape_len <= MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH);
+      _assertV2Descriptor(*param_desc, mmap_file->size());
       TensorViewImpl::shape_t shape;
       for (size_t j = 0; j < param_desc->shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {
         shape.push_back(param_desc->shape[j]);
@@ -337,6 +332,8 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to open parameter file"); }
 
+    auto file_size = _fileSize(file);
+    MLLM_RT_ASSERT(file_size >= sizeof(ModelFileV2Descriptor));
     ModelFileV2Descriptor header;
     file.read(reinterpret_cast<char*>(&header), sizeof(ModelFileV2Descriptor));
 
@@ -350,6 +347,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
           file_path);
     }
 
+    _assertInFile(header.params_desc_offset, (uint64_t)header.num_params * sizeof(ModelFileV2ParamsDescriptor), file_size);
     std::vector<ModelFileV2ParamsDescriptor> param_descriptors(header.num_params);
     file.seekg(header.params_desc_offset);
     file.read(reinterpret_cast<char*>(param_descriptors.data()), header.num_params * sizeof(ModelFileV2ParamsDescriptor));
@@ -359,7 +357,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
       std::string name(param_desc._param_name_view());
 
-      MLLM_RT_ASSERT(param_desc.shape_len <= MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH);
+      _assertV2Descriptor(param_desc, file_size);
       TensorViewImpl::shape_t shape;
       for (size_t j = 0; j < param_desc.shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {
         shape.push_back(param_desc.shape[j]);
@@ -371,9 +369,8 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       s->name_ = name;
       auto tensor = Tensor(t).alloc();
       file.seekg(param_desc.parameter_offset);
-      file.read(static_cast<char*>(s->ptr_), param_desc.parameter_size);
+      file.read(static_cast<char*>(s->ptr_), tensor.bytes());
       s->mem_type_ = kParamsNormal;
-      MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
       p_file->push(name, tensor);
     }
 
-- 
2.43.0


From 361c896d7dc62599bd2d73800daac565375d0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 069/210] fix: mask the right keys under a sliding window and
 with a past

---
 mllm/backends/cpu/ops/CausalMaskOp.cpp | 46 ++++++++++++++------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/mllm/backends/cpu/ops/CausalMaskOp.cpp b/mllm/backends/cpu/ops/CausalMaskOp.cpp
index 56fc0b7..201d368 100644
--- a/mllm/backends/cpu/ops/CausalMaskOp.cpp
+++ b/mllm/backends/cpu/ops/CausalMaskOp.cpp
@@ -32,7 +32,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 
   switch (ins.dtype()) {
     case kFloat32: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // When sequence length is 1, no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<float>({b, h, 0, 0});
@@ -98,17 +98,19 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              // Row s is the query at position D - S + s.
+              const int pos = D - S + s;
+              const int copy_start_idx = std::max(0, pos - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = pos - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx, copy_count * sizeof(float));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = pos + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__)
               const __m256 mask_val = _mm256_set1_ps(-1e10f);
@@ -143,7 +145,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
       break;
     }
     case kFloat16: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // When sequence length is 1, no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<mllm_fp16_t>({b, h, 0, 0});
@@ -164,9 +166,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             const __m256 mask_ps = _mm256_set1_ps(-65500.f);
             const __m128i mask_val = _mm256_cvtps_ph(mask_ps, _MM_FROUND_TO_NEAREST_INT);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -182,9 +184,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
             const float16x8_t mask_val = vdupq_n_f16(-65500.f);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -197,9 +199,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             }
 #else
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -211,18 +213,20 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              // Row s is the query at position D - S + s.
+              const int pos = D - S + s;
+              const int copy_start_idx = std::max(0, pos - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = pos - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx,
                      copy_count * sizeof(mllm_fp16_t));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = pos + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__) && defined(__F16C__)
               const __m256 mask_ps = _mm256_set1_ps(-65500.f);
-- 
2.43.0


From af217b0df63564ed719a45fc24dfde3ce8133ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 070/210] fix: transpose the last two dimensions of tensors of
 any rank

---
 mllm/backends/cpu/ops/TransposeOp.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/mllm/backends/cpu/ops/TransposeOp.cpp b/mllm/backends/cpu/ops/TransposeOp.cpp
index d9817f8..ee595f7 100644
--- a/mllm/backends/cpu/ops/TransposeOp.cpp
+++ b/mllm/backends/cpu/ops/TransposeOp.cpp
@@ -91,19 +91,18 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   }
 
   // CASE 3. Exchange last 2 dims.
-  // FIXME: (dim0 + dim1 == 1) is error logic.
-  else if (input_shape.size() != 2 && (dim0 + dim1 == 1)) {
-    int batch = 0;
-    for (int i = 0; i < input_shape.size() - 2; i++) { batch *= input_shape[i]; }
+  else if (const int rank = input_shape.size(); rank > 2 && dim0 != dim1 && dim0 + dim1 == 2 * rank - 3) {
+    int batch = 1;
+    for (int i = 0; i < rank - 2; i++) { batch *= input_shape[i]; }
 
     switch (dtype) {
       case kFloat32: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[rank - 2],
+                                      input_shape[rank - 1]);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[rank - 2],
+                                      input_shape[rank - 1]);
 #endif
         break;
       }
@@ -111,18 +110,18 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
         NYI("Transpose op(BSHD -> BSDH) fp16 not supported in x86");
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, input_shape[rank - 2],
+                                      input_shape[rank - 1]);
 #endif
         break;
       }
       case kInt64: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[rank - 2],
+                                       input_shape[rank - 1]);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[rank - 2],
+                                       input_shape[rank - 1]);
 #endif
         break;
       }
-- 
2.43.0


From a1d195d89b0d002e39154e09a4ef262d8ec83f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 071/210] fix: scatter to shards along the first and the last
 dimension

---
 mllm/backends/cpu/ops/Scatter2ShardsOp.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
index cde9497..7bf2f29 100644
--- a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
+++ b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
@@ -26,8 +26,6 @@ void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector
   for (int i = options_.dim + 1; i < src.rank(); ++i) { floating_shards_point_right *= src.shape()[i]; }
   int32_t floating_shards_point_stride = 1;
   for (int i = options_.dim; i < src.rank(); ++i) { floating_shards_point_stride *= src.shape()[i]; }
-  if (options_.dim == src.rank() - 1) { floating_shards_point_stride = 1; }
-  if (options_.dim == 0) { floating_shards_point_left = src.stride()[0]; }
 
   int32_t loop_times = src.shape()[options_.dim];
   for (int lo = 0; lo < loop_times; ++lo) {
-- 
2.43.0


From fdadb6106072505631998d3c0e7383f510dc3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 072/210] fix: gather from tensors of every element type

---
 mllm/backends/cpu/ops/GatherOp.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/mllm/backends/cpu/ops/GatherOp.cpp b/mllm/backends/cpu/ops/GatherOp.cpp
index dd8d0a8..8cddbde 100644
--- a/mllm/backends/cpu/ops/GatherOp.cpp
+++ b/mllm/backends/cpu/ops/GatherOp.cpp
@@ -25,13 +25,8 @@ void CPUGatherOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>
   int64_t dim_size = table.shape()[dim];
   int64_t indices_count = indices.numel();
 
-  size_t data_type_size = 4;
-  switch (table.dtype()) {
-    case MLLM_TYPE_F32: data_type_size = sizeof(float); break;
-    case MLLM_TYPE_F16: data_type_size = sizeof(mllm_fp16_t); break;
-    case MLLM_TYPE_I32: data_type_size = sizeof(int32_t); break;
-    default: MLLM_ERROR("GatherOp table type not supported: {}", (int)table.dtype());
-  }
+  MLLM_RT_ASSERT_EQ(lanesOfType(table.dtype()), 1);
+  const size_t data_type_size = bytesOfType(table.dtype());
 
   const uint8_t* table_ptr = table.ptr<uint8_t>();
   uint8_t* output_ptr = output.ptr<uint8_t>();
-- 
2.43.0


From 59f67b7e294d0acf44e4c2d14f7c05f84d53907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 073/210] fix: take the elements a mask selects from the source
 in order

---
 mllm/backends/cpu/ops/MaskedScatterOp.cpp | 154 ++++------------------
 1 file changed, 27 insertions(+), 127 deletions(-)

diff --git a/mllm/backends/cpu/ops/MaskedScatterOp.cpp b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
index e41c568..567fcae 100644
--- a/mllm/backends/cpu/ops/MaskedScatterOp.cpp
+++ b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
@@ -6,7 +6,6 @@
 #include "mllm/core/OpTypes.hpp"
 #include <cstring>
 #include <vector>
-#include <numeric>
 
 namespace mllm::cpu {
 
@@ -74,146 +73,47 @@ void CPUMaskedScatterOp::forward(const std::vector<Tensor>& inputs, std::vector<
   auto& src = inputs[2];
 
   MLLM_RT_ASSERT_EQ(mask.dtype(), kInt8);
+  MLLM_RT_ASSERT(dst.isContiguous() && mask.isContiguous() && src.isContiguous());
 
   // dst and output should be the same tensor (in-place operation)
   // But we still need to ensure output has the correct shape
   auto& output = outputs[0];
 
-  // Get shapes
-  auto dst_shape = dst.shape();
-  auto mask_shape = mask.shape();
-  auto src_shape = src.shape();
-
-  // Calculate broadcast shape for all tensors
-  auto broadcast_shape = calculateBroadcastShape(dst_shape, mask_shape);
-  broadcast_shape = calculateBroadcastShape(broadcast_shape, src_shape);
-
-  // Calculate strides for broadcasting
-  auto dst_strides = calculateStrides(dst_shape);
-  auto mask_strides = calculateStrides(mask_shape);
-  auto src_strides = calculateStrides(src_shape);
-  auto broadcast_strides = calculateStrides(broadcast_shape);
-
-  // Calculate total elements
-  int32_t total_elements = std::accumulate(broadcast_shape.begin(), broadcast_shape.end(), 1, std::multiplies<>());
+  // The mask is broadcast to dst. Elements of src are taken in order, one for each element of dst that the mask selects.
+  const auto dst_shape = dst.shape();
+  const auto mask_shape = mask.shape();
+  MLLM_RT_ASSERT_EQ(calculateBroadcastShape(dst_shape, mask_shape), dst_shape);
+  const auto mask_strides = calculateStrides(mask_shape);
+  const size_t lead = dst_shape.size() - mask_shape.size();
 
   // Check data types
   MLLM_RT_ASSERT(dst.dtype() == src.dtype());
 
-  // Handle different data types
-  if (dst.dtype() == MLLM_TYPE_F32) {
-    float* dst_ptr = dst.ptr<float>();
-    float* src_ptr = src.ptr<float>();
-    uint8_t* mask_ptr = mask.ptr<uint8_t>();
-
-    for (int32_t i = 0; i < total_elements; ++i) {
-      // Convert linear index to multi-dimensional indices
-      auto indices = getMultiDimIndices(i, broadcast_shape);
-
-      // Calculate index for mask with broadcasting
-      int32_t mask_linear_index = 0;
-      if (mask_shape.size() == 1 && mask_shape[0] == 1) {
-        // Scalar mask
-        mask_linear_index = 0;
-      } else {
-        // Multi-dimensional mask
-        std::vector<int32_t> mask_indices(mask_shape.size());
-        int offset = broadcast_shape.size() - mask_shape.size();
-        for (size_t j = 0; j < mask_shape.size(); ++j) { mask_indices[j] = indices[j + offset] % mask_shape[j]; }
-        mask_linear_index = getLinearIndex(mask_indices, mask_strides);
-      }
-
-      // If mask is true, copy from src to dst
-      if (mask_ptr[mask_linear_index] != 0) {
-        // Calculate index for dst
-        int32_t dst_linear_index = 0;
-        if (dst_shape.size() == 1 && dst_shape[0] == 1) {
-          // Scalar dst
-          dst_linear_index = 0;
-        } else {
-          // Multi-dimensional dst
-          std::vector<int32_t> dst_indices(dst_shape.size());
-          int offset = broadcast_shape.size() - dst_shape.size();
-          for (size_t j = 0; j < dst_shape.size(); ++j) { dst_indices[j] = indices[j + offset] % dst_shape[j]; }
-          dst_linear_index = getLinearIndex(dst_indices, dst_strides);
-        }
-
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
-      }
+  auto scatter = [&](auto* dst_ptr, const auto* src_ptr) {
+    const uint8_t* mask_ptr = mask.ptr<uint8_t>();
+    const size_t dst_numel = dst.numel();
+    const size_t src_numel = src.numel();
+    size_t taken = 0;
+    std::vector<int32_t> mask_indices(mask_shape.size());
+    for (size_t i = 0; i < dst_numel; ++i) {
+      const auto indices = getMultiDimIndices(static_cast<int32_t>(i), dst_shape);
+      for (size_t j = 0; j < mask_shape.size(); ++j) { mask_indices[j] = mask_shape[j] == 1 ? 0 : indices[j + lead]; }
+      if (mask_ptr[getLinearIndex(mask_indices, mask_strides)] == 0) { continue; }
+      MLLM_RT_ASSERT(taken < src_numel);
+      dst_ptr[i] = src_ptr[taken++];
     }
-  } else if (dst.dtype() == MLLM_TYPE_F16) {
-    mllm_fp16_t* dst_ptr = dst.ptr<mllm_fp16_t>();
-    mllm_fp16_t* src_ptr = src.ptr<mllm_fp16_t>();
-    uint8_t* mask_ptr = mask.ptr<uint8_t>();
-
-    for (int32_t i = 0; i < total_elements; ++i) {
-      // Convert linear index to multi-dimensional indices
-      auto indices = getMultiDimIndices(i, broadcast_shape);
-
-      // Calculate index for mask with broadcasting
-      int32_t mask_linear_index = 0;
-      if (mask_shape.size() == 1 && mask_shape[0] == 1) {
-        // Scalar mask
-        mask_linear_index = 0;
-      } else {
-        // Multi-dimensional mask
-        std::vector<int32_t> mask_indices(mask_shape.size());
-        int offset = broadcast_shape.size() - mask_shape.size();
-        for (size_t j = 0; j < mask_shape.size(); ++j) { mask_indices[j] = indices[j + offset] % mask_shape[j]; }
-        mask_linear_index = getLinearIndex(mask_indices, mask_strides);
-      }
-
-      // If mask is true, copy from src to dst
-      if (mask_ptr[mask_linear_index] != 0) {
-        // Calculate index for dst
-        int32_t dst_linear_index = 0;
-        if (dst_shape.size() == 1 && dst_shape[0] == 1) {
-          // Scalar dst
-          dst_linear_index = 0;
-        } else {
-          // Multi-dimensional dst
-          std::vector<int32_t> dst_indices(dst_shape.size());
-          int offset = broadcast_shape.size() - dst_shape.size();
-          for (size_t j = 0; j < dst_shape.size(); ++j) { dst_indices[j] = indices[j + offset] % dst_shape[j]; }
-          dst_linear_index = getLinearIndex(dst_indices, dst_strides);
-        }
-
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
-      }
-    }
-  } else {
+  };
+
+  // Handle different data types
+  switch (dst.dtype()) {
+    case kFloat32: scatter(dst.ptr<mllm_fp32_t>(), src.ptr<mllm_fp32_t>()); break;
+    case kFloat16: scatter(dst.ptr<mllm_fp16_t>(), src.ptr<mllm_fp16_t>()); break;
     // For other data types, we could add support similarly
-    NYI("Unsupported data type for MaskedScatter operation");
+    default: NYI("Unsupported data type for MaskedScatter operation");
   }
 
   // Copy result to output
-  if (output.ptr<void>() != dst.ptr<void>()) { std::memcpy(output.ptr<void>(), dst.ptr<void>(), dst.bytes()); }
+  if (output.ptr<void>() != dst.ptr<void>()) { std::memcpy(output.ptr<void>(), dst.ptr<void>(), output.bytes()); }
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From 63becb57d9dcdba62091731bfd3eddf49ca78656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 074/210] fix: clone and copy the elements of a view, not its
 storage

---
 mllm/backends/cpu/ops/CloneOp.cpp |  3 ++-
 mllm/backends/cpu/ops/CopyOp.cpp  | 31 +++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/mllm/backends/cpu/ops/CloneOp.cpp b/mllm/backends/cpu/ops/CloneOp.cpp
index 96109ef..ede577f 100644
--- a/mllm/backends/cpu/ops/CloneOp.cpp
+++ b/mllm/backends/cpu/ops/CloneOp.cpp
@@ -15,7 +15,8 @@ void CPUCloneOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   // Only Support Contiguous Tensor
   MLLM_RT_ASSERT(i.isContiguous());
 
-  std::memcpy(o.ptr<char>(), i.ptr<char>(), i.bytes());
+  // bytes() is the size of the whole storage, which a view may be only a part of.
+  std::memcpy(o.ptr<char>(), i.ptr<char>(), o.bytes());
 }
 
 }  // namespace mllm::cpu
diff --git a/mllm/backends/cpu/ops/CopyOp.cpp b/mllm/backends/cpu/ops/CopyOp.cpp
index 33f1cad..da4bd75 100644
--- a/mllm/backends/cpu/ops/CopyOp.cpp
+++ b/mllm/backends/cpu/ops/CopyOp.cpp
@@ -3,6 +3,7 @@
 
 #include "mllm/backends/cpu/ops/CopyOp.hpp"
 #include <cstring>
+#include <vector>
 
 namespace mllm::cpu {
 
@@ -12,9 +13,35 @@ void CPUCopyOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   auto& i0 = inputs[0];
   auto& i1 = inputs[1];
 
-  // FIXME: Maybe we should handle contiguous issues here.
+  MLLM_RT_ASSERT(i0.dtype() == i1.dtype());
+  MLLM_RT_ASSERT(i0.numel() <= i1.numel());
 
-  std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.bytes());
+  const size_t total = i0.numel();
+  const size_t lanes = lanesOfType(i0.dtype());
+  const size_t ele_size = bytesOfType(i0.dtype());
+
+  if (i0.isContiguous() && i1.isContiguous()) {
+    std::memcpy(i1.ptr<char>(), i0.ptr<char>(), total / lanes * ele_size);
+    return;
+  }
+
+  // Either side may be a strided view: copy the elements in order.
+  MLLM_RT_ASSERT_EQ(lanes, 1);
+  auto offset = [](const std::vector<int32_t>& shape, const std::vector<int32_t>& stride, size_t idx) {
+    int64_t ret = 0;
+    for (int d = static_cast<int>(shape.size()) - 1; d >= 0; --d) {
+      ret += static_cast<int64_t>(idx % shape[d]) * stride[d];
+      idx /= shape[d];
+    }
+    return ret;
+  };
+  const auto shape0 = i0.shape(), shape1 = i1.shape();
+  const auto stride0 = i0.stride(), stride1 = i1.stride();
+  const int64_t step = static_cast<int64_t>(ele_size);
+  for (size_t idx = 0; idx < total; ++idx) {
+    std::memcpy(i1.ptr<char>() + offset(shape1, stride1, idx) * step, i0.ptr<char>() + offset(shape0, stride0, idx) * step,
+                ele_size);
+  }
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From f284eaafb026b5e8c6a25b6b17359c4c8b56403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 075/210] fix: index views of a part of a storage and from the
 end

---
 mllm/core/aops/IndexOp.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mllm/core/aops/IndexOp.cpp b/mllm/core/aops/IndexOp.cpp
index 2c1b557..2f4250f 100644
--- a/mllm/core/aops/IndexOp.cpp
+++ b/mllm/core/aops/IndexOp.cpp
@@ -39,7 +39,8 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   MLLM_RT_ASSERT(output.isContiguous());
 
   auto output_shape = output.shape();
-  size_t element_size = input.bytes() / input.numel();
+  // Not bytes() / numel(): the input may be a view of a part of its storage.
+  size_t element_size = bytesOfType(input.dtype());
 
   // Create index vectors for iteration
   std::vector<int> out_indices(output_shape.size(), 0);
@@ -83,6 +84,7 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
         // Slice indexing
         auto slice = index.slice_indices_.value();
         int start = slice.start_ == kAll ? 0 : slice.start_;
+        if (start < 0) start += shape[j];
         int step = slice.step_;
         in_indices[j] = start + out_indices[out_dim] * step;
         out_dim++;
@@ -222,6 +224,12 @@ void IndexOp::calculateOutputShape(const Tensor& input, Tensor::shape_t& o_shape
       auto slice = index.slice_indices_.value();
       int start = slice.start_ == kAll ? 0 : slice.start_;
       int end = slice.end_ == kAll ? shape[i] : slice.end_;
+      if (start < 0) {
+        // A single negative index is the pair {-1, 0}.
+        if (end == 0 && end - start == 1) { end = shape[i]; }
+        start += shape[i];
+      }
+      if (end < 0) { end += shape[i]; }
       int step = slice.step_;
       // Calculate output dimension size
       int dim_size = (end - start + step - 1) / step;
-- 
2.43.0


From e566b82a95aa668e545e6f0b1e5d48e79dcd18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 076/210] fix: keep slices inside of the tensor

---
 mllm/core/aops/SliceOp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mllm/core/aops/SliceOp.cpp b/mllm/core/aops/SliceOp.cpp
index ca2a93f..07f9556 100644
--- a/mllm/core/aops/SliceOp.cpp
+++ b/mllm/core/aops/SliceOp.cpp
@@ -1,6 +1,8 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <algorithm>
+
 #include "mllm/core/aops/SliceOp.hpp"
 #include "mllm/core/BaseOp.hpp"
 #include "mllm/core/Tensor.hpp"
@@ -57,6 +59,10 @@ void SliceOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
 
     if (step < 1) { NYI("Mllm only support step >= 1 in operator[] right now"); }
 
+    // The view must stay inside of the tensor.
+    start = std::min(std::max(start, 0), shape[i]);
+    end = std::min(end, shape[i]);
+
     int32_t num_elements = 0;
     if (end > start) { num_elements = (end - start + step - 1) / step; }
 
-- 
2.43.0


From 3f5640389aae6ed372594df559fbb6374dae8970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 077/210] fix: read strided tensors by their strides

---
 mllm/backends/cpu/ops/ArgsortOp.cpp        |  3 +-
 mllm/backends/cpu/ops/CausalMaskOp.cpp     |  3 +-
 mllm/backends/cpu/ops/ContiguousOp.cpp     | 39 +++++++++-------------
 mllm/backends/cpu/ops/ContiguousOp.hpp     |  4 +++
 mllm/backends/cpu/ops/GatherOp.cpp         |  5 +--
 mllm/backends/cpu/ops/PadOp.cpp            |  3 +-
 mllm/backends/cpu/ops/PermuteOp.cpp        |  3 +-
 mllm/backends/cpu/ops/RepeatOp.cpp         |  3 +-
 mllm/backends/cpu/ops/Scatter2ShardsOp.cpp |  3 +-
 mllm/backends/cpu/ops/TopKOp.cpp           |  3 +-
 mllm/backends/cpu/ops/TransposeOp.cpp      |  3 +-
 mllm/core/Tensor.hpp                       | 16 +++++++--
 12 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/mllm/backends/cpu/ops/ArgsortOp.cpp b/mllm/backends/cpu/ops/ArgsortOp.cpp
index 646499c..7e1e3e9 100644
--- a/mllm/backends/cpu/ops/ArgsortOp.cpp
+++ b/mllm/backends/cpu/ops/ArgsortOp.cpp
@@ -5,6 +5,7 @@
 #include <functional>
 #include <vector>
 
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/ArgsortOp.hpp"
 #include "mllm/core/DataTypes.hpp"
 #include "mllm/utils/Common.hpp"
@@ -49,7 +50,7 @@ void argsort_impl(const T* input_data, int32_t* indices_data, int outer_size, in
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 void CPUArgsortOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  const auto input = rowMajor(inputs[0]);
   auto& indices = outputs[0];
 
   auto dtype = input.dtype();
diff --git a/mllm/backends/cpu/ops/CausalMaskOp.cpp b/mllm/backends/cpu/ops/CausalMaskOp.cpp
index 201d368..5720ed5 100644
--- a/mllm/backends/cpu/ops/CausalMaskOp.cpp
+++ b/mllm/backends/cpu/ops/CausalMaskOp.cpp
@@ -4,6 +4,7 @@
 #include <cstddef>
 #include <cstring>
 
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/CausalMaskOp.hpp"
 #include "mllm/utils/CPUArchHelper.hpp"
 
@@ -18,7 +19,7 @@ namespace mllm::cpu {
 CPUCausalMaskOp::CPUCausalMaskOp(const aops::CausalMaskOpOptions& options) : aops::CausalMaskOp(options) {}
 
 void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto ins = inputs[0];
+  auto ins = rowMajor(inputs[0]);
   auto ous = outputs[0];
 
   auto shape = ins.shape();
diff --git a/mllm/backends/cpu/ops/ContiguousOp.cpp b/mllm/backends/cpu/ops/ContiguousOp.cpp
index 33a1c8f..2c73258 100644
--- a/mllm/backends/cpu/ops/ContiguousOp.cpp
+++ b/mllm/backends/cpu/ops/ContiguousOp.cpp
@@ -74,35 +74,19 @@ void CPUContiguousOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
     return;
   }
 
-  bool last_dim_contiguous = true;
-  for (int d = ndim - 2; d >= 0; --d) {
-    if (i.stride()[d] != i.stride()[d + 1] * i.stride()[d + 1]) {
-      last_dim_contiguous = false;
-      break;
-    }
-  }
-
-  if (last_dim_contiguous) {
+  if (i.stride()[ndim - 1] == 1) {
     const int32_t inner_size = i.shape()[ndim - 1];
-    const int32_t inner_bytes = inner_size * ele_size;
-    const int32_t outer_count = total_elements / inner_size;
-
-    std::vector<int32_t> outer_strides(ndim - 1);
-    int64_t cumulative_stride = 1;
-    for (int d = ndim - 2; d >= 0; --d) {
-      cumulative_stride *= i.shape()[d + 1];
-      outer_strides[d] = i.stride()[d] * cumulative_stride;
-    }
+    const size_t inner_bytes = inner_size * ele_size;
+    const size_t outer_count = total_elements / inner_size;
 
-    for (int32_t idx = 0; idx < outer_count; ++idx) {
+    for (size_t idx = 0; idx < outer_count; ++idx) {
       int64_t offset = 0;
-      int32_t temp = idx;
-      for (int d = 0; d < ndim - 1; ++d) {
-        const int32_t dim_index = temp % i.shape()[d];
+      size_t temp = idx;
+      for (int d = ndim - 2; d >= 0; --d) {
+        offset += static_cast<int64_t>(temp % i.shape()[d]) * i.stride()[d];
         temp /= i.shape()[d];
-        offset += dim_index * outer_strides[d];
       }
-      std::memcpy(dst_ptr, src_ptr + offset * ele_size, inner_bytes);
+      std::memcpy(dst_ptr, src_ptr + offset * static_cast<int64_t>(ele_size), inner_bytes);
       dst_ptr += inner_bytes;
     }
     return;
@@ -127,4 +111,11 @@ void CPUContiguousOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
   }
 }
 
+Tensor rowMajor(const Tensor& x) {
+  if (x.isContiguous()) { return x; }
+  std::vector<Tensor> outputs = {Tensor::empty(x.shape(), x.dtype(), x.device()).alloc()};
+  CPUContiguousOp({}).forward({x}, outputs);
+  return outputs[0];
+}
+
 }  // namespace mllm::cpu
diff --git a/mllm/backends/cpu/ops/ContiguousOp.hpp b/mllm/backends/cpu/ops/ContiguousOp.hpp
index b379bf2..7f42438 100644
--- a/mllm/backends/cpu/ops/ContiguousOp.hpp
+++ b/mllm/backends/cpu/ops/ContiguousOp.hpp
@@ -15,6 +15,10 @@ class CPUContiguousOp final : public aops::ContiguousOp {
   void forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) override;
 };
 
+// The tensor itself when its elements lie in row-major order, otherwise a copy in which they do. For kernels that read their
+// input from the first element on, without regard to strides.
+Tensor rowMajor(const Tensor& x);
+
 class CPUContiguousOpFactory : public TypedOpFactory<OpTypes::kContiguous, aops::ContiguousOpOptions> {
  public:
   std::shared_ptr<BaseOp> createOpImpl(const aops::ContiguousOpOptions& options) override {
diff --git a/mllm/backends/cpu/ops/GatherOp.cpp b/mllm/backends/cpu/ops/GatherOp.cpp
index 8cddbde..6cfbb0a 100644
--- a/mllm/backends/cpu/ops/GatherOp.cpp
+++ b/mllm/backends/cpu/ops/GatherOp.cpp
@@ -1,6 +1,7 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/GatherOp.hpp"
 #include "mllm/core/Tensor.hpp"
 
@@ -9,8 +10,8 @@ namespace mllm::cpu {
 CPUGatherOp::CPUGatherOp(const aops::GatherOpOptions& options) : aops::GatherOp(options) {}
 
 void CPUGatherOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& table = inputs[0];
-  auto& indices = inputs[1];
+  const auto table = rowMajor(inputs[0]);
+  const auto indices = rowMajor(inputs[1]);
   auto& output = outputs[0];
 
   int dim = options_.dim;
diff --git a/mllm/backends/cpu/ops/PadOp.cpp b/mllm/backends/cpu/ops/PadOp.cpp
index ba363c8..d03341c 100644
--- a/mllm/backends/cpu/ops/PadOp.cpp
+++ b/mllm/backends/cpu/ops/PadOp.cpp
@@ -4,6 +4,7 @@
 #include <cstring>
 #include <algorithm>
 #include <cmath>
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/PadOp.hpp"
 
 namespace mllm::cpu {
@@ -51,7 +52,7 @@ static inline int32_t circular_index(int32_t x, int32_t size) {
 }
 
 void CPUPadOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  const auto X = rowMajor(inputs[0]);
   auto& Y = outputs[0];
 
   const auto& in_shape = X.shape();
diff --git a/mllm/backends/cpu/ops/PermuteOp.cpp b/mllm/backends/cpu/ops/PermuteOp.cpp
index 995b798..344610f 100644
--- a/mllm/backends/cpu/ops/PermuteOp.cpp
+++ b/mllm/backends/cpu/ops/PermuteOp.cpp
@@ -1,6 +1,7 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/PermuteOp.hpp"
 #include "mllm/backends/cpu/kernels/Kernels.hpp"
 #include "mllm/core/DataTypes.hpp"
@@ -10,7 +11,7 @@ namespace mllm::cpu {
 CPUPermuteOp::CPUPermuteOp(const aops::PermuteOpOptions& options) : aops::PermuteOp(options) {}
 
 void CPUPermuteOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  const auto input = rowMajor(inputs[0]);
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
diff --git a/mllm/backends/cpu/ops/RepeatOp.cpp b/mllm/backends/cpu/ops/RepeatOp.cpp
index 32a0578..825f850 100644
--- a/mllm/backends/cpu/ops/RepeatOp.cpp
+++ b/mllm/backends/cpu/ops/RepeatOp.cpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 
 #include <cstring>
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/RepeatOp.hpp"
 
 namespace mllm::cpu {
@@ -9,7 +10,7 @@ namespace mllm::cpu {
 CPURepeatOp::CPURepeatOp(const aops::RepeatOpOptions& options) : aops::RepeatOp(options) {}
 
 void CPURepeatOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  const auto X = rowMajor(inputs[0]);
   auto& Y = outputs[0];
 
   auto multiplier = options_.repeat_times;
diff --git a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
index 7bf2f29..71833c7 100644
--- a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
+++ b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
@@ -4,6 +4,7 @@
 #include <cstring>
 #include "mllm/utils/Common.hpp"
 #include "mllm/core/DataTypes.hpp"
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/Scatter2ShardsOp.hpp"
 
 namespace mllm::cpu {
@@ -11,7 +12,7 @@ namespace mllm::cpu {
 CPUScatter2ShardsOp::CPUScatter2ShardsOp(const aops::Scatter2ShardsOpOptions& options) : aops::Scatter2ShardsOp(options) {}
 
 void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& src = inputs[0];
+  const auto src = rowMajor(inputs[0]);
   const auto& dst_ptrs = inputs[1];
 
   // Validation
diff --git a/mllm/backends/cpu/ops/TopKOp.cpp b/mllm/backends/cpu/ops/TopKOp.cpp
index 43add5d..a95f798 100644
--- a/mllm/backends/cpu/ops/TopKOp.cpp
+++ b/mllm/backends/cpu/ops/TopKOp.cpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <queue>
 
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/TopKOp.hpp"
 #include "mllm/core/DataTypes.hpp"
 #include "mllm/utils/Common.hpp"
@@ -72,7 +73,7 @@ void topk_impl(const T* input_data, T* values_data, int32_t* indices_data, int o
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 void CPUTopKOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  const auto input = rowMajor(inputs[0]);
   auto& values = outputs[0];
   auto& indices = outputs[1];
 
diff --git a/mllm/backends/cpu/ops/TransposeOp.cpp b/mllm/backends/cpu/ops/TransposeOp.cpp
index ee595f7..d5ebda5 100644
--- a/mllm/backends/cpu/ops/TransposeOp.cpp
+++ b/mllm/backends/cpu/ops/TransposeOp.cpp
@@ -1,6 +1,7 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
 #include "mllm/backends/cpu/ops/TransposeOp.hpp"
 #include "mllm/backends/cpu/kernels/Kernels.hpp"
 #include "mllm/core/DataTypes.hpp"
@@ -10,7 +11,7 @@ namespace mllm::cpu {
 CPUTransposeOp::CPUTransposeOp(const aops::TransposeOpOptions& options) : aops::TransposeOp(options) {}
 
 void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  const auto input = rowMajor(inputs[0]);
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
diff --git a/mllm/core/Tensor.hpp b/mllm/core/Tensor.hpp
index 52f7f43..25c6324 100644
--- a/mllm/core/Tensor.hpp
+++ b/mllm/core/Tensor.hpp
@@ -138,8 +138,20 @@ class Tensor {
   template<typename T>
   inline std::vector<T> toVector() const {
     std::vector<T> vec;
-    vec.reserve(numel());
-    std::copy(ptr<T>(), ptr<T>() + numel(), std::back_inserter(vec));
+    const auto n = numel();
+    vec.reserve(n);
+    if (isContiguous()) {
+      std::copy(ptr<T>(), ptr<T>() + n, std::back_inserter(vec));
+      return vec;
+    }
+    // A strided view: its elements are not next to each other.
+    const auto dims = shape();
+    const auto strides = stride();
+    for (size_t i = 0; i < n; ++i) {
+      int64_t offset = 0;
+      for (size_t d = dims.size(), rest = i; d-- > 0; rest /= dims[d]) { offset += static_cast<int64_t>(rest % dims[d]) * strides[d]; }
+      vec.push_back(ptr<T>()[offset]);
+    }
     return vec;
   }
 
-- 
2.43.0


From dc43c6f7abd76a48383efc4e3536dd38e978d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 078/210] fix: do not name an output of permute before there is
 one

---
 mllm/core/aops/PermuteOp.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mllm/core/aops/PermuteOp.cpp b/mllm/core/aops/PermuteOp.cpp
index a34eaad..af21a1f 100644
--- a/mllm/core/aops/PermuteOp.cpp
+++ b/mllm/core/aops/PermuteOp.cpp
@@ -26,7 +26,6 @@ void PermuteOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
 void PermuteOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   auto input_shape = input.shape();
   std::vector<int32_t> output_shape(input_shape.size());
-- 
2.43.0


From 408a6a339463896f340a592f3d0676045f82c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 079/210] fix: refuse more tokens than a static cache holds

---
 mllm/nn/lmcache/StaticCache.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index d1938d9..876fc83 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -92,6 +92,10 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
 
     auto inputs_seq_len = k.shape()[2];
 
+    if (current_seq_cnt_[layer_idx] + inputs_seq_len > max_cache_length_) {
+      throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+    }
+
     auto repeat_times = q_heads_ / kv_heads_;
 
     switch (device_type_) {
@@ -157,6 +161,10 @@ std::array<Tensor, 2> StaticCache::getKVCache(int32_t layer_idx) {
 std::array<Tensor, 2> StaticCache::preGetKVWriteLocation(int32_t layer_idx, int32_t s) {
   if (!use_fa2_) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "StaticCache::preGetKVWriteLocation is not supported in eager mode"); }
 
+  if (current_seq_cnt_[layer_idx] + s > max_cache_length_) {
+    throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+  }
+
   auto new_shape = {1, s, kv_heads_ * kv_dims_};
   auto k = k_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
   auto v = v_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
-- 
2.43.0


From d25753fd24727b6d9c29553f40652b2cf051da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 080/210] fix: copy strided keys and values into a static cache
 by their strides

---
 mllm/nn/lmcache/StaticCache.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index 876fc83..5998955 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -10,6 +10,13 @@
 #include "mllm/utils/UnsafeMacros.hpp"
 
 namespace mllm::nn {
+
+// The tokens of a head are copied as one block: they must lie next to each other.
+static Tensor denseTokens(Tensor x) {
+  const auto shape = x.shape(), stride = x.stride();
+  return stride[3] == 1 && stride[2] == shape[3] ? x : x.contiguous();
+}
+
 StaticCache::StaticCache(int32_t max_cache_length, int32_t layer_nums, int32_t q_heads, int32_t kv_heads, int32_t kv_dims,
                          DataTypes k_dtype, DataTypes v_dtype, DeviceTypes device_type, bool use_fa2)
     : device_type_(device_type),
@@ -96,6 +103,9 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
       throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
     }
 
+    k = denseTokens(k);
+    v = denseTokens(v);
+
     auto repeat_times = q_heads_ / kv_heads_;
 
     switch (device_type_) {
@@ -200,6 +210,9 @@ std::array<Tensor, 2> SubStaticCache::updateKVCache(int32_t layer_idx, Tensor k,
   MLLM_RT_ASSERT_EQ(k.shape()[1], cache_.kv_heads_);
   MLLM_RT_ASSERT_EQ(v.shape()[1], cache_.kv_heads_);
 
+  k = denseTokens(k);
+  v = denseTokens(v);
+
   auto repeat_times = cache_.q_heads_ / cache_.kv_heads_;
 
   switch (cache_.device_type_) {
-- 
2.43.0


From 5112edf72f6f5caa3b6b6412cdc0dff9ee0abe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 081/210] fix: x86 half-precision block scales are read and
 written as bits, not as numbers

---
 .../kernels/common/ggml/quantize/quantize.hpp | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
index e318451..fbb7421 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
@@ -105,29 +105,25 @@ inline static float lookup_fp16_to_fp32(uint16_t f) {
 
 #else
 namespace mllm::cpu {
-#define MLLM_COMPUTE_FP16_TO_FP32(x) _cvtsh_ss(x)
-#define MLLM_COMPUTE_FP32_TO_FP16(x) _cvtss_sh(x, 0)
-
-static float table_f32_f16[1 << 16];
-static bool table_f32_f16_init = false;
+// mllm_fp16_t is a class here (half_float::half): the intrinsics work on its bits, not on its value.
+inline static float compute_fp16_to_fp32(mllm_fp16_t x) {
+  uint16_t bits;
+  memcpy(&bits, &x, sizeof(bits));
+  return _cvtsh_ss(bits);
+}
 
-inline static float lookup_fp16_to_fp32(uint16_t f) {
-  if (!table_f32_f16_init) {
-    uint16_t ii;
-    for (int i = 0; i < (1 << 16); ++i) {
-      uint16_t ui = i;
-      memcpy(&ii, &ui, sizeof(ii));
-      table_f32_f16[i] = MLLM_COMPUTE_FP16_TO_FP32(ii);
-    }
-    table_f32_f16_init = true;
-  }
-  uint16_t s;
-  memcpy(&s, &f, sizeof(uint16_t));
-  return table_f32_f16[s];
+inline static mllm_fp16_t compute_fp32_to_fp16(float x) {
+  const uint16_t bits = _cvtss_sh(x, 0);
+  mllm_fp16_t h;
+  memcpy(&h, &bits, sizeof(h));
+  return h;
 }
 
+#define MLLM_COMPUTE_FP16_TO_FP32(x) ::mllm::cpu::compute_fp16_to_fp32(x)
+#define MLLM_COMPUTE_FP32_TO_FP16(x) ::mllm::cpu::compute_fp32_to_fp16(x)
+
 #ifndef MLLM_FP16_TO_FP32
-#define MLLM_FP16_TO_FP32(x) lookup_fp16_to_fp32(x)
+#define MLLM_FP16_TO_FP32(x) MLLM_COMPUTE_FP16_TO_FP32(x)
 #endif
 #ifndef MLLM_FP32_TO_FP16
 #define MLLM_FP32_TO_FP16(x) MLLM_COMPUTE_FP32_TO_FP16(x)
-- 
2.43.0


From 117a3c0076e91156a17744eedd870fd6bc5b0f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 082/210] fix: int8 quantisation of a row uses each element and
 saturates

---
 .../backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index 5f342de..25b2758 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -264,8 +264,8 @@ void quantize_row_q8_K(const float* __restrict x, void* __restrict y, int k) {
 void quantize_row_i8_reference(const float* __restrict x, int8_t* __restrict y, int k, float scale) {
   const float id = 1.0f / scale;
   for (int i = 0; i < k; i++) {
-    const float x0 = x[k] * id;
-    y[k] = roundf(x0);
+    const float x0 = roundf(x[i] * id);
+    y[i] = x0 > 127.f ? 127 : x0 < -128.f ? -128 : (int8_t)x0;
   }
 }
 void quantize_row_i8(const float* __restrict x, void* __restrict vy, int k, float scale) {
-- 
2.43.0


From 32391ff732c0a65b2cd1e07b7acf4aa0e5989dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 083/210] fix: int8 rows are dequantised to half precision into
 the caller's buffer

---
 .../backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index 25b2758..c3354b3 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -444,7 +444,7 @@ void dequantize_row_i8(const void* __restrict vx, float* __restrict y, int k, fl
 
 void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, int k, float scale) {
   const int8_t* __restrict x = (int8_t*)vx;
-  mllm_fp16_t* __restrict y = (mllm_fp16_t*)y;
+  mllm_fp16_t* __restrict y = (mllm_fp16_t*)vy;
 
   int i;
   // Load the scale factor into a NEON register and convert it to mllm_fp16_t
@@ -483,7 +483,7 @@ void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, i
 
 void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, int k, float scale) {
   const int8_t* __restrict x = (int8_t*)vx;
-  mllm_fp16_t* __restrict y = (mllm_fp16_t*)y;
+  mllm_fp16_t* __restrict y = (mllm_fp16_t*)vy;
 
   for (int i = 0; i < k; i++) { y[i] = MLLM_FP32_TO_FP16(x[i] * scale); }
 }
-- 
2.43.0


From fa0dfdeaaf36b4e81e69c2af74f73084d9ddd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 084/210] fix: q8_K blocks hold values in -127..127, which the
 iq2_xxs product on x86 needs

---
 mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index c3354b3..9283793 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -232,7 +232,8 @@ void quantize_row_q8_K_reference(const float* __restrict x, block_q8_K* __restri
       x += QK_K;
       continue;
     }
-    const float iscale = -128.F / max;
+    // -127, not -128: the AVX kernels negate these values in 8 bits (_mm256_sign_epi8), which -128 does not survive.
+    const float iscale = -127.F / max;
     for (int j = 0; j < QK_K; ++j) {
       int v = nearest_int(iscale * x[j]);
       y[i].qs[j] = MIN(127, v);
-- 
2.43.0


From eb37ebaa9b54d214a783cbdf63eecc6416fa3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 085/210] fix: every batch of a product of general shape takes
 its own right operand

---
 mllm/backends/cpu/kernels/common/ggml/matmul.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/matmul.cpp b/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
index 95092d9..3c12803 100644
--- a/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
@@ -329,7 +329,8 @@ llamafile_fallback:;
         // Calculate src1 and src0 offsets based on transpose flags
         size_t src0_offset =
             (batch_count > 1 ? b * src0_stride[src0_stride.size() - 3] : 0) + s_0 * src0_stride[src0_stride.size() - 2] + d_0;
-        size_t src1_offset = s_1 * src1_stride[src1_stride.size() - 2] + d_1;
+        size_t src1_offset = (batch_count > 1 && src1_stride.size() > 2 ? b * src1_stride[src1_stride.size() - 3] : 0)
+                             + s_1 * src1_stride[src1_stride.size() - 2] + d_1;
 
         const char* src0_ptr =
             reinterpret_cast<const char*>(src0->ptr<mllm_byte_t>() + src0_offset * src0_type_size / src0_blck_size);
-- 
2.43.0


From fc678cf1f6346eac398eafbc55a55d8fe773cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 086/210] fix: multiply views that are not dense by what they
 hold

---
 mllm/backends/cpu/ops/MatMulOp.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/MatMulOp.cpp b/mllm/backends/cpu/ops/MatMulOp.cpp
index 312bed3..08a2201 100644
--- a/mllm/backends/cpu/ops/MatMulOp.cpp
+++ b/mllm/backends/cpu/ops/MatMulOp.cpp
@@ -12,11 +12,25 @@
 
 namespace mllm::cpu {
 
+namespace {
+// The kernels take dense matrices, one batch after the other at a constant distance. A view that is laid out otherwise
+// (a slice of the last dimension, say) is copied.
+Tensor denseBatches(Tensor x) {
+  const auto shape = x.shape();
+  const auto stride = x.stride();
+  bool dense = x.isContiguousN(2);
+  for (int i = 0; i + 3 < static_cast<int>(shape.size()); ++i) {
+    if (stride[i] != shape[i + 1] * stride[i + 1]) { dense = false; }
+  }
+  return dense ? x : x.contiguous();
+}
+}  // namespace
+
 CPUMatMulOp::CPUMatMulOp(const aops::MatMulOpOptions& options) : aops::MatMulOp(options) {}
 
 void CPUMatMulOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& lhs = inputs[0];
-  auto& rhs = inputs[1];
+  auto lhs = denseBatches(inputs[0]);
+  auto rhs = denseBatches(inputs[1]);
   auto& o = outputs[0];
 
   auto transpose_a = options_.transpose_a;
-- 
2.43.0


From 83e5b37dc0aa04b0aafe124329f96c07496de4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 087/210] fix: linear layers with fewer than four inputs on x86
 compute their result

---
 mllm/backends/cpu/ops/LinearOp.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/LinearOp.cpp b/mllm/backends/cpu/ops/LinearOp.cpp
index b033140..043755b 100644
--- a/mllm/backends/cpu/ops/LinearOp.cpp
+++ b/mllm/backends/cpu/ops/LinearOp.cpp
@@ -292,8 +292,15 @@ void CPULinearOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>
       MLLM_RT_ASSERT_EQ(o.dtype(), kFloat32);
       if (bias_) { MLLM_RT_ASSERT_EQ(bias_.dtype(), kFloat32); }
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      NYI("LinearImplTypes not supported in x86 yet");
-
+      if (batch_count == 1) {
+        x86::mllm_blas_matmul_fp32(M, K, N, o.ptr<mllm_fp32_t>(), input.ptr<mllm_fp32_t>(), weight_.ptr<mllm_fp32_t>(),
+                                   options_.bias ? bias_.ptr<mllm_fp32_t>() : nullptr, false, true, options_.getThreads());
+      } else {
+        x86::mllm_blas_batch_matmul_fp32(batch_count, M, K, N, o.stride()[o.shape().size() - 3],
+                                         input.stride()[input.rank() - 3], 0, 0, o.ptr<mllm_fp32_t>(), input.ptr<mllm_fp32_t>(),
+                                         weight_.ptr<mllm_fp32_t>(), options_.bias ? bias_.ptr<mllm_fp32_t>() : nullptr, false,
+                                         true, options_.getThreads());
+      }
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       if (batch_count == 1) {
         arm::mllm_blas_matmul_fp32(M, K, N, o.ptr<mllm_fp32_t>(), input.ptr<mllm_fp32_t>(), weight_.ptr<mllm_fp32_t>(),
-- 
2.43.0


From baa2ced39a83224921b0844cc807e17f20d07f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 088/210] fix: linear layers read views by what they hold

---
 mllm/backends/cpu/ops/LinearOp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/ops/LinearOp.cpp b/mllm/backends/cpu/ops/LinearOp.cpp
index 043755b..bdd0499 100644
--- a/mllm/backends/cpu/ops/LinearOp.cpp
+++ b/mllm/backends/cpu/ops/LinearOp.cpp
@@ -98,7 +98,9 @@ void CPULinearOp::load(const ParameterFile::ptr_t& ploader) {
 }
 
 void CPULinearOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  // The kernels read the input as dense rows: a view that is not (a slice of the last dimension, say) is copied.
+  Tensor input = inputs[0];
+  if (!input.isContiguous()) { input = input.contiguous(); }
   auto& o = outputs[0];
 
   auto input_shape = input.shape();
-- 
2.43.0


From 9325828400d47ce607a9fd1c577208cc5a08669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 089/210] fix: rotate multimodal positions on x86

---
 mllm/backends/cpu/ops/MultimodalRoPEOp.cpp | 36 +++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/ops/MultimodalRoPEOp.cpp b/mllm/backends/cpu/ops/MultimodalRoPEOp.cpp
index d30784f..538fcf9 100644
--- a/mllm/backends/cpu/ops/MultimodalRoPEOp.cpp
+++ b/mllm/backends/cpu/ops/MultimodalRoPEOp.cpp
@@ -14,6 +14,34 @@
 
 namespace mllm::cpu {
 
+#if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
+// The activation is [B, X, Y, D], its positions are in dimension seq_dim (1 or 2).
+template<typename T>
+static void rotateHalves(Tensor& activation, Tensor& out, Tensor& sin, Tensor& cos, int seq_dim) {
+  const auto shape = activation.shape();
+  const int half = shape[3] / 2;
+  for (int n = 0; n < shape[0]; ++n) {
+    for (int i = 0; i < shape[1]; ++i) {
+      for (int j = 0; j < shape[2]; ++j) {
+        const int s = seq_dim == 1 ? i : j;
+        const T* act_ptr = activation.offsettedPtr<T>({n, i, j, 0});
+        T* out_ptr = out.offsettedPtr<T>({n, i, j, 0});
+        const T* sin_ptr = sin.offsettedPtr<T>({s, 0});
+        const T* cos_ptr = cos.offsettedPtr<T>({s, 0});
+        for (int d = 0; d < half; ++d) {
+          const float in_val = static_cast<float>(act_ptr[d]);
+          const float in_val2 = static_cast<float>(act_ptr[d + half]);
+          const float sin_val = static_cast<float>(sin_ptr[d]);
+          const float cos_val = static_cast<float>(cos_ptr[d]);
+          out_ptr[d] = static_cast<T>(in_val * cos_val - in_val2 * sin_val);
+          out_ptr[d + half] = static_cast<T>(in_val * sin_val + in_val2 * cos_val);
+        }
+      }
+    }
+  }
+}
+#endif
+
 void Qwen2VLMultimodalRoPEOpImpl::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs, Tensor& sin,
                                           Tensor& cos, aops::MultimodalRoPEOpOptionsInputType input_type) {
   auto activation = inputs[0];
@@ -52,7 +80,7 @@ void Qwen2VLMultimodalRoPEOpImpl::forward(const std::vector<Tensor>& inputs, std
       switch (input_type) {
         case aops::MultimodalRoPEOpOptionsInputType::kBHSD: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-          NYI("Qwen2VLVisionRoPEOpImpl is not implemented for x86");
+          rotateHalves<mllm_fp32_t>(activation, out, sin, cos, 2);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
           for (int n = 0; n < B; ++n) {
             for (int h = 0; h < H; ++h) {
@@ -102,7 +130,7 @@ void Qwen2VLMultimodalRoPEOpImpl::forward(const std::vector<Tensor>& inputs, std
         }
         case aops::MultimodalRoPEOpOptionsInputType::kBSHD: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-          NYI("Qwen2VLVisionRoPEOpImpl is not implemented for x86");
+          rotateHalves<mllm_fp32_t>(activation, out, sin, cos, 1);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
           for (int n = 0; n < B; ++n) {
             for (int s = 0; s < S; ++s) {
@@ -157,7 +185,7 @@ void Qwen2VLMultimodalRoPEOpImpl::forward(const std::vector<Tensor>& inputs, std
       switch (input_type) {
         case aops::MultimodalRoPEOpOptionsInputType::kBHSD: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-          NYI("Qwen2VLVisionRoPEOpImpl is not implemented for x86");
+          rotateHalves<mllm_fp16_t>(activation, out, sin, cos, 2);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
           for (int n = 0; n < B; ++n) {
             for (int h = 0; h < H; ++h) {
@@ -207,7 +235,7 @@ void Qwen2VLMultimodalRoPEOpImpl::forward(const std::vector<Tensor>& inputs, std
         }
         case aops::MultimodalRoPEOpOptionsInputType::kBSHD: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-          NYI("Qwen2VLVisionRoPEOpImpl is not implemented for x86");
+          rotateHalves<mllm_fp16_t>(activation, out, sin, cos, 1);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
           for (int n = 0; n < B; ++n) {
             for (int s = 0; s < S; ++s) {
-- 
2.43.0


From bd25f1f265bf928395c593f390a7b729269eecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 090/210] fix: rotate vision positions on x86

---
 mllm/backends/cpu/ops/VisionRoPEOp.cpp | 32 ++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/VisionRoPEOp.cpp b/mllm/backends/cpu/ops/VisionRoPEOp.cpp
index c10c59c..e65e2b5 100644
--- a/mllm/backends/cpu/ops/VisionRoPEOp.cpp
+++ b/mllm/backends/cpu/ops/VisionRoPEOp.cpp
@@ -16,6 +16,34 @@
 
 namespace mllm::cpu {
 
+#if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
+// activation is [B, S, H, D], sin and cos are [S, D / 2]
+template<typename T>
+static void rotateHalves(const Tensor& activation, const Tensor& sin, const Tensor& cos, Tensor& out) {
+  auto x = activation;
+  const auto shape = x.shape();
+  const int half = shape[3] / 2;
+  for (int b = 0; b < shape[0]; ++b) {
+    for (int s = 0; s < shape[1]; ++s) {
+      const T* sin_base = sin.ptr<T>() + s * half;
+      const T* cos_base = cos.ptr<T>() + s * half;
+      for (int h = 0; h < shape[2]; ++h) {
+        const T* act_base = x.offsettedPtr<T>({b, s, h, 0});
+        T* out_base = out.offsettedPtr<T>({b, s, h, 0});
+        for (int d = 0; d < half; ++d) {
+          const float front = static_cast<float>(act_base[d]);
+          const float back = static_cast<float>(act_base[d + half]);
+          const float cos_val = static_cast<float>(cos_base[d]);
+          const float sin_val = static_cast<float>(sin_base[d]);
+          out_base[d] = static_cast<T>(front * cos_val - back * sin_val);
+          out_base[d + half] = static_cast<T>(front * sin_val + back * cos_val);
+        }
+      }
+    }
+  }
+}
+#endif
+
 void Qwen2VLVisionRoPEOpImpl::forward(const Tensor& activation, const Tensor& sin, const Tensor& cos, Tensor& out) {
   // [B, S, H, D]
   MLLM_RT_ASSERT_EQ(activation.shape().size(), 4);
@@ -27,7 +55,7 @@ void Qwen2VLVisionRoPEOpImpl::forward(const Tensor& activation, const Tensor& si
       auto H = activation.shape()[2];
       auto D = activation.shape()[3];
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      NYI("Qwen2VLVisionRoPEOpImpl is not implemented for x86");
+      rotateHalves<mllm_fp16_t>(activation, sin, cos, out);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       auto activation_ptr = activation.ptr<float16_t>();
       auto output_ptr = out.ptr<float16_t>();
@@ -89,7 +117,7 @@ void Qwen2VLVisionRoPEOpImpl::forward(const Tensor& activation, const Tensor& si
       auto cos_ptr = cos.ptr<float>();
 
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      NYI("Qwen2VLVisionRoPEOpImpl is not implemented for x86");
+      rotateHalves<mllm_fp32_t>(activation, sin, cos, out);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       for (int b = 0; b < B; ++b) {
         for (int s = 0; s < S; ++s) {
-- 
2.43.0


From 8e67aa4ba1bd2bba6cad97631c5b52398a1ca465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 091/210] fix: a vision rotary operator is of its own type

---
 mllm/core/aops/VisionRoPEOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/core/aops/VisionRoPEOp.cpp b/mllm/core/aops/VisionRoPEOp.cpp
index fdd0e92..08c5413 100644
--- a/mllm/core/aops/VisionRoPEOp.cpp
+++ b/mllm/core/aops/VisionRoPEOp.cpp
@@ -9,7 +9,7 @@
 
 namespace mllm::aops {
 
-VisionRoPEOp::VisionRoPEOp(const VisionRoPEOpOptions& options) : BaseOp(OpTypes::kSiLU), options_(options) {}
+VisionRoPEOp::VisionRoPEOp(const VisionRoPEOpOptions& options) : BaseOp(OpTypes::kVisionRoPE), options_(options) {}
 
 void VisionRoPEOp::load(const ParameterFile::ptr_t& ploader) { MLLM_EMPTY_SCOPE; }
 
-- 
2.43.0


From fcf605da7f1dfc9d74c2a59affd66f7f33ec91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 092/210] fix: interpolate to one sample at the centre of the
 input

---
 mllm/backends/cpu/ops/InterpolateOp.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/ops/InterpolateOp.cpp b/mllm/backends/cpu/ops/InterpolateOp.cpp
index 66fdc3d..28bfd0f 100644
--- a/mllm/backends/cpu/ops/InterpolateOp.cpp
+++ b/mllm/backends/cpu/ops/InterpolateOp.cpp
@@ -15,10 +15,8 @@ static void compute_scale_factors(const std::vector<int>& input_size, const std:
                                   std::vector<float>& scale_factors, bool align_corners) {
   scale_factors.resize(input_size.size());
   for (size_t i = 0; i < input_size.size(); ++i) {
-    if (output_size[i] == 1) {
-      scale_factors[i] = 0.0f;
-    } else if (align_corners) {
-      scale_factors[i] = static_cast<float>(input_size[i] - 1) / (output_size[i] - 1);
+    if (align_corners) {
+      scale_factors[i] = output_size[i] == 1 ? 0.0f : static_cast<float>(input_size[i] - 1) / (output_size[i] - 1);
     } else {
       scale_factors[i] = static_cast<float>(input_size[i]) / output_size[i];
     }
-- 
2.43.0


From 02c71fd9204309ee22f3e49558c43ff78521f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 093/210] fix: transform every signal of a batch

---
 mllm/backends/cpu/ops/STFTOp.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/mllm/backends/cpu/ops/STFTOp.cpp b/mllm/backends/cpu/ops/STFTOp.cpp
index 38e34bb..d70471f 100644
--- a/mllm/backends/cpu/ops/STFTOp.cpp
+++ b/mllm/backends/cpu/ops/STFTOp.cpp
@@ -276,10 +276,11 @@ static void fftBluesteinComplex(std::vector<std::complex<T>>& input, std::vector
   }
 }
 
-static void padSignal(const Tensor& input, std::vector<float>& padded_signal, int n_fft, bool center,
+static void padSignal(const Tensor& input, int batch, std::vector<float>& padded_signal, int n_fft, bool center,
                       const std::string& pad_mode) {
   auto input_shape = input.shape();
   int signal_length = input_shape.size() == 1 ? input_shape[0] : input_shape[1];
+  const float* signal = input.ptr<float>() + static_cast<size_t>(batch) * signal_length;
 
   if (center) {
     int pad_length = n_fft / 2;
@@ -287,15 +288,15 @@ static void padSignal(const Tensor& input, std::vector<float>& padded_signal, in
     padded_signal.resize(padded_length);
 
     // 复制原始信号
-    for (int i = 0; i < signal_length; ++i) { padded_signal[pad_length + i] = input.ptr<float>()[i]; }
+    for (int i = 0; i < signal_length; ++i) { padded_signal[pad_length + i] = signal[i]; }
 
     if (pad_mode == "reflect") {
       // reflect：mirror padding
       for (int i = 0; i < pad_length; ++i) {
         // left padding: reverse copy from the beginning, not including the boundary
-        padded_signal[i] = input.ptr<float>()[pad_length - i];  // 1...pad_length
+        padded_signal[i] = signal[pad_length - i];  // 1...pad_length
         // right padding: reverse copy from the end, not including the boundary
-        padded_signal[pad_length + signal_length + i] = input.ptr<float>()[signal_length - 2 - i];
+        padded_signal[pad_length + signal_length + i] = signal[signal_length - 2 - i];
       }
     } else {
       // constant：0 padding (default)
@@ -307,7 +308,7 @@ static void padSignal(const Tensor& input, std::vector<float>& padded_signal, in
   } else {
     // center=false，no padding
     padded_signal.resize(signal_length);
-    for (int i = 0; i < signal_length; ++i) { padded_signal[i] = input.ptr<float>()[i]; }
+    for (int i = 0; i < signal_length; ++i) { padded_signal[i] = signal[i]; }
   }
 }
 
@@ -320,7 +321,6 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   auto input_shape = input.shape();
   auto output_shape = output.shape();
   int batch_size = output_shape[0];
-  int signal_length = input_shape.size() == 1 ? input_shape[0] : input_shape[1];
 
   // Get output dimensions
   int freq_bins = output_shape[1];
@@ -334,20 +334,17 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   std::string pad_mode = options_.pad_mode;
   bool return_complex = options_.return_complex;
 
-  // 对输入信号进行填充处理
-  std::vector<float> padded_signal;
-  padSignal(input, padded_signal, n_fft, center, pad_mode);
-  int padded_length = static_cast<int>(padded_signal.size());
-
-  // Recalculate signal length after padding
-  signal_length = padded_length;
-
   // Temporary buffers
   std::vector<float> windowed_input(n_fft);
   std::vector<std::complex<float>> fft_output(n_fft);
 
   // Process each batch
   for (int b = 0; b < batch_size; ++b) {
+    // 对输入信号进行填充处理
+    std::vector<float> padded_signal;
+    padSignal(input, b, padded_signal, n_fft, center, pad_mode);
+    int signal_length = static_cast<int>(padded_signal.size());
+
     // Process each frame
     for (int f = 0; f < n_frames; ++f) {
       int start_idx = f * hop_length;
-- 
2.43.0


From ffed4600a4d1d8fae66313b3ba35335873ea680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 094/210] fix: refuse signals shorter than a frame or its
 reflection

---
 mllm/core/aops/STFTOp.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mllm/core/aops/STFTOp.cpp b/mllm/core/aops/STFTOp.cpp
index be93df7..3ed5b82 100644
--- a/mllm/core/aops/STFTOp.cpp
+++ b/mllm/core/aops/STFTOp.cpp
@@ -46,7 +46,6 @@ void STFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& out
   }
 
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   // Get input dimensions
   auto input_shape = input.shape();
@@ -60,7 +59,12 @@ void STFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& out
   bool center = options_.center;
 
   // If center=true, pad signal with n_fft/2 on both sides
-  if (center) { signal_length += 2 * (n_fft / 2); }
+  if (center) {
+    // a reflection takes n_fft/2 samples next to the first and the last one
+    MLLM_RT_ASSERT(options_.pad_mode != "reflect" || n_fft / 2 < signal_length);
+    signal_length += 2 * (n_fft / 2);
+  }
+  MLLM_RT_ASSERT(signal_length >= win_length);
 
   // Calculate output dimensions
   int n_frames = 1 + (signal_length - win_length) / hop_length;
-- 
2.43.0


From de5954006233f7dfc05e3dc6027b28aab400abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 095/210] fix: give all samples of an inverse transform and
 drop the padding of a centred one

---
 mllm/backends/cpu/ops/STFTOp.cpp | 10 ++++++----
 mllm/core/aops/ISTFTOp.cpp       |  1 -
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mllm/backends/cpu/ops/STFTOp.cpp b/mllm/backends/cpu/ops/STFTOp.cpp
index d70471f..08d4425 100644
--- a/mllm/backends/cpu/ops/STFTOp.cpp
+++ b/mllm/backends/cpu/ops/STFTOp.cpp
@@ -485,11 +485,13 @@ void CPUISTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
       // 4. 将裁剪后的有效数据从临时缓冲拷贝到最终的 output tensor
       // 源地址：temp_output 的 padding 之后
       // 目标地址：output_ptr 的开头
-      // 拷贝长度：final_length
-      std::memcpy(output_ptr, temp_output.data() + padding, final_length * sizeof(float));
+      // 拷贝长度：signal_length
+      std::memcpy(output_ptr, temp_output.data() + padding, signal_length * sizeof(float));
 
     } else {
       // 标准 'center' 或其他 padding 逻辑 (与您之前的原始逻辑类似)
+      // center: the first n_fft / 2 samples are padding and not part of the output
+      const int padding = center ? n_fft / 2 : 0;
       std::vector<float> window_envelope(signal_length, 0.0f);
       std::memset(output_ptr, 0, signal_length * sizeof(float));
 
@@ -530,8 +532,8 @@ void CPUISTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
         // overlap-add
         int start_idx = f * hop_length;
         for (int i = 0; i < win_length; ++i) {
-          int out_idx = start_idx + i;
-          if (out_idx < signal_length) {
+          int out_idx = start_idx + i - padding;
+          if (out_idx >= 0 && out_idx < signal_length) {
             output_ptr[out_idx] += ifft_output[i] * window_ptr[i];
             window_envelope[out_idx] += window_ptr[i] * window_ptr[i];
           }
diff --git a/mllm/core/aops/ISTFTOp.cpp b/mllm/core/aops/ISTFTOp.cpp
index 399f5d2..ae86a5e 100644
--- a/mllm/core/aops/ISTFTOp.cpp
+++ b/mllm/core/aops/ISTFTOp.cpp
@@ -47,7 +47,6 @@ void ISTFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   }
 
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   // Get input dimensions
   auto input_shape = input.shape();
-- 
2.43.0


From 5a5f9a00ff9110fd631fac8da7d7dc5c731a1380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:12 +0000
Subject: [PATCH 096/210] fix: split off the longest special token at each
 place of the text

---
 .../preprocessor/tokenizers/AutoTokenizer.cpp | 192 ++++--------------
 1 file changed, 42 insertions(+), 150 deletions(-)

diff --git a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
index ae9f4f9..19b9121 100644
--- a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
+++ b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
@@ -31,80 +31,30 @@ void Trie::update(const std::vector<std::wstring>& words) {
 }
 
 std::vector<std::wstring> Trie::split(const std::wstring& text) {
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
+  std::vector<std::wstring> result;
+  size_t piece_start = 0;
+
+  for (size_t current = 0; current < text.size();) {
+    // trying to find the longest match that starts here
+    size_t max_end = current;
+    TrieNode* node = root_.get();
+    for (size_t lookahead = current; lookahead < text.size(); ++lookahead) {
+      auto it = node->children.find(text[lookahead]);
+      if (it == node->children.end()) break;
+      node = it->second.get();
+      if (node->is_end) max_end = lookahead + 1;
     }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
+
+    if (max_end == current) {
+      ++current;
+      continue;
     }
+    if (piece_start != current) { result.push_back(text.substr(piece_start, current - piece_start)); }
+    result.push_back(text.substr(current, max_end - current));
+    piece_start = current = max_end;
   }
 
-  sort(offsets.begin(), offsets.end());
-  std::vector<std::wstring> result;
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) { result.push_back(text.substr(offsets[i - 1], offsets[i] - offsets[i - 1])); }
-  }
-  if (offsets[offsets.size() - 1] != text.size()) { result.push_back(text.substr(offsets[offsets.size() - 1])); }
+  if (piece_start != text.size()) { result.push_back(text.substr(piece_start)); }
   return result;
 }
 
@@ -129,94 +79,36 @@ void TrieUTF8::update(const std::vector<std::string>& words) {
   for (const auto& word : words) { add(word); }
 }
 
-// I use FSA to implement the split function.
 std::vector<std::string> TrieUTF8::split(const std::string& text_utf8) {
   auto text = utf8String2Cpts(text_utf8);
 
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
-    }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
-    }
-  }
-
-  sort(offsets.begin(), offsets.end());
   std::vector<std::string> result;
+  size_t piece_start = 0;
+  auto push_piece = [&](size_t start, size_t end) {
+    if (start != end) { result.push_back(cpts2Utf8String(cpts_string_t(text.begin() + start, text.begin() + end))); }
+  };
+
+  for (size_t current = 0; current < text.size();) {
+    // trying to find the longest match that starts here
+    size_t max_end = current;
+    TrieNode* node = root_.get();
+    for (size_t lookahead = current; lookahead < text.size(); ++lookahead) {
+      auto it = node->children.find(text[lookahead]);
+      if (it == node->children.end()) break;
+      node = it->second.get();
+      if (node->is_end) max_end = lookahead + 1;
+    }
 
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) {
-      auto cpts_str = cpts_string_t{};
-      for (int __idx = offsets[i - 1]; __idx < offsets[i]; __idx++) { cpts_str.push_back(text[__idx]); }
-      result.push_back(cpts2Utf8String(cpts_str));
+    if (max_end == current) {
+      ++current;
+      continue;
     }
-  }
-  if (offsets[offsets.size() - 1] != text.size()) {
-    auto cpts_str = cpts_string_t{};
-    for (int __idx = offsets[offsets.size() - 1]; __idx < text.size(); __idx++) { cpts_str.push_back(text[__idx]); }
-    result.push_back(cpts2Utf8String(cpts_str));
+    push_piece(piece_start, current);
+    push_piece(current, max_end);
+    piece_start = current = max_end;
   }
 
+  push_piece(piece_start, text.size());
   return result;
 }
 
-- 
2.43.0


From cc6730cc61821aee08916bc0ba4de662a641d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 097/210] fix: tell letters, digits and white space apart
 whatever the locale

---
 .../minicpm_o2_6/tokenization_minicpmo.hpp       | 16 ++++++++--------
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp     | 16 ++++++++--------
 mllm/models/qwen3/tokenization_qwen3.hpp         | 16 ++++++++--------
 mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp | 16 ++++++++--------
 mllm/models/qwen_npu/tokenization_qwen.hpp       | 16 ++++++++--------
 mllm/preprocessor/tokenizers/Unicode.cpp         |  7 +++++++
 mllm/preprocessor/tokenizers/Unicode.hpp         |  7 +++++--
 7 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 569e0e1..5acbd87 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -80,10 +80,10 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -104,7 +104,7 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -115,11 +115,11 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -128,9 +128,9 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 1ff6d03..4ec0f1c 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -76,10 +76,10 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -100,7 +100,7 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -111,11 +111,11 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -124,9 +124,9 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 73cb08a..4b216ab 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -75,10 +75,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -99,7 +99,7 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -110,11 +110,11 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -123,9 +123,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 181d576..9eebac6 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -75,10 +75,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -99,7 +99,7 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -110,11 +110,11 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -123,9 +123,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index a5cdc26..902acb3 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -71,11 +71,11 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
     matched.clear();
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         matched += str[pos];
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture trailing newlines
@@ -93,7 +93,7 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -104,11 +104,11 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -117,9 +117,9 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/preprocessor/tokenizers/Unicode.cpp b/mllm/preprocessor/tokenizers/Unicode.cpp
index 35a6859..1e357fd 100644
--- a/mllm/preprocessor/tokenizers/Unicode.cpp
+++ b/mllm/preprocessor/tokenizers/Unicode.cpp
@@ -5,9 +5,16 @@
 #include <algorithm>
 
 #include "mllm/preprocessor/tokenizers/Unicode.hpp"
+#include "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.h"
 
 namespace mllm::preprocessor {
 
+bool isLetter(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_letter; }
+
+bool isDigit(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_number; }
+
+bool isSpace(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_whitespace; }
+
 std::string wideString2Utf8String(const std::wstring& wstr) {
   std::string result;
   for (wchar_t wc : wstr) {
diff --git a/mllm/preprocessor/tokenizers/Unicode.hpp b/mllm/preprocessor/tokenizers/Unicode.hpp
index 3f570f5..33c6996 100644
--- a/mllm/preprocessor/tokenizers/Unicode.hpp
+++ b/mllm/preprocessor/tokenizers/Unicode.hpp
@@ -30,9 +30,12 @@ inline void initLocal(const std::string& local_name = "en_US.UTF-8") {
   }
 }
 
-inline bool isLetter(wchar_t c) { return std::iswalpha(c); }
+// \p{L}, \p{N} and \s of the tokenizers' patterns. They do not depend on the locale.
+bool isLetter(wchar_t c);
 
-inline bool isDigit(wchar_t c) { return std::iswdigit(c); }
+bool isDigit(wchar_t c);
+
+bool isSpace(wchar_t c);
 
 std::string wideString2Utf8String(const std::wstring& wstr);
 
-- 
2.43.0


From 78df9ccbff7b5a3133540f127d9855b8497b84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 098/210] fix: split runs of white space as the tokenizer's
 pattern says

---
 .../minicpm_o2_6/tokenization_minicpmo.hpp    | 19 ++++++++++---------
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp  | 19 ++++++++++---------
 mllm/models/qwen3/tokenization_qwen3.hpp      | 19 ++++++++++---------
 .../qwen3_moe/tokenization_qwen3_moe.hpp      | 19 ++++++++++---------
 mllm/models/qwen_npu/tokenization_qwen.hpp    | 19 ++++++++++---------
 5 files changed, 50 insertions(+), 45 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 5acbd87..2f4cbd6 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -103,14 +103,14 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && preprocessor::isSpace(str[end])) ++end;
+    // The white space goes up to its last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -118,8 +118,9 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // The last white space before something else belongs to what follows
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 4ec0f1c..da9eef9 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -99,14 +99,14 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && preprocessor::isSpace(str[end])) ++end;
+    // The white space goes up to its last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -114,8 +114,9 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // The last white space before something else belongs to what follows
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 4b216ab..6da2b8e 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -98,14 +98,14 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && preprocessor::isSpace(str[end])) ++end;
+    // The white space goes up to its last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -113,8 +113,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // The last white space before something else belongs to what follows
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 9eebac6..b82da22 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -98,14 +98,14 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && preprocessor::isSpace(str[end])) ++end;
+    // The white space goes up to its last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -113,8 +113,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // The last white space before something else belongs to what follows
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index 902acb3..6887297 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -92,14 +92,14 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && preprocessor::isSpace(str[end])) ++end;
+    // The white space goes up to its last newline
+    while (end > pos && str[end - 1] != L'\r' && str[end - 1] != L'\n') --end;
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
@@ -107,8 +107,9 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // The last white space before something else belongs to what follows
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
-- 
2.43.0


From a4b1fa952a8bac8c99d26776b344ddb97c76f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 099/210] fix: split off contractions in capitals too

---
 mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp | 10 ++++++++--
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp       | 10 ++++++++--
 mllm/models/qwen3/tokenization_qwen3.hpp           | 10 ++++++++--
 mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp   | 10 ++++++++--
 mllm/models/qwen_npu/tokenization_qwen.hpp         | 10 ++++++++--
 5 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 2f4cbd6..ce0db39 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -27,8 +27,14 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() > str.size()) continue;
+    auto candidate = str.substr(pos, contraction.size());
+    auto lowered = candidate;
+    for (auto& c : lowered) {
+      if (c >= L'A' && c <= L'Z') { c += L'a' - L'A'; }
+    }
+    if (lowered == contraction) {
+      matched = candidate;
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index da9eef9..c2b5508 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -23,8 +23,14 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() > str.size()) continue;
+    auto candidate = str.substr(pos, contraction.size());
+    auto lowered = candidate;
+    for (auto& c : lowered) {
+      if (c >= L'A' && c <= L'Z') { c += L'a' - L'A'; }
+    }
+    if (lowered == contraction) {
+      matched = candidate;
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 6da2b8e..b3d5e64 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -22,8 +22,14 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() > str.size()) continue;
+    auto candidate = str.substr(pos, contraction.size());
+    auto lowered = candidate;
+    for (auto& c : lowered) {
+      if (c >= L'A' && c <= L'Z') { c += L'a' - L'A'; }
+    }
+    if (lowered == contraction) {
+      matched = candidate;
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index b82da22..2f1df83 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -22,8 +22,14 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() > str.size()) continue;
+    auto candidate = str.substr(pos, contraction.size());
+    auto lowered = candidate;
+    for (auto& c : lowered) {
+      if (c >= L'A' && c <= L'Z') { c += L'a' - L'A'; }
+    }
+    if (lowered == contraction) {
+      matched = candidate;
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index 6887297..b84f4d8 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -22,8 +22,14 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() > str.size()) continue;
+    auto candidate = str.substr(pos, contraction.size());
+    auto lowered = candidate;
+    for (auto& c : lowered) {
+      if (c >= L'A' && c <= L'Z') { c += L'a' - L'A'; }
+    }
+    if (lowered == contraction) {
+      matched = candidate;
       pos += contraction.size();
       return true;
     }
-- 
2.43.0


From 119d6fd6cb07453032470f4349472b676c12f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:27 +0000
Subject: [PATCH 100/210] fix: count characters, up to the number the tokenizer
 file gives, in long words

---
 mllm/preprocessor/tokenizers/WordPiece.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mllm/preprocessor/tokenizers/WordPiece.cpp b/mllm/preprocessor/tokenizers/WordPiece.cpp
index 934cfda..074a22f 100644
--- a/mllm/preprocessor/tokenizers/WordPiece.cpp
+++ b/mllm/preprocessor/tokenizers/WordPiece.cpp
@@ -114,6 +114,11 @@ bool WordPiece::initFromTokenizerJson(const std::string& tokenizer_json_file) {
   // Find unk token
   if (j.contains("model") && j["model"].contains("unk_token")) { unk_token_ = j["model"]["unk_token"]; }
 
+  // Words longer than this are unknown
+  if (j.contains("model") && j["model"].contains("max_input_chars_per_word")) {
+    max_input_chars_per_word_ = j["model"]["max_input_chars_per_word"];
+  }
+
   auto it = vocab_.find(unk_token_);
   if (it != vocab_.end()) {
     unk_token_id_ = it->second;
@@ -224,7 +229,7 @@ std::vector<std::string> WordPiece::wordpiece_tokenize(const std::string& text)
   if (text.empty()) { return output_tokens; }
 
   // Check if text is too long
-  if (static_cast<int>(text.length()) > max_input_chars_per_word_) {
+  if (utf8::distance(text.begin(), text.end()) > max_input_chars_per_word_) {
     output_tokens.push_back(unk_token_);
     return output_tokens;
   }
-- 
2.43.0


From 51a3b0bca8fc75d0b09e1169cbde0cbf3019afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:27 +0000
Subject: [PATCH 101/210] fix: of special tokens at the same place take the
 longest

---
 mllm/preprocessor/tokenizers/WordPiece.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/preprocessor/tokenizers/WordPiece.cpp b/mllm/preprocessor/tokenizers/WordPiece.cpp
index 074a22f..212d032 100644
--- a/mllm/preprocessor/tokenizers/WordPiece.cpp
+++ b/mllm/preprocessor/tokenizers/WordPiece.cpp
@@ -451,7 +451,8 @@ std::vector<std::string> WordPiece::split_special_tokens(const std::string& text
 
       size_t found_pos = text.find(token_content, pos);
       if (found_pos != std::string::npos) {
-        if (earliest_pos == std::string::npos || found_pos < earliest_pos) {
+        if (earliest_pos == std::string::npos || found_pos < earliest_pos
+            || (found_pos == earliest_pos && token_content.size() > earliest_token.size())) {
           earliest_pos = found_pos;
           earliest_token = token_content;
         }
-- 
2.43.0


From 43b7fd7f46173498f2f88362bd6d13a0b80ecbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 102/210] fix: keep long special tokens whole

---
 mllm/preprocessor/tokenizers/WordPiece.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mllm/preprocessor/tokenizers/WordPiece.cpp b/mllm/preprocessor/tokenizers/WordPiece.cpp
index 212d032..1c3ab6a 100644
--- a/mllm/preprocessor/tokenizers/WordPiece.cpp
+++ b/mllm/preprocessor/tokenizers/WordPiece.cpp
@@ -161,6 +161,11 @@ std::vector<std::string> WordPiece::tokenize(const std::string& text) {
 
   // WordPiece tokenization
   for (const auto& token : basic_tokens) {
+    // Special tokens are whole
+    if (is_special_token(token)) {
+      result.push_back(token);
+      continue;
+    }
     auto wp_tokens = wordpiece_tokenize(token);
     result.insert(result.end(), wp_tokens.begin(), wp_tokens.end());
   }
-- 
2.43.0


From 65237518adc6b3295649486a2f99e43f41c3ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 103/210] fix: mark the start of text that begins with a space
 too

---
 mllm/models/llama/tokenization_tiny_llama.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/models/llama/tokenization_tiny_llama.hpp b/mllm/models/llama/tokenization_tiny_llama.hpp
index 08357b1..4b96430 100644
--- a/mllm/models/llama/tokenization_tiny_llama.hpp
+++ b/mllm/models/llama/tokenization_tiny_llama.hpp
@@ -75,7 +75,7 @@ class TinyLlamaTokenizer final : public mllm::preprocessor::AutoTokenizer {
     }
 
     // Step 2: Prepend ▁ at the beginning
-    if (!normalized.empty() && normalized[0] != L'▁') { normalized = underline_char + normalized; }
+    if (!normalized.empty()) { normalized = underline_char + normalized; }
 
     return normalized;
   }
-- 
2.43.0


From 1b0d9ef6f31566e4919f27d41ce751cbe8b4cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 104/210] fix: split empty text into no words

---
 mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
index da8a79e..51a8c5c 100644
--- a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
+++ b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
@@ -655,6 +655,8 @@ uint32_t unicode_tolower(uint32_t cp) {
 }
 
 std::vector<std::string> unicode_regex_split(const std::string& text, const std::vector<std::string>& regex_exprs) {
+  if (text.empty()) { return {}; }
+
   // unicode categories
   static const std::map<std::string, int> k_ucat_enum = {
       {"\\p{N}", codepoint_flags::NUMBER},
-- 
2.43.0


From c0f67e6926cfecf3380b2cca1f1e30ec97aa568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 105/210] fix: read WAV files chunk by chunk, and refuse what
 is not one

---
 third_party/wenet_audio/wav.h | 131 ++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 60 deletions(-)

diff --git a/third_party/wenet_audio/wav.h b/third_party/wenet_audio/wav.h
index 7686da8..7e84ba2 100644
--- a/third_party/wenet_audio/wav.h
+++ b/third_party/wenet_audio/wav.h
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <algorithm>
 #include <string>
 #include <iostream>
 
@@ -49,7 +50,7 @@ struct WavHeader {
 
 class WavReader {
  public:
-  WavReader() : data_(nullptr) {}
+  WavReader() = default;
   explicit WavReader(const std::string& filename) { Open(filename); }
 
   bool Open(const std::string& filename) {
@@ -59,61 +60,10 @@ class WavReader {
       return false;
     }
 
-    WavHeader header;
-    IGNORE(fread(&header, 1, sizeof(header), fp));
-    if (header.fmt_size < 16) {
-      fprintf(stderr, "WaveData: expect PCM format data "
-                      "to have fmt chunk of at least size 16.\n");
-      return false;
-    } else if (header.fmt_size > 16) {
-      int offset = 44 - 8 + header.fmt_size - 16;
-      fseek(fp, offset, SEEK_SET);
-      IGNORE(fread(header.data, 8, sizeof(char), fp));
-    }
-    // check "riff" "WAVE" "fmt " "data"
-
-    // Skip any subchunks between "fmt" and "data".  Usually there will
-    // be a single "fact" subchunk, but on Windows there can also be a
-    // "list" subchunk.
-    while (0 != strncmp(header.data, "data", 4)) {
-      // We will just ignore the data in these chunks.
-      fseek(fp, header.data_size, SEEK_CUR);
-      // read next subchunk
-      IGNORE(fread(header.data, 8, sizeof(char), fp));
-    }
-
-    num_channel_ = header.channels;
-    sample_rate_ = header.sample_rate;
-    bits_per_sample_ = header.bit;
-    int num_data = header.data_size / (bits_per_sample_ / 8);
-    data_ = new float[num_data];
-    num_sample_ = num_data / num_channel_;
-
-    for (int i = 0; i < num_data; ++i) {
-      switch (bits_per_sample_) {
-        case 8: {
-          char sample;
-          IGNORE(fread(&sample, 1, sizeof(char), fp));
-          data_[i] = static_cast<float>(sample);
-          break;
-        }
-        case 16: {
-          int16_t sample;
-          IGNORE(fread(&sample, 1, sizeof(int16_t), fp));
-          data_[i] = static_cast<float>(sample);
-          break;
-        }
-        case 32: {
-          int sample;
-          IGNORE(fread(&sample, 1, sizeof(int), fp));
-          data_[i] = static_cast<float>(sample);
-          break;
-        }
-        default: fprintf(stderr, "unsupported quantization bits"); exit(1);
-      }
-    }
+    bool ok = ReadChunks(fp);
     fclose(fp);
-    return true;
+    if (!ok) { fprintf(stderr, "WavReader: %s is not a PCM WAV file.\n", filename.c_str()); }
+    return ok;
   }
 
   void rescale() {
@@ -147,11 +97,72 @@ class WavReader {
   const float* data() const { return data_; }
 
  private:
-  int num_channel_;
-  int sample_rate_;
-  int bits_per_sample_;
-  int num_sample_;  // sample points per channel
-  float* data_;
+  // Reads the chunks of a RIFF/WAVE file, "fmt " before "data", skipping all others.
+  bool ReadChunks(FILE* fp) {
+    if (fseek(fp, 0, SEEK_END) != 0) { return false; }
+    const long file_size = ftell(fp);
+    rewind(fp);
+
+    char riff[12];
+    if (fread(riff, 1, sizeof(riff), fp) != sizeof(riff)) { return false; }
+    if (0 != strncmp(riff, "RIFF", 4) || 0 != strncmp(riff + 8, "WAVE", 4)) { return false; }
+
+    WavHeader header;
+    bool has_fmt = false;
+    while (fread(header.data, 1, 4, fp) == 4 && fread(&header.data_size, 1, 4, fp) == 4) {
+      if (0 == strncmp(header.data, "data", 4)) { break; }
+      const long next = ftell(fp) + header.data_size + (header.data_size & 1);  // chunks are word aligned
+      if (0 == strncmp(header.data, "fmt ", 4)) {
+        if (header.data_size < 16 || fread(&header.format, 1, 16, fp) != 16) { return false; }
+        has_fmt = true;
+      }
+      if (next > file_size || fseek(fp, next, SEEK_SET) != 0) { return false; }
+    }
+    if (!has_fmt || feof(fp)) { return false; }
+    // integer samples, plain or in the extensible format
+    if (header.format != 1 && header.format != 0xFFFE) { return false; }
+    if (header.channels == 0 || header.sample_rate == 0) { return false; }
+    if (header.bit != 8 && header.bit != 16 && header.bit != 32) { return false; }
+
+    num_channel_ = header.channels;
+    sample_rate_ = header.sample_rate;
+    bits_per_sample_ = header.bit;
+    // a file may end before the size its header gives
+    const long data_size = std::min<long>(header.data_size, file_size - ftell(fp));
+    num_sample_ = data_size / (bits_per_sample_ / 8) / num_channel_;
+    const int num_data = num_sample_ * num_channel_;
+    data_ = new float[num_data];
+
+    for (int i = 0; i < num_data; ++i) {
+      switch (bits_per_sample_) {
+        case 8: {
+          uint8_t sample;  // 8 bit samples are unsigned
+          IGNORE(fread(&sample, 1, sizeof(sample), fp));
+          data_[i] = static_cast<float>(sample) - 128.0f;
+          break;
+        }
+        case 16: {
+          int16_t sample;
+          IGNORE(fread(&sample, 1, sizeof(int16_t), fp));
+          data_[i] = static_cast<float>(sample);
+          break;
+        }
+        case 32: {
+          int sample;
+          IGNORE(fread(&sample, 1, sizeof(int), fp));
+          data_[i] = static_cast<float>(sample);
+          break;
+        }
+      }
+    }
+    return true;
+  }
+
+  int num_channel_ = 0;
+  int sample_rate_ = 0;
+  int bits_per_sample_ = 0;
+  int num_sample_ = 0;  // sample points per channel
+  float* data_ = nullptr;
 };
 
 class WavWriter {
-- 
2.43.0


From c87372416a634c1bc0f1ec6327fd9c1f846d13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 106/210] fix: scale samples of a WAV file by its full scale

---
 third_party/wenet_audio/wav.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/third_party/wenet_audio/wav.h b/third_party/wenet_audio/wav.h
index 7e84ba2..a39b5b7 100644
--- a/third_party/wenet_audio/wav.h
+++ b/third_party/wenet_audio/wav.h
@@ -66,12 +66,11 @@ class WavReader {
     return ok;
   }
 
+  // Scale samples to [-1, 1)
   void rescale() {
     auto num_data = num_channel_ * num_sample_;
-    for (int i = 0; i < num_data; i++) {
-      // data_[i] = (data_[i] - ((float)(32717 - 31768) / 2)) / ((float)(32717 + 31768) / 2);
-      data_[i] = (data_[i] / 31768);
-    }
+    const float full_scale = bits_per_sample_ == 8 ? 128.0f : bits_per_sample_ == 32 ? 2147483648.0f : 32768.0f;
+    for (int i = 0; i < num_data; i++) { data_[i] = (data_[i] / full_scale); }
   }
 
   void print() {
-- 
2.43.0


From 8f7423dc089eb2fa7ae44bfc380c6b940e5f0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 107/210] fix: refuse WAV files without samples

---
 mllm/preprocessor/audio/Audio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index d92432f..1a704d8 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -448,6 +448,7 @@ std::vector<std::vector<std::vector<std::vector<float>>>> processWAV(const std::
   Fraction clips_per_video(3);
   for (auto& wav : waves) {
     wenet::WavReader wav_reader(wav);
+    if (wav_reader.num_sample() <= 0) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Can't read any sample of WAV file: {}", wav); }
     wav_reader.rescale();
     auto wavdata = wav_reader.data();
     auto wavdata_sample = wav_reader.num_sample();
@@ -496,6 +497,7 @@ std::vector<float> readWAV(const std::string& file_path, int resample_rate) {
   auto wavdata_sample = wav_reader.num_sample();
   auto wavdata_channel = wav_reader.num_channel();
   auto origin_sample_rate = wav_reader.sample_rate();
+  if (wavdata_sample <= 0) { return {}; }
 
   // Convert raw data to channel-wise data
   std::vector<std::vector<float>> wav_data = get_wav_data(wavdata, wavdata_sample, wavdata_channel);
-- 
2.43.0


From b44c23ae52cba6153a1f44bfa1022557f0a3e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 108/210] fix: clip times of more than ten seconds of audio do
 not overflow

---
 mllm/preprocessor/audio/Audio.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index 1a704d8..eefb9da 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -17,21 +17,21 @@
 
 class Fraction {
  public:
-  int numerator;
-  int denominator;
+  int64_t numerator;
+  int64_t denominator;
 
   // Constructor accepting a single int argument
-  explicit Fraction(int num) : numerator(num), denominator(1) {}
+  explicit Fraction(int64_t num) : numerator(num), denominator(1) {}
 
-  Fraction(int num, int den) : numerator(num), denominator(den) {
+  Fraction(int64_t num, int64_t den) : numerator(num), denominator(den) {
     if (denominator == 0) { throw std::invalid_argument("Denominator cannot be zero."); }
     simplify();
   }
 
   // Calculate the greatest common divisor
-  int gcd(int a, int b) {
+  int64_t gcd(int64_t a, int64_t b) {
     while (b != 0) {
-      int temp = b;
+      int64_t temp = b;
       b = a % b;
       a = temp;
     }
@@ -44,7 +44,7 @@ class Fraction {
       denominator = 1;
       return;
     }
-    int gcd_value = gcd(std::abs(numerator), std::abs(denominator));
+    int64_t gcd_value = gcd(std::abs(numerator), std::abs(denominator));
     numerator /= gcd_value;
     denominator /= gcd_value;
     if (denominator < 0) {
@@ -55,30 +55,30 @@ class Fraction {
 
   // Addition operation
   Fraction operator+(const Fraction& other) {
-    int num = numerator * other.denominator + other.numerator * denominator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.denominator + other.numerator * denominator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Subtraction operation
   Fraction operator-(const Fraction& other) {
-    int num = numerator * other.denominator - other.numerator * denominator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.denominator - other.numerator * denominator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Multiplication operation
   Fraction operator*(const Fraction& other) {
-    int num = numerator * other.numerator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.numerator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Division operation
   Fraction operator/(const Fraction& other) {
     if (other.numerator == 0) { throw std::invalid_argument("Cannot divide by zero."); }
-    int num = numerator * other.denominator;
-    int den = denominator * other.numerator;
+    int64_t num = numerator * other.denominator;
+    int64_t den = denominator * other.numerator;
     return {num, den};
   }
 
-- 
2.43.0


From f73bd4614528db31207da8be5c394f2e1b55eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 109/210] fix: take clips within the audio and release them

---
 mllm/preprocessor/audio/Audio.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index eefb9da..0027605 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -117,15 +117,14 @@ class Fraction {
 
 namespace MLLM_ANONYMOUS_NAMESPACE {
 
-float* waveClip(const float* data_, int start, int end, int channel) {
+// First channel of the samples in [start, end) of `size` interleaved ones
+std::vector<float> waveClip(const float* data_, int size, int start, int end, int channel) {
   std::vector<float> even_elements;
 
-  for (int i = start; i < end; ++i) {
+  for (int i = start; i < std::min(end, size); ++i) {
     if (i % channel == 0) { even_elements.push_back(data_[i]); }
   }
-  auto data_new = new float[(end - start) / channel];
-  std::copy(even_elements.begin(), even_elements.end(), data_new);
-  return data_new;
+  return even_elements;
 }
 std::vector<std::vector<float>> readFeats(const std::shared_ptr<wenet::FeaturePipeline>& feature_pipeline,
                                           const int num_frames_, const int feature_dim_) {
@@ -466,14 +465,13 @@ std::vector<std::vector<std::vector<std::vector<float>>>> processWAV(const std::
     for (auto clip_timepoint : clip_timepoints) {
       const int clip_start = clip_timepoint.first * wav_reader.num_channel();
       const int clip_end = clip_timepoint.second * wav_reader.num_channel();
-      const float* datac;
+      std::vector<float> datac;
       if (origin_sample_rate == resample_rate) {
-        datac = waveClip(wav_reader.data(), clip_start, clip_end, wav_reader.num_channel());
+        datac = waveClip(wav_reader.data(), wavdata_size, clip_start, clip_end, wav_reader.num_channel());
       } else {
-        datac = waveClip(resampled.data(), clip_start, clip_end, wav_reader.num_channel());
+        datac = waveClip(resampled.data(), resampled.size(), clip_start, clip_end, wav_reader.num_channel());
       }
-      const int datac_num_sample = (clip_end - clip_start) / wav_reader.num_channel();
-      feature_pipeline->AcceptWaveform(std::vector<float>(datac, datac + datac_num_sample));
+      feature_pipeline->AcceptWaveform(datac);
       const int num_frames_ = 204;
       const int feature_dim_ = 128;
       const auto chunk_feats = readFeats(feature_pipeline, num_frames_, feature_dim_);
-- 
2.43.0


From b4caf5816c35262f3ef8de5379f16cb12b2d9b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 110/210] fix: a mel bin without any FFT bin takes none

---
 third_party/wenet_audio/fbank.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_party/wenet_audio/fbank.h b/third_party/wenet_audio/fbank.h
index 77248c4..2aefba3 100644
--- a/third_party/wenet_audio/fbank.h
+++ b/third_party/wenet_audio/fbank.h
@@ -80,7 +80,8 @@ class Fbank {
       }
       //CHECK(first_index != -1 && last_index >= first_index);
       bins_[bin].first = first_index;
-      int size = last_index + 1 - first_index;
+      // A low bin may be narrower than the FFT's and hold none of them.
+      int size = first_index == -1 ? 0 : last_index + 1 - first_index;
       bins_[bin].second.resize(size);
       for (int i = 0; i < size; ++i) {
         bins_[bin].second[i] = this_bin[first_index + i];
-- 
2.43.0


From b05a7003360035de397943a18220ec8307d48b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 111/210] fix: normalise a copy of the tensor, by its strides

---
 mllm/preprocessor/visual/ImageTransform.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mllm/preprocessor/visual/ImageTransform.cpp b/mllm/preprocessor/visual/ImageTransform.cpp
index d71a007..322f6b5 100644
--- a/mllm/preprocessor/visual/ImageTransform.cpp
+++ b/mllm/preprocessor/visual/ImageTransform.cpp
@@ -87,7 +87,7 @@ Normalize::Normalize(const std::vector<float>& mean, const std::vector<float>& s
 }
 
 Tensor Normalize::apply(const Tensor& input) const {
-  const Tensor& src = input;
+  Tensor src = input;  // handle, for non-const member calls
   // Expect src in CHW layout
   MLLM_RT_ASSERT(src.rank() == 3);
   const int c = src.size(0);
@@ -96,8 +96,9 @@ Tensor Normalize::apply(const Tensor& input) const {
   MLLM_RT_ASSERT_EQ(static_cast<int>(mean_.size()), c);
   MLLM_RT_ASSERT_EQ(static_cast<int>(std_.size()), c);
 
-  // Asuming Work on a contiguous clone to simplify indexing
-  float* ptr = input.ptr<float>();
+  // Work on a contiguous clone to simplify indexing, the input keeps its values
+  Tensor out = src.isContiguous() ? src.clone() : src.contiguous();
+  float* ptr = out.ptr<float>();
   const size_t plane = static_cast<size_t>(h) * static_cast<size_t>(w);
 
   for (int ch = 0; ch < c; ++ch) {
@@ -108,7 +109,7 @@ Tensor Normalize::apply(const Tensor& input) const {
     for (size_t i = 0; i < plane; ++i) { base[i] = (base[i] - m) / s; }
   }
 
-  return input;
+  return out;
 }
 
 // ========================= BasicImageTransform =========================
-- 
2.43.0


From 4a00e34c578514622e840d1fa102bfb0ee279298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 112/210] fix: refuse when an image cannot be written

---
 mllm/preprocessor/visual/Image.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mllm/preprocessor/visual/Image.cpp b/mllm/preprocessor/visual/Image.cpp
index a673348..0caf150 100644
--- a/mllm/preprocessor/visual/Image.cpp
+++ b/mllm/preprocessor/visual/Image.cpp
@@ -72,15 +72,17 @@ void Image::save(const std::string& fp) {
   if (!ext.empty() && ext[0] == '.') { ext = ext.substr(1); }
   std::ranges::transform(ext, ext.begin(), ::tolower);
 
+  int ok = 0;
   if (ext == "png") {
-    stbi_write_png(fp.c_str(), w_, h_, c_, image_ptr_->ptr_, w_ * c_);
+    ok = stbi_write_png(fp.c_str(), w_, h_, c_, image_ptr_->ptr_, w_ * c_);
   } else if (ext == "jpg" || ext == "jpeg") {
-    stbi_write_jpg(fp.c_str(), w_, h_, c_, image_ptr_->ptr_, 95);
+    ok = stbi_write_jpg(fp.c_str(), w_, h_, c_, image_ptr_->ptr_, 95);
   } else if (ext == "bmp") {
-    stbi_write_bmp(fp.c_str(), w_, h_, c_, image_ptr_->ptr_);
+    ok = stbi_write_bmp(fp.c_str(), w_, h_, c_, image_ptr_->ptr_);
   } else {
     MLLM_ERROR_EXIT(ExitCode::kIOError, "Unsupported image format: {}", ext);
   }
+  if (!ok) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Can't write image: {}", fp); }
 }
 
 Tensor Image::tensor() {
-- 
2.43.0


From 7073398cb81fa23895f32b9757581ee5159c4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 113/210] fix: slices of an image do not go through shared
 temporary files

---
 .../image_preprocessor_minicpmo.hpp           | 22 +------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/image_preprocessor_minicpmo.hpp b/mllm/models/minicpm_o2_6/image_preprocessor_minicpmo.hpp
index c19a3be..e571622 100644
--- a/mllm/models/minicpm_o2_6/image_preprocessor_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/image_preprocessor_minicpmo.hpp
@@ -136,7 +136,6 @@ class ImageSliceProcessor {
     // Get source image properties
     int src_width = image.w();
     int src_height = image.h();
-    int src_channels = image.c();
 
     // Ensure crop bounds are valid
     x = std::max(0, std::min(x, src_width - 1));
@@ -144,26 +143,7 @@ class ImageSliceProcessor {
     crop_width = std::min(crop_width, src_width - x);
     crop_height = std::min(crop_height, src_height - y);
 
-    unsigned char* src_data = image.ptr();
-    unsigned char* crop_data = new unsigned char[crop_width * crop_height * src_channels];
-
-    // Copy pixel data row by row
-    for (int row = 0; row < crop_height; ++row) {
-      int src_row_offset = ((y + row) * src_width + x) * src_channels;
-      int crop_row_offset = row * crop_width * src_channels;
-      std::memcpy(crop_data + crop_row_offset, src_data + src_row_offset, crop_width * src_channels);
-    }
-
-    // Create a temporary file to save cropped data and load as Image
-    std::string temp_path = "/tmp/crop_" + std::to_string(rand()) + ".png";
-    stbi_write_png(temp_path.c_str(), crop_width, crop_height, src_channels, crop_data, crop_width * src_channels);
-
-    Image cropped_image = Image::open(temp_path);
-
-    delete[] crop_data;
-    std::remove(temp_path.c_str());
-
-    return cropped_image;
+    return image.crop(x, y, x + crop_width, y + crop_height);
   }
 
  private:
-- 
2.43.0


From 858cb69beabd64b62e1424941648878e2dd72409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:55 +0000
Subject: [PATCH 114/210] fix: a periodic Hann window has its period

---
 mllm/models/minicpm_o2_6/audio_preprocessor_minicpmo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/audio_preprocessor_minicpmo.hpp b/mllm/models/minicpm_o2_6/audio_preprocessor_minicpmo.hpp
index 01ca31f..7803f58 100644
--- a/mllm/models/minicpm_o2_6/audio_preprocessor_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/audio_preprocessor_minicpmo.hpp
@@ -48,9 +48,9 @@ inline Tensor create_hann_window(int32_t window_length, bool periodic = true) {
 
   for (int32_t i = 0; i < window_length; ++i) {
     // Hann window formula: 0.5 - 0.5 * cos(2π * n / (N-1))
-    // For periodic: use N instead of N-1
+    // where N is the window's length, one more if periodic
     float n = static_cast<float>(i);
-    float denominator = periodic ? static_cast<float>(length) : static_cast<float>(length - 1);
+    float denominator = static_cast<float>(length - 1);
     window_ptr[i] = 0.5f - 0.5f * std::cos(2.0f * M_PI * n / denominator);
   }
 
-- 
2.43.0


From 8ea4bc9b2f6e8cafc25f84352231cc15f40cbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 115/210] fix: symbolic expressions are parsed by precedence,
 and refused when malformed

---
 mllm/compile/symbolic_expr/Parser.cpp | 97 +++++++++++----------------
 mllm/compile/symbolic_expr/Parser.hpp | 11 ++-
 2 files changed, 45 insertions(+), 63 deletions(-)

diff --git a/mllm/compile/symbolic_expr/Parser.cpp b/mllm/compile/symbolic_expr/Parser.cpp
index a6f3eda..7a2d5dc 100644
--- a/mllm/compile/symbolic_expr/Parser.cpp
+++ b/mllm/compile/symbolic_expr/Parser.cpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cstdlib>
 #include <memory>
+#include <stdexcept>
 
 #include "mllm/compile/symbolic_expr/Parser.hpp"
 #include "mllm/compile/symbolic_expr/AST.hpp"
@@ -14,7 +15,7 @@ SymbolExprTokenDic::SymbolExprTokenDic() {
   // add operators
   ADD_TOKEN("+", Operators, Plus, 10);
   ADD_TOKEN("-", Operators, Minus, 10);
-  ADD_TOKEN("%", Operators, Mod, 10);
+  ADD_TOKEN("%", Operators, Mod, 20);
   ADD_TOKEN("*", Operators, Multiply, 20);
   ADD_TOKEN("/", Operators, Divide, 20);
 
@@ -241,69 +242,58 @@ void SymbolExprLexer::addToCharBuffer(char c) { char_buffer_.push_back(c); }
 void SymbolExprLexer::clearCharBuffer() { char_buffer_.clear(); }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parse() {
-  auto token = getNextToken();
-  expr_ast_ptr_t ret = nullptr;
-  while (token.type_ != SymbolExprTokenType::Eof) {
-    ret = parseExpr(ret);
-    token = getNextToken();
-  }
+  (void)getNextToken();
+  auto ret = parseExpr(0);
+  if (getToken().type_ != SymbolExprTokenType::Eof) { unexpectedToken(); }
   return ret;
 }
 
-SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseExpr(expr_ast_ptr_t& prev_expr) {
-  expr_ast_ptr_t ret = nullptr;
-  auto token = getToken();
-  switch (token.type_) {
+// All parse functions start at the current token, and leave the current token behind what they parsed.
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseExpr(int32_t min_precedence) {
+  auto lhs_expr = parsePrimaryExpr();
+
+  // All binary operators are left associative.
+  while (getToken().type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(getToken()) >= min_precedence) {
+    auto binary_op = getToken();
+    (void)getNextToken();
+    auto rhs_expr = parseExpr(lexer_->getPrecedence(binary_op) + 1);
+    lhs_expr = std::make_shared<BinaryExprAST>(binary_op.token_v_, lhs_expr, rhs_expr);
+  }
+
+  return lhs_expr;
+}
+
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parsePrimaryExpr() {
+  switch (getToken().type_) {
     case SymbolExprTokenType::Int:
-    case SymbolExprTokenType::FP: ret = parseNumberLiteralExpr(); break;
+    case SymbolExprTokenType::FP: return parseNumberLiteralExpr();
     case SymbolExprTokenType::Keywords:
       // FIXME: currently, all keywords is unary operator. fix it to support multi
       // inputs with args and rets.
-      ret = parseUnaryExpr();
-      break;
-    case SymbolExprTokenType::Delimiter: ret = parseGroupedExpr(); break;
-    case SymbolExprTokenType::Operators:
-      // FIXME: currently, all operators is binary operator
-      ret = parseBinaryExpr(prev_expr);
-      break;
-    case SymbolExprTokenType::Identifier: ret = parseVarExpr(); break;
+      return parseUnaryExpr();
+    case SymbolExprTokenType::Delimiter: return parseGroupedExpr();
+    case SymbolExprTokenType::Identifier: return parseVarExpr();
     default: break;
   }
-  return ret;
+  // FIXME: currently, all operators is binary operator
+  unexpectedToken();
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseGroupedExpr() {
-  auto token = getNextToken();
-  expr_ast_ptr_t ret = nullptr;
-  while (token.token_v_ != SymbolExprTokenValue::ParenthesesClose) {
-    ret = parseExpr(ret);
-    token = getNextToken();
-  }
-
-  // ')' has already consumed by while loop.
-
+  if (getToken().token_v_ != SymbolExprTokenValue::ParenthesesOpen) { unexpectedToken(); }
+  (void)getNextToken();
+  auto ret = parseExpr(0);
+  if (getToken().token_v_ != SymbolExprTokenValue::ParenthesesClose) { unexpectedToken(); }
+  (void)getNextToken();
   return ret;
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseVarExpr() {
   auto token = getToken();
-  return std::make_shared<VarAST>(token.str_v_);
-}
-
-SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseBinaryExpr(expr_ast_ptr_t& prev_expr) {
-  auto binary_op = getToken();
-
+  // characters unknown to the lexer have no variable's name
+  if (token.str_v_.empty()) { unexpectedToken(); }
   (void)getNextToken();
-  auto rhs_expr = parseExpr(prev_expr);
-
-  // look ahead, LL(1)
-  auto next_op = lookOneMoreToken();
-  if (next_op.type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(next_op) > lexer_->getPrecedence(binary_op)) {
-    (void)getNextToken();
-    rhs_expr = parseBinaryExpr(rhs_expr);
-  }
-
-  return std::make_shared<BinaryExprAST>(binary_op.token_v_, prev_expr, rhs_expr);
+  return std::make_shared<VarAST>(token.str_v_);
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseUnaryExpr() {
@@ -318,6 +308,7 @@ SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseUnaryExpr() {
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseNumberLiteralExpr() {
   auto token = getToken();
+  (void)getNextToken();
   if (token.type_ == SymbolExprTokenType::Int) {
     return std::make_shared<IntLiteralAST>(token.int_v_);
   } else if (token.type_ == SymbolExprTokenType::FP) {
@@ -326,21 +317,15 @@ SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseNumberLiteralExpr() {
   return nullptr;
 }
 
-SymbolExprToken SymbolExprParser::lookOneMoreToken() {
-  auto ret = lexer_->getNextToken();
-  token_buffer_.push(ret);
-  return ret;
+void SymbolExprParser::unexpectedToken() {
+  const auto token = getToken();
+  throw std::runtime_error("Symbolic expression: unexpected "
+                           + (token.type_ == SymbolExprTokenType::Eof ? std::string("end") : "'" + token.name_ + "'"));
 }
 
 SymbolExprToken SymbolExprParser::getToken() { return cur_token_; }
 
 SymbolExprToken SymbolExprParser::getNextToken() {
-  if (!token_buffer_.empty()) {
-    auto ret = token_buffer_.front();
-    token_buffer_.pop();
-    cur_token_ = ret;
-    return ret;
-  }
   auto ret = lexer_->getNextToken();
   cur_token_ = ret;
   return ret;
diff --git a/mllm/compile/symbolic_expr/Parser.hpp b/mllm/compile/symbolic_expr/Parser.hpp
index 7477762..2871c00 100644
--- a/mllm/compile/symbolic_expr/Parser.hpp
+++ b/mllm/compile/symbolic_expr/Parser.hpp
@@ -4,7 +4,6 @@
 #pragma once
 
 #include <cstdint>
-#include <queue>
 #include <sstream>
 #include <string>
 #include <tuple>
@@ -119,27 +118,25 @@ class SymbolExprParser {
   expr_ast_ptr_t parse();
 
  private:
-  expr_ast_ptr_t parseExpr(expr_ast_ptr_t& prev_expr);
+  expr_ast_ptr_t parseExpr(int32_t min_precedence);
+
+  expr_ast_ptr_t parsePrimaryExpr();
 
   expr_ast_ptr_t parseGroupedExpr();
 
   expr_ast_ptr_t parseVarExpr();
 
-  expr_ast_ptr_t parseBinaryExpr(expr_ast_ptr_t& prev_expr);
-
   expr_ast_ptr_t parseUnaryExpr();
 
   expr_ast_ptr_t parseNumberLiteralExpr();
 
-  SymbolExprToken lookOneMoreToken();
+  [[noreturn]] void unexpectedToken();
 
   SymbolExprToken getToken();
 
   SymbolExprToken getNextToken();
 
  private:
-  // token buffer for look ahead, just look 1 more token is enough. Like LL(1)
-  std::queue<SymbolExprToken> token_buffer_;
   SymbolExprToken cur_token_;
   SymbolExprLexer* lexer_ = nullptr;
 };
-- 
2.43.0


From 079ed0d83ad9f3a49b33a429e60b0a96b5b7b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 116/210] fix: evaluating a symbolic expression refuses a
 variable without a value

---
 mllm/compile/symbolic_expr/AST.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mllm/compile/symbolic_expr/AST.hpp b/mllm/compile/symbolic_expr/AST.hpp
index 300c5ee..46f81b0 100644
--- a/mllm/compile/symbolic_expr/AST.hpp
+++ b/mllm/compile/symbolic_expr/AST.hpp
@@ -8,6 +8,7 @@
 #include <cstdlib>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <unordered_map>
@@ -210,7 +211,11 @@ class VarAST final : public SymbolExprAST {
     fmt::print("var = {}\n", var_name_);
   }
 
-  float eval(const std::unordered_map<std::string, float>& var_values) override { return var_values.find(var_name_)->second; }
+  float eval(const std::unordered_map<std::string, float>& var_values) override {
+    auto iter = var_values.find(var_name_);
+    if (iter == var_values.end()) { throw std::runtime_error("Symbolic expression: variable '" + var_name_ + "' has no value"); }
+    return iter->second;
+  }
 
   void str(std::stringstream& ss) override { ss << var_name_; }
 
-- 
2.43.0


From 71ba407b8d32770d893169591c263704ca443f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 117/210] fix: a symbolic modulo by zero is refused

---
 mllm/compile/symbolic_expr/AST.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mllm/compile/symbolic_expr/AST.hpp b/mllm/compile/symbolic_expr/AST.hpp
index 46f81b0..5909ec9 100644
--- a/mllm/compile/symbolic_expr/AST.hpp
+++ b/mllm/compile/symbolic_expr/AST.hpp
@@ -105,9 +105,12 @@ class BinaryExprAST final : public SymbolExprAST {
       case SymbolExprTokenValue::Minus: value_ = lhs_v - rhs_v; break;
       case SymbolExprTokenValue::Multiply: value_ = lhs_v * rhs_v; break;
       case SymbolExprTokenValue::Divide: value_ = lhs_v / rhs_v; break;
-      case SymbolExprTokenValue::Mod:
-        value_ = static_cast<float>(static_cast<int32_t>(lhs_v) % static_cast<int32_t>(rhs_v));
+      case SymbolExprTokenValue::Mod: {
+        const auto divisor = static_cast<int64_t>(rhs_v);
+        if (divisor == 0) { throw std::runtime_error("Symbolic expression: modulo by zero"); }
+        value_ = static_cast<float>(static_cast<int64_t>(lhs_v) % divisor);
         break;
+      }
       default: break;
     }
     return value_;
-- 
2.43.0


From 425b09d487ec396bca502c0cd4568e347462cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 118/210] fix: symbolic literals that are no numbers are
 refused

---
 mllm/compile/symbolic_expr/Parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mllm/compile/symbolic_expr/Parser.cpp b/mllm/compile/symbolic_expr/Parser.cpp
index 7a2d5dc..72ed7a0 100644
--- a/mllm/compile/symbolic_expr/Parser.cpp
+++ b/mllm/compile/symbolic_expr/Parser.cpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 
 #include <cctype>
+#include <charconv>
 #include <cstdlib>
 #include <memory>
 #include <stdexcept>
@@ -123,7 +124,11 @@ int32_t SymbolExprLexer::getPrecedence(const SymbolExprToken& t) {
 void SymbolExprLexer::handleInt() {
   // exponent is not supported.
   // int: 12, 1, 20, etc
-  int32_t v = atoi(char_buffer_.c_str());
+  int32_t v = 0;
+  const auto* end = char_buffer_.data() + char_buffer_.size();
+  if (std::from_chars(char_buffer_.data(), end, v).ec != std::errc{}) {
+    throw std::runtime_error("Symbolic expression: integer '" + char_buffer_ + "' is out of range");
+  }
   cur_token_ = {SymbolExprTokenType::Int, SymbolExprTokenValue::I32, v};
   cur_token_.name_ = char_buffer_;
 }
@@ -131,6 +136,7 @@ void SymbolExprLexer::handleInt() {
 void SymbolExprLexer::handleFP() {
   // exponent is not supported.
   // float: 0.0, 0.12, 12.2, .12, etc
+  if (char_buffer_ == ".") { throw std::runtime_error("Symbolic expression: '.' is not a number"); }
   float v = static_cast<float>(atof(char_buffer_.c_str()));
   cur_token_ = {SymbolExprTokenType::FP, SymbolExprTokenValue::F32, v};
   cur_token_.name_ = char_buffer_;
-- 
2.43.0


From d816e79764fccf7f30e17263d4b1cc6118a58d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 119/210] fix: a config file that cannot be opened or parsed is
 reported as documented

---
 mllm/engine/ConfigFile.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mllm/engine/ConfigFile.cpp b/mllm/engine/ConfigFile.cpp
index fa14222..7721f09 100644
--- a/mllm/engine/ConfigFile.cpp
+++ b/mllm/engine/ConfigFile.cpp
@@ -8,20 +8,16 @@
 
 namespace mllm {
 
-ConfigFile::ConfigFile(const std::string& file_path) {
-  std::ifstream file(file_path);
-  if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to open config file: {}", file_path); }
-  json_ = nlohmann::json::parse(file);
-}
+ConfigFile::ConfigFile(const std::string& file_path) { load(file_path); }
 
 // Loads the configuration from a file.
 void ConfigFile::load(const std::string& file_path) {
   std::ifstream file(file_path);
-  if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to open config file: {}", file_path); }
+  if (!file.is_open()) { throw std::runtime_error("Failed to open config file: " + file_path); }
 
   try {
-    // The nlohmann::json stream operator overload handles parsing directly.
-    file >> json_;
+    // Unlike the stream operator, parse() reads the whole file.
+    json_ = nlohmann::json::parse(file);
   } catch (const nlohmann::json::parse_error& e) {
     throw std::runtime_error("JSON parse error in file " + file_path + ": " + e.what());
   }
-- 
2.43.0


From ed85750033aa4aee2fb02a5825679d9922d1eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 120/210] fix: a config file that could not be written is
 reported

---
 mllm/engine/ConfigFile.cpp | 2 ++
 mllm/engine/ConfigFile.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/ConfigFile.cpp b/mllm/engine/ConfigFile.cpp
index 7721f09..85e81d9 100644
--- a/mllm/engine/ConfigFile.cpp
+++ b/mllm/engine/ConfigFile.cpp
@@ -45,6 +45,8 @@ void ConfigFile::save(const std::string& file_path) {
   if (!file.is_open()) { throw std::runtime_error("Failed to open file for saving: " + file_path); }
   // Write the pretty-printed version of the JSON to the file.
   file << dump();
+  file.close();
+  if (!file) { throw std::runtime_error("Failed to write config file: " + file_path); }
 }
 
 }  // namespace mllm
diff --git a/mllm/engine/ConfigFile.hpp b/mllm/engine/ConfigFile.hpp
index 8e84178..f4e9d6d 100644
--- a/mllm/engine/ConfigFile.hpp
+++ b/mllm/engine/ConfigFile.hpp
@@ -54,7 +54,7 @@ class ConfigFile {
   /**
    * @brief Saves the current configuration to a file.
    * @param file_path Path to the file where the JSON data will be saved.
-   * @throws std::runtime_error if the file cannot be opened for writing.
+   * @throws std::runtime_error if the file cannot be opened or written.
    */
   void save(const std::string& file_path);
 
-- 
2.43.0


From c4e2b160f129508c5deb06a526292a1e6329baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 121/210] fix: a symbolic literal has one dot

---
 mllm/compile/symbolic_expr/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/compile/symbolic_expr/Parser.cpp b/mllm/compile/symbolic_expr/Parser.cpp
index 72ed7a0..169deac 100644
--- a/mllm/compile/symbolic_expr/Parser.cpp
+++ b/mllm/compile/symbolic_expr/Parser.cpp
@@ -163,12 +163,12 @@ void SymbolExprLexer::handleNumberState() {
   auto isOk = [&]() -> bool {
     if (has_one_dot && cur_char_ == '.') {
       // find multiple dot.
-      // FIXME: log an error
-      exit(-1);
+      throw std::runtime_error("Symbolic expression: '" + char_buffer_ + ".' is not a number");
     }
     if (!has_one_dot && cur_char_ == '.') {
       is_float = true;
       is_int = false;
+      has_one_dot = true;
       return true;
     }
     if (std::isdigit(cur_char_)) { return true; }
-- 
2.43.0


From 9a4c34dfe74f42070eff612445fdc8317ecbb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 122/210] fix: match Qwen3-VL image grids to image blocks, not
 to stray vision_start tokens

---
 pymllm/models/qwen3_vl.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 062b800..023fb62 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -640,7 +640,14 @@ def get_rope_index(
     while i < total_tokens:
         token = input_ids_cpu[i]
 
-        if token == vision_start_token_id and image_idx < len(grid_thw_list):
+        # An image block is a vision_start directly followed by image tokens; a
+        # vision_start that merely appears in the text is an ordinary token.
+        if (
+            token == vision_start_token_id
+            and image_idx < len(grid_thw_list)
+            and i + 1 < total_tokens
+            and input_ids_cpu[i + 1] == image_token_id
+        ):
             # The vision_start token itself gets a regular sequential position.
             position_ids[:, i] = llm_pos_ids_start
             llm_pos_ids_start += 1
@@ -1176,7 +1183,14 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                 seq_ids = input_ids[start : start + length]
 
                 # Determine how many images belong to this sequence.
-                num_img = int((seq_ids == self.vision_start_token_id).sum().item())
+                num_img = int(
+                    (
+                        (seq_ids[:-1] == self.vision_start_token_id)
+                        & (seq_ids[1:] == self.image_token_id)
+                    )
+                    .sum()
+                    .item()
+                )
                 if image_grid_thw is not None and num_img > 0:
                     thw_seq = image_grid_thw[
                         image_idx_offset : image_idx_offset + num_img
-- 
2.43.0


From f7c23a2bdee9601e2d61a8fa05612c9e726883f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 123/210] fix: do not apply the text model's norm epsilon to
 the Qwen3-VL vision encoder

---
 pymllm/models/qwen3_vl.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 023fb62..2d50597 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -1078,7 +1078,6 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                 deepstack_visual_indexes=getattr(
                     vision_config, "deepstack_visual_indexes", [8, 16, 24]
                 ),
-                norm_eps=getattr(text_config, "rms_norm_eps", 1e-6),
             )
         else:
             self.visual = None
-- 
2.43.0


From f62cf796d366473d83e7375b7fba4651bc5dad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 124/210] fix: load the attention biases of a Qwen3-VL text
 model

---
 pymllm/models/qwen3_vl.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 2d50597..3efd8d4 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -726,6 +726,7 @@ class Qwen3VLAttention(nn.Module):
         mrope_section: Tuple[int, int, int] = (24, 20, 20),
         mrope_interleaved: bool = True,
         max_position_embeddings: int = 32768,
+        attention_bias: bool = False,
         quant_config=None,
         prefix: str = "",
     ):
@@ -752,7 +753,7 @@ class Qwen3VLAttention(nn.Module):
             self.qkv_proj = MergedLinear(
                 hidden_size,
                 [self.q_size, self.kv_size, self.kv_size],
-                bias=False,
+                bias=attention_bias,
                 quant_method=_get_qm("qkv_proj"),
             )
             self.q_proj = None
@@ -761,21 +762,21 @@ class Qwen3VLAttention(nn.Module):
         else:
             self.qkv_proj = None
             self.q_proj = Linear(
-                hidden_size, self.q_size, bias=False,
+                hidden_size, self.q_size, bias=attention_bias,
                 quant_method=_get_qm("q_proj"),
             )
             self.k_proj = Linear(
-                hidden_size, self.kv_size, bias=False,
+                hidden_size, self.kv_size, bias=attention_bias,
                 quant_method=_get_qm("k_proj"),
             )
             self.v_proj = Linear(
-                hidden_size, self.kv_size, bias=False,
+                hidden_size, self.kv_size, bias=attention_bias,
                 quant_method=_get_qm("v_proj"),
             )
 
         # Output projection
         self.o_proj = Linear(
-            num_heads * head_dim, hidden_size, bias=False,
+            num_heads * head_dim, hidden_size, bias=attention_bias,
             quant_method=_get_qm("o_proj"),
         )
 
@@ -869,6 +870,7 @@ class Qwen3VLDecoderLayer(nn.Module):
         mrope_section: Tuple[int, int, int] = (24, 20, 20),
         mrope_interleaved: bool = True,
         max_position_embeddings: int = 32768,
+        attention_bias: bool = False,
         quant_config=None,
         prefix: str = "",
     ):
@@ -884,6 +886,7 @@ class Qwen3VLDecoderLayer(nn.Module):
             mrope_section=mrope_section,
             mrope_interleaved=mrope_interleaved,
             max_position_embeddings=max_position_embeddings,
+            attention_bias=attention_bias,
             quant_config=quant_config,
             prefix=f"{prefix}.self_attn" if prefix else "self_attn",
         )
@@ -939,6 +942,7 @@ class Qwen3VLTextModel(nn.Module):
         mrope_section: Tuple[int, int, int] = (24, 20, 20),
         mrope_interleaved: bool = True,
         max_position_embeddings: int = 32768,
+        attention_bias: bool = False,
         quant_config=None,
     ):
         super().__init__()
@@ -961,6 +965,7 @@ class Qwen3VLTextModel(nn.Module):
                     mrope_section=mrope_section,
                     mrope_interleaved=mrope_interleaved,
                     max_position_embeddings=max_position_embeddings,
+                    attention_bias=attention_bias,
                     quant_config=quant_config,
                     prefix=f"model.layers.{layer_id}",
                 )
@@ -1110,6 +1115,7 @@ class Qwen3VLForConditionalGeneration(nn.Module):
             mrope_section=tuple(mrope_section),
             mrope_interleaved=bool(mrope_interleaved),
             max_position_embeddings=max_position_embeddings,
+            attention_bias=getattr(text_config, "attention_bias", False),
             quant_config=quant_config,
         )
         # LM head — following sglang's pattern: always use lm_head.weight
-- 
2.43.0


From bc8bbdcdd1cfadd6cb0fd212a5b7559d82345e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 125/210] fix: chunk-parallel GDN prefill keeps decays as log
 differences, so an underflowing decay does not zero the output

---
 pymllm/layers/attention/gdn_chunkwise.py | 46 ++++++++++++++----------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/pymllm/layers/attention/gdn_chunkwise.py b/pymllm/layers/attention/gdn_chunkwise.py
index 4d04319..fdcc2ec 100644
--- a/pymllm/layers/attention/gdn_chunkwise.py
+++ b/pymllm/layers/attention/gdn_chunkwise.py
@@ -101,40 +101,49 @@ def _batched_chunk_scan(
     gg = g.view(NC, C, HV).permute(0, 2, 1).reshape(B, C)      # [B, C]
     bb = beta.view(NC, C, HV).permute(0, 2, 1).reshape(B, C)   # [B, C]
 
-    # Cumulative within-chunk decay (log-space cumsum for stability).
+    # Cumulative within-chunk decay, kept in log space: every decay that is
+    # used is the exponential of a difference (<= 0), so that nothing is
+    # divided by a gamma that may have underflowed.
     cumg = torch.cumsum(gg, dim=1)            # [B, C]
     gamma = torch.exp(cumg)                   # [B, C]
     gammaC = torch.exp(cumg[:, -1])           # [B]
+    decay = torch.exp(
+        torch.tril(cumg.unsqueeze(2) - cumg.unsqueeze(1))
+    )                                         # [B, C(r), C(j)]: gamma_r / gamma_j
+    to_end = torch.exp(cumg[:, -1:] - cumg).unsqueeze(-1)   # gamma_C / gamma_j
 
     BK = bb.unsqueeze(-1) * Kc                 # [B, C, K]
-    # Guard β/γ overflow when γ underflows (matches CUDA kernel OPT-3: the
-    # contribution γ_r·ũ_t is below FP32 precision anyway, so set Ũ[t]=0).
-    inv_gamma = torch.where(gamma > 1e-30, 1.0 / gamma, torch.zeros_like(gamma))
-    BV = (bb * inv_gamma).unsqueeze(-1) * Vc   # [B, C, V]
+    BV = bb.unsqueeze(-1) * Vc                 # [B, C, V]
 
-    # WY transform via unit-lower-triangular solve:  (I + tril(BK·Kᵀ,-1)) W = BK
-    A = torch.tril(torch.bmm(BK, Kc.transpose(1, 2)), diagonal=-1)   # [B, C, C]
+    # WY transform via unit-lower-triangular solve:
+    # (I + tril(BK·Kᵀ ⊙ decay, -1)) [W, U] = [gamma ⊙ BK, BV]
+    A = torch.tril(torch.bmm(BK, Kc.transpose(1, 2)) * decay, diagonal=-1)   # [B, C, C]
     M = torch.eye(C, device=device, dtype=A.dtype).unsqueeze(0) + A
-    W = torch.linalg.solve_triangular(M, BK, upper=False, unitriangular=True)  # [B,C,K]
+    W = torch.linalg.solve_triangular(
+        M, gamma.unsqueeze(-1) * BK, upper=False, unitriangular=True
+    )                                          # [B, C, K]
     U = torch.linalg.solve_triangular(M, BV, upper=False, unitriangular=True)  # [B,C,V]
 
-    # Causal K·Q (keep j <= r).
-    KQ = torch.triu(torch.bmm(Kc, Q.transpose(1, 2)))   # [B, C(j), C(r)]
+    # Causal K·Q (keep j <= r), decayed from j to r.
+    KQ = torch.triu(
+        torch.bmm(Kc, Q.transpose(1, 2)) * decay.transpose(1, 2)
+    )                                           # [B, C(j), C(r)]
 
-    Qt = Q.transpose(1, 2)                      # [B, K, C]
+    Qt = (gamma.unsqueeze(-1) * Q).transpose(1, 2)   # [B, K, C]
     Wt = W.transpose(1, 2)                       # [B, K, C]
     Ut = U.transpose(1, 2)                        # [B, V, C]
+    Kend = to_end * Kc                            # [B, C, K]
 
     # State-independent precompute (fully batched across chunks & heads).
     P = Qt - torch.bmm(Wt, KQ)                    # [B, K, C]
     O_intra = torch.bmm(Ut, KQ)                   # [B, V, C]
-    Astate = torch.eye(K, device=device, dtype=Wt.dtype).unsqueeze(0) \
-        - torch.bmm(Wt, Kc)                       # [B, K, K]
-    UtK = torch.bmm(Ut, Kc)                       # [B, V, K]
+    Astate = gammaC.view(B, 1, 1) * torch.eye(
+        K, device=device, dtype=Wt.dtype
+    ) - torch.bmm(Wt, Kend)                       # [B, K, K]
+    UtK = torch.bmm(Ut, Kend)                     # [B, V, K]
 
     Astate_c = Astate.view(NC, HV, K, K)
     UtK_c = UtK.view(NC, HV, V, K)
-    gammaC_c = gammaC.view(NC, HV, 1, 1)
 
     # Sequential pass: only propagate the chunk-entry states (cheap, NC steps).
     # The per-token outputs are then computed in a single batched matmul, which
@@ -143,11 +152,10 @@ def _batched_chunk_scan(
     S = S0
     for c in range(NC):
         Sall[c] = S
-        S = gammaC_c[c] * (torch.bmm(S, Astate_c[c]) + UtK_c[c])
+        S = torch.bmm(S, Astate_c[c]) + UtK_c[c]
 
-    # O_c = gamma_c ⊙ (S_c @ P_c + O_intra)   — all chunks at once.
-    SP = torch.bmm(Sall.reshape(B, V, K), P)            # [B, V, C]
-    out = gamma.view(B, 1, C) * (SP + O_intra)          # [B, V, C]
+    # O_c = S_c @ P_c + O_intra   — all chunks at once.
+    out = torch.bmm(Sall.reshape(B, V, K), P) + O_intra   # [B, V, C]
     out = out.view(NC, HV, V, C).permute(0, 3, 1, 2).reshape(Lp, HV, V)[:L]
     return out, S
 
-- 
2.43.0


From a4ac8ce7f4745d53e666eb4548bdbbdfdf989800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 126/210] fix: load an untied lm_head of a Qwen3.5 checkpoint

---
 pymllm/models/qwen3_5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 8d458c6..6eef0d1 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -1059,6 +1059,9 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
             if "visual" in name or "model.visual" in name:
                 name = name.replace("model.visual.", "visual.")
                 visual_weights.append((name, weight))
+            elif name == "lm_head.weight":
+                # lm_head lives on this module, not on the language model
+                self.lm_head.weight.data.copy_(weight)
             else:
                 language_weights.append((name, weight))
 
-- 
2.43.0


From a50e8669a93f5a8e1e56d86368138699daf9a0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 127/210] fix: serve a text-only Qwen3.5 checkpoint through the
 model that has an lm_head

---
 pymllm/models/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/models/__init__.py b/pymllm/models/__init__.py
index 00ed272..1649923 100644
--- a/pymllm/models/__init__.py
+++ b/pymllm/models/__init__.py
@@ -26,9 +26,11 @@ _MODEL_REGISTRY: Dict[str, Tuple[str, str]] = {
         "Qwen3VLForConditionalGeneration",
     ),
     # Qwen3.5 (hybrid attention: full + GDN linear)
+    # A text-only checkpoint has no vision_config; the class named like it in
+    # qwen3_5.py is the backbone, which returns hidden states.
     "Qwen3_5ForCausalLM": (
         "pymllm.models.qwen3_5",
-        "Qwen3_5ForCausalLM",
+        "Qwen3_5ForConditionalGeneration",
     ),
     "Qwen3_5ForConditionalGeneration": (
         "pymllm.models.qwen3_5",
-- 
2.43.0


From cf40471f6e4b5c7bf69bca4b6207cd16dff53dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 128/210] fix: match Qwen3.5 image grids to image blocks, not
 to stray vision_start tokens

---
 pymllm/models/qwen3_5.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 6eef0d1..b826264 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -837,7 +837,14 @@ def get_rope_index_qwen3_5(
     i = 0
 
     while i < total:
-        if ids[i] == vision_start_token_id and img_idx < len(grids):
+        # An image block is a vision_start directly followed by image tokens; a
+        # vision_start that merely appears in the text is an ordinary token.
+        if (
+            ids[i] == vision_start_token_id
+            and img_idx < len(grids)
+            and i + 1 < total
+            and ids[i + 1] == image_token_id
+        ):
             # vision_start token → regular sequential position
             pos[:, i] = cur
             cur += 1
@@ -973,7 +980,14 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
                     if forward_batch.extend_prefix_lens is not None else 0
 
                 # Determine how many images belong to this sequence.
-                num_img = int((seq_ids == self.vision_start_token_id).sum().item())
+                num_img = int(
+                    (
+                        (seq_ids[:-1] == self.vision_start_token_id)
+                        & (seq_ids[1:] == self.image_token_id)
+                    )
+                    .sum()
+                    .item()
+                )
                 if image_grid_thw is not None and num_img > 0:
                     thw_seq = image_grid_thw[
                         image_idx_offset : image_idx_offset + num_img
-- 
2.43.0


From bc20cf794d505eb7f7c84c23d7e997c30ab126ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 129/210] fix: take Qwen3.5's layer types and partial rotary
 factor from where its configuration states them

---
 pymllm/models/qwen3_5.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index b826264..34e004f 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -51,6 +51,12 @@ def _get_layer_types(config) -> List[str]:
     """Return per-layer type list: 'attention' or 'linear_attention'."""
     if hasattr(config, "layers_block_type"):
         return config.layers_block_type
+    layer_types = getattr(config, "layer_types", None)
+    if layer_types:
+        return [
+            "linear_attention" if t == "linear_attention" else "attention"
+            for t in layer_types
+        ]
     # Compute from full_attention_interval
     interval = getattr(config, "full_attention_interval", 2)
     n_layers = config.num_hidden_layers
@@ -109,8 +115,10 @@ class Qwen3_5FullAttention(nn.Module):
         self.k_norm = GemmaRMSNorm(self.head_dim, eps=tc.rms_norm_eps)
 
         # RoPE config
-        self.partial_rotary_factor = getattr(tc, "partial_rotary_factor", 1.0)
         rope_config = getattr(tc, "rope_parameters", None) or getattr(tc, "rope_scaling", None) or {}
+        self.partial_rotary_factor = rope_config.get(
+            "partial_rotary_factor", getattr(tc, "partial_rotary_factor", 1.0)
+        )
         self.rope_theta = rope_config.get("rope_theta", getattr(tc, "rope_theta", 10000.0))
         self.rotary_dim = int(self.head_dim * self.partial_rotary_factor)
 
-- 
2.43.0


From 62fd5e9494fc9abd0eed492731d456da0c6cb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 130/210] fix: rotate Qwen3.5 image tokens by all three M-RoPE
 positions

---
 pymllm/models/qwen3_5.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 34e004f..b2391e9 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -31,7 +31,7 @@ from pymllm.layers.gated_delta_net import GatedDeltaNet
 from pymllm.layers.linear import Linear
 from pymllm.layers.mlp import MLP
 from pymllm.layers.rms_norm import GemmaRMSNorm, RMSNorm
-from pymllm.layers.rope import apply_rope_pos_ids
+from pymllm.layers.rope import apply_mrope_fused_, apply_rope_pos_ids
 from pymllm.layers.utils import set_weight_attrs
 
 logger = logging.getLogger(__name__)
@@ -121,6 +121,8 @@ class Qwen3_5FullAttention(nn.Module):
         )
         self.rope_theta = rope_config.get("rope_theta", getattr(tc, "rope_theta", 10000.0))
         self.rotary_dim = int(self.head_dim * self.partial_rotary_factor)
+        self.mrope_section = rope_config.get("mrope_section")
+        self.mrope_interleaved = rope_config.get("mrope_interleaved", True)
 
         # RadixAttention layer — delegates to the pluggable attention backend
         self.attn = RadixAttention(
@@ -131,6 +133,23 @@ class Qwen3_5FullAttention(nn.Module):
             layer_id=layer_id,
         )
 
+    def _apply_mrope(
+        self, q: torch.Tensor, k: torch.Tensor, positions: torch.Tensor
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """M-RoPE by ``[3, T]`` positions (they differ for image tokens)."""
+        inv_freq = 1.0 / (
+            self.rope_theta ** (
+                torch.arange(0, self.rotary_dim, 2, dtype=torch.float32, device=q.device)
+                / self.rotary_dim
+            )
+        )
+        freqs = torch.outer(positions.reshape(-1).float(), inv_freq)
+        cos_sin = torch.cat([freqs.cos(), freqs.sin()], dim=-1).to(q.dtype)
+        rows = torch.arange(positions.numel(), device=q.device).view(3, -1)
+        return apply_mrope_fused_(
+            q, k, rows, cos_sin, self.mrope_section, self.mrope_interleaved
+        )
+
     def forward(
         self,
         positions: torch.Tensor,
@@ -157,10 +176,15 @@ class Qwen3_5FullAttention(nn.Module):
         # RoPE (inplace; rotary_dim handles partial rotation)
         q = q.view(seq_len, self.num_heads, self.head_dim)
         k = k.view(seq_len, self.num_kv_heads, self.head_dim)
-        apply_rope_pos_ids(
-            q, k, positions, inplace=True,
-            rotary_dim=self.rotary_dim, rope_theta=self.rope_theta,
-        )
+        if positions.ndim == 2 and self.mrope_section is not None:
+            q, k = self._apply_mrope(q, k, positions)
+        else:
+            if positions.ndim == 2:
+                positions = positions[0].contiguous()
+            apply_rope_pos_ids(
+                q, k, positions, inplace=True,
+                rotary_dim=self.rotary_dim, rope_theta=self.rope_theta,
+            )
         q = q.reshape(seq_len, -1)
         k = k.reshape(seq_len, -1)
 
@@ -1017,6 +1041,8 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
 
             # Concatenate across sequences: [3, total_extend_tokens]
             positions = torch.cat(mrope_positions_list, dim=1).contiguous()
+            if image_grid_thw is None:
+                positions = positions[0]  # text only: the three axes agree
             forward_batch.mrope_position_deltas = torch.tensor(
                 deltas, dtype=torch.int64, device=input_ids.device
             )
@@ -1028,7 +1054,7 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
                 pos_1d = forward_batch.positions + stored_deltas
             else:
                 pos_1d = forward_batch.positions
-            positions = pos_1d.unsqueeze(0).expand(3, -1).contiguous()  # [3, batch_size]
+            positions = pos_1d  # the three axes agree after the prompt
 
         if (
             pixel_values is not None
-- 
2.43.0


From ea293eb962883e0b7d80fe1238f52b2813e1e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:35 +0000
Subject: [PATCH 131/210] fix: SWA prefix cache must not replace the indices of
 a locked node

insert() freed and replaced the KV indices of a tombstoned node although other
requests held it locked and kept reading those indices.
---
 pymllm/mem_cache/radix_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 22a1d02..54b7aab 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -597,7 +597,8 @@ class RadixCache(BasePrefixCache):
             # Values before prev_prefix_len are the tree's own indices.
             dup_start = max(0, prev_prefix_len - total_prefix)
             if beyond_protected and node.swa_tombstone and dup_start == 0:
-                if swa_evicted_seqlen <= total_prefix:
+                # A locked node keeps its indices: its holders still read them.
+                if swa_evicted_seqlen <= total_prefix and node.lock_ref == 0:
                     self._free_indices(node.value[:plen])
                     node.value = value[:plen].clone()
                     node.swa_tombstone = False
-- 
2.43.0


From 89d91794ff0522c5c5e4f5b2a0c6d0ae26379f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:35 +0000
Subject: [PATCH 132/210] fix: SWA eviction goes on above a tombstoned parent

After removing a tombstoned parent together with its last child, the
grandparent was never considered, so evict() gave back less than asked although
unlocked tokens were left.
---
 pymllm/mem_cache/radix_cache.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 54b7aab..3b87e82 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -314,18 +314,19 @@ class RadixCache(BasePrefixCache):
                 self._delete_leaf(node)
 
                 p = node.parent
-                if (
+                while (
                     p is not None
                     and p != self.root_node
                     and len(p.children) == 0
                     and p.lock_ref == 0
                 ):
-                    if self.supports_swa and p.swa_tombstone:
-                        self._free_indices(p.value)
-                        full_evicted += len(p.value)
-                        self._delete_leaf(p)
-                    else:
+                    if not (self.supports_swa and p.swa_tombstone):
                         heapq.heappush(heap, (p.last_access_time, p))
+                        break
+                    self._free_indices(p.value)
+                    full_evicted += len(p.value)
+                    self._delete_leaf(p)
+                    p = p.parent
 
         # Phase 2: SWA tombstone eviction (internal nodes)
         if self.supports_swa and swa_evicted < swa_num_tokens:
-- 
2.43.0


From 22bbf587f1a6dd87c4c653e192a9157b9cf7b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:35 +0000
Subject: [PATCH 133/210] fix: evicting a tombstoned leaf frees no SWA tokens

Its window KV was already gone; counting it again made evict() stop before the
requested number of SWA tokens was freed.
---
 pymllm/mem_cache/radix_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 3b87e82..62cce4c 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -310,7 +310,8 @@ class RadixCache(BasePrefixCache):
                 n = len(node.value)
                 self._free_indices(node.value)
                 full_evicted += n
-                swa_evicted += n
+                if not node.swa_tombstone:
+                    swa_evicted += n
                 self._delete_leaf(node)
 
                 p = node.parent
-- 
2.43.0


From 032399370a46f243ee3b7cc551e5637d27d03240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 134/210] fix: process groups of different ranks must not share
 a rendezvous

Each rank creates only its own groups, but torch.distributed.new_group expects
every rank to create every group: groups of one axis got the same name and key
prefix, so with several tensor-parallel groups the ranks of different groups
were connected to each other or never got through.
---
 pymllm/orchestrator/group_coordinator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/group_coordinator.py b/pymllm/orchestrator/group_coordinator.py
index 2fec307..a13ed4f 100644
--- a/pymllm/orchestrator/group_coordinator.py
+++ b/pymllm/orchestrator/group_coordinator.py
@@ -32,7 +32,11 @@ class GroupCoordinator:
         
         # Create process group
         if dist.is_initialized() and self.world_size > 1:
-            self.device_group = dist.new_group(ranks, backend=backend)
+            # Each rank creates only the groups it belongs to, so the members
+            # of a group must synchronise among themselves.
+            self.device_group = dist.new_group(
+                ranks, backend=backend, use_local_synchronization=True
+            )
         else:
             self.device_group = None
     
-- 
2.43.0


From 8bcc2af11b49ececbcedf0af2877fd7373f27921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:31 +0000
Subject: [PATCH 135/210] fix: pipeline groups must not run along the
 tensor-parallel ranks

With TP > 1 the pipeline groups were consecutive ranks, i.e. the tensor-parallel
ranks of one stage: every rank's pipeline rank equalled its TP rank and half of
the (tp, pp) grid was held by nobody.
---
 pymllm/orchestrator/parallel_state.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/parallel_state.py b/pymllm/orchestrator/parallel_state.py
index 9fb2087..c1bba18 100644
--- a/pymllm/orchestrator/parallel_state.py
+++ b/pymllm/orchestrator/parallel_state.py
@@ -96,10 +96,14 @@ def initialize_model_parallel(
                 break
 
     if pipeline_model_parallel_size > 1:
+        # Ranks are laid out with TP innermost, then PP, then DP.
         num_pp_groups = world_size // pipeline_model_parallel_size
+        stride = tensor_model_parallel_size
         for i in range(num_pp_groups):
-            start = i * pipeline_model_parallel_size
-            ranks = list(range(start, start + pipeline_model_parallel_size))
+            start = i // stride * stride * pipeline_model_parallel_size + i % stride
+            ranks = list(
+                range(start, start + stride * pipeline_model_parallel_size, stride)
+            )
             if world_rank in ranks:
                 _PP_GROUP = GroupCoordinator(
                     ranks=ranks,
-- 
2.43.0


From c51f0c39467e066eafe7538ce3a5cbe43aeb54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:46 +0000
Subject: [PATCH 136/210] fix: sliding-window layers must see their window
 during prefill

---
 pymllm/layers/attention/flashinfer_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/layers/attention/flashinfer_backend.py b/pymllm/layers/attention/flashinfer_backend.py
index 85b785f..ec68ccd 100644
--- a/pymllm/layers/attention/flashinfer_backend.py
+++ b/pymllm/layers/attention/flashinfer_backend.py
@@ -360,7 +360,9 @@ class FlashInferAttnBackend(AttentionBackend):
             # the ragged wrapper covers the new extend tokens.  No overlap.
             # NOTE: to avoid a FlashInfer edge-case with 1-token ragged
             # extends, _allocate_extend guarantees extend_len >= 2.
-            use_ragged = True
+            # A sliding window spans both parts, so it needs the paged-only
+            # path: one kernel that sees the whole sequence and the window.
+            use_ragged = self.dispatch_reason is None
 
             self.indices_updater_prefill.update(
                 forward_batch.req_pool_indices,
-- 
2.43.0


From 951cdc5987b805307615a6ff06153fc549bdbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:46 +0000
Subject: [PATCH 137/210] fix: a layer without its own K/V attends to the
 batch's tokens, not to the whole pool

---
 pymllm/layers/attention/flashinfer_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymllm/layers/attention/flashinfer_backend.py b/pymllm/layers/attention/flashinfer_backend.py
index ec68ccd..0a137ec 100644
--- a/pymllm/layers/attention/flashinfer_backend.py
+++ b/pymllm/layers/attention/flashinfer_backend.py
@@ -431,12 +431,12 @@ class FlashInferAttnBackend(AttentionBackend):
             # Ragged path: query attends only to the new (ragged) K/V;
             # prefix K/V is in the paged pool.
             if k is None:
-                # Fallback: load K/V from the pool.
+                # Fallback: load the new tokens' K/V from the pool.
                 k_buf, v_buf = forward_batch.token_to_kv_pool.get_kv_buffer(
                     layer.layer_id
                 )
-                k = k_buf
-                v = v_buf
+                k = k_buf[cache_loc]
+                v = v_buf[cache_loc]
 
             k_3d = k.view(-1, layer.tp_k_head_num, layer.head_dim)
             v_3d = v.view(-1, layer.tp_v_head_num, layer.v_head_dim)
-- 
2.43.0


From 332646c4109a3c36d304aacc24518d9aef28c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 138/210] fix: streaming model writer must not write past its
 reserved descriptors

---
 pymllm/mobile/convertor/model_file_v2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 976c044..bd7e65c 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -159,7 +159,11 @@ class ModelFileV2:
 
         tensor_size = len(tensor_data)
 
-        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num
+        if len(self.v2_param_descriptor) >= self.max_params_descriptor_buffer_num:
+            raise RuntimeError(
+                f"No descriptor reserved for {tensor_name}: the file holds "
+                f"{self.max_params_descriptor_buffer_num} parameters"
+            )
         desc = ModelFileV2ParamsDescriptor(
             param_id=len(self.v2_param_descriptor),
             param_type=true_dtype,
-- 
2.43.0


From 2fe860a3a13ec00288a7e2970c446b0d6ab67eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 139/210] fix: write the model name into converted files

---
 pymllm/mobile/convertor/model_file_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index bd7e65c..c510c08 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -112,7 +112,7 @@ class ModelFileV2:
             )
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
-            model_name="",
+            model_name=model_name,
             num_params=0
             if update_mode == "Static"
             else self.max_params_descriptor_buffer_num,
-- 
2.43.0


From d928cc17cc912885beb0194507cd781163b5684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 140/210] fix: a streamed file without parameters has none

---
 pymllm/mobile/convertor/model_file_v2.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index c510c08..8cbb10b 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -113,9 +113,7 @@ class ModelFileV2:
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
             model_name=model_name,
-            num_params=0
-            if update_mode == "Static"
-            else self.max_params_descriptor_buffer_num,
+            num_params=0,
         )
 
         # Open file
-- 
2.43.0


From 78e06fba9db832af83b583e929a6b346e7cd711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 141/210] fix: refuse parameter names that do not fit the model
 file

---
 pymllm/mobile/convertor/model_file_v2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 8cbb10b..8d98568 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -80,6 +80,8 @@ def _pack_descriptor(desc) -> bytes:
         )
     elif isinstance(desc, ModelFileV2ParamsDescriptor):
         name_bytes = desc.name.encode("utf-8")
+        if len(name_bytes) > MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH:
+            raise ValueError(f"Parameter name is too long: {desc.name}")
         name_bytes = name_bytes.ljust(MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH, b"\0")[
             :MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH
         ]
-- 
2.43.0


From 023306d2489839980fc68f5fdafac3ccb1a2614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 142/210] fix: convert tensors that are contiguous with an
 unusual stride

---
 pymllm/mobile/convertor/model_file_v2.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 8d98568..c068755 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -27,9 +27,8 @@ MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH = 16
 def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     # Use uint8 view to preserve raw bytes for dtypes not supported by numpy.
     t = tensor.detach().cpu().contiguous()
-    if t.dim() == 0:
-        t = t.reshape(1)
-    return t.view(torch.uint8).numpy().tobytes()
+    # A size-1 dimension of a contiguous tensor may have any stride.
+    return t.flatten().as_strided((t.numel(),), (1,)).view(torch.uint8).numpy().tobytes()
 
 
 class ModelFileV2Descriptor:
-- 
2.43.0


From bf565ff4ba8121d9c1cca0eece45dd8f67e56899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 143/210] fix: numpy arrays can be converted

---
 pymllm/mobile/convertor/model_file_v2.py | 4 ++--
 pymllm/mobile/quantize/kai/w4a32.py      | 2 +-
 pymllm/mobile/quantize/solver.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index c068755..dee0acc 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -145,7 +145,7 @@ class ModelFileV2:
             # Numpy array
             shape = list(tensor_obj.shape)
             tensor_data = tensor_obj.tobytes()
-            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype]
+            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype.type]
         elif isinstance(tensor_obj, Tensor):
             # Mllm Tensor
             shape = list(tensor_obj.shape)
@@ -220,7 +220,7 @@ class ModelFileV2:
                 # Numpy array
                 shape = list(tensor.shape)
                 tensor_data = tensor.tobytes()
-                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype]
+                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype.type]
             elif isinstance(tensor, Tensor):
                 # Mllm Tensor
                 shape = list(tensor.shape)
diff --git a/pymllm/mobile/quantize/kai/w4a32.py b/pymllm/mobile/quantize/kai/w4a32.py
index 6cd32bc..aa8815c 100644
--- a/pymllm/mobile/quantize/kai/w4a32.py
+++ b/pymllm/mobile/quantize/kai/w4a32.py
@@ -73,7 +73,7 @@ class W4A32KAIQuantizePass(QuantizeBasePass):
                     normalized_tensor_dict.update({k: tmp_v})
             if MLLM_FIND_NUMPY_AVAILABLE:
                 if isinstance(v, np.ndarray):
-                    tmp_v: Tensor = from_numpy(v.to(np.float32))
+                    tmp_v: Tensor = from_numpy(v.astype(np.float32))
                     tmp_v.set_name(k)
                     normalized_tensor_dict.update({k: tmp_v})
 
diff --git a/pymllm/mobile/quantize/solver.py b/pymllm/mobile/quantize/solver.py
index c9669e4..3f0599c 100644
--- a/pymllm/mobile/quantize/solver.py
+++ b/pymllm/mobile/quantize/solver.py
@@ -167,8 +167,8 @@ class QuantizeSolver:
             if cast_left_2_fp32:
                 if MLLM_FIND_TORCH_AVAILABLE and isinstance(ttt, torch.Tensor):
                     ttt = ttt.to(torch.float32)
-                elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(ttt, np.float32):
-                    ttt = ttt.to(np.float32)
+                elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(ttt, np.ndarray):
+                    ttt = ttt.astype(np.float32)
             writer.streaming_write(k, ttt)
 
         writer.finalize()
-- 
2.43.0


From eabb5c632104378c15897d2e143aefe37427ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 144/210] fix: parameters that no quantization pass takes stay
 in the plan

---
 pymllm/mobile/quantize/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymllm/mobile/quantize/solver.py b/pymllm/mobile/quantize/solver.py
index 3f0599c..8c3b1d3 100644
--- a/pymllm/mobile/quantize/solver.py
+++ b/pymllm/mobile/quantize/solver.py
@@ -64,6 +64,8 @@ class QuantizeSolver:
             sub_group = param_groups[group_regex]
             for payload_name, payload in sub_group[1].items():
                 if param_groups[group_regex][0]["replace"]:
+                    if not payload.outputs_dict:
+                        continue  # no pass takes these parameters
                     for k in payload.inputs_dict.keys():
                         aux.remove(k)
                     for k in payload.outputs_dict.keys():
-- 
2.43.0


From 8ea99395bdbd21333b68fe9965da2c6c77ef4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 145/210] fix: cast-to-fp32 pass can be planned and run

---
 pymllm/mobile/quantize/cast2fp32_pass.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pymllm/mobile/quantize/cast2fp32_pass.py b/pymllm/mobile/quantize/cast2fp32_pass.py
index 421a5af..3b99e1e 100644
--- a/pymllm/mobile/quantize/cast2fp32_pass.py
+++ b/pymllm/mobile/quantize/cast2fp32_pass.py
@@ -22,17 +22,12 @@ class Cast2Fp32QuantizePass(QuantizeBasePass):
         self, quantize_config, tensor_dict: Dict, **kwargs
     ) -> QuantizePlanPayload:
         assert len(tensor_dict) == 1
-        return QuantizePlanPayload(
-            1,
-            1,
-            {
-                tensor_dict.keys()[0]: tensor_dict[tensor_dict.keys()[0]],
-            },
-            {
-                tensor_dict.keys()[0],
-                None,
-            },
-        )
+        ret = QuantizePlanPayload()
+        ret.inputs_num = 1
+        ret.inputs_dict = tensor_dict
+        ret.outputs_num = 1
+        ret.outputs_dict = {next(iter(tensor_dict)): None}
+        return ret
 
     def match(self, quantize_config, tensor_dict: Dict, **kwargs) -> bool:
         if quantize_config["quant_method"] != "cast_2_fp32":
@@ -43,15 +38,15 @@ class Cast2Fp32QuantizePass(QuantizeBasePass):
                 if v.dtype is not torch.float32:
                     ret = True
             if MLLM_FIND_NUMPY_AVAILABLE and isinstance(v, np.ndarray):
-                if v.dtype is not np.float32:
+                if v.dtype != np.float32:
                     ret = True
         return ret
 
     def run(self, quantize_config, tensor_dict: Dict, **kwargs) -> Dict:
-        name = tensor_dict.keys()[0]
+        name = next(iter(tensor_dict))
         weight = tensor_dict[name]
         if MLLM_FIND_TORCH_AVAILABLE and isinstance(weight, torch.Tensor):
             weight = weight.to(torch.float32)
         if MLLM_FIND_NUMPY_AVAILABLE and isinstance(weight, np.ndarray):
-            weight = weight.to(np.float32)
+            weight = weight.astype(np.float32)
         return {name: weight}
-- 
2.43.0


From 127c3055abe1ad0cd5c2aba1580d35a247b942f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 146/210] fix: binary operators must follow the strides and the
 broadcast shapes of their operands

---
 mllm/backends/cpu/ops/CmpOp.cpp      |  7 +--
 mllm/backends/cpu/ops/ElewiseOps.cpp | 66 +++++++++++++++++++++++-----
 mllm/backends/cpu/ops/ElewiseOps.hpp |  9 ++++
 3 files changed, 67 insertions(+), 15 deletions(-)

diff --git a/mllm/backends/cpu/ops/CmpOp.cpp b/mllm/backends/cpu/ops/CmpOp.cpp
index 1e9d894..68fbb02 100644
--- a/mllm/backends/cpu/ops/CmpOp.cpp
+++ b/mllm/backends/cpu/ops/CmpOp.cpp
@@ -11,9 +11,10 @@ namespace mllm::cpu {
 CPUEqualOp::CPUEqualOp(const aops::EqualOpOptions& options) : aops::EqualOp(options) {}
 
 void CPUEqualOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
-  auto& output = outputs[0];
+  BinaryOperands operands(inputs, outputs[0]);
+  auto& input0 = operands.lhs;
+  auto& input1 = operands.rhs;
+  auto& output = operands.out;
 
   auto dtype = input0.dtype();
 
diff --git a/mllm/backends/cpu/ops/ElewiseOps.cpp b/mllm/backends/cpu/ops/ElewiseOps.cpp
index fd74309..688e1e0 100644
--- a/mllm/backends/cpu/ops/ElewiseOps.cpp
+++ b/mllm/backends/cpu/ops/ElewiseOps.cpp
@@ -1,6 +1,8 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <cstring>
+
 #include "mllm/backends/cpu/ops/ElewiseOps.hpp"
 #include "mllm/backends/cpu/kernels/Kernels.hpp"
 #include "mllm/core/DataTypes.hpp"
@@ -122,12 +124,49 @@ BroadcastInfo calculateBroadcastInfo(const std::vector<int32_t>& a_shape, const
   return info;
 }
 
+BinaryOperands::BinaryOperands(const std::vector<Tensor>& inputs, const Tensor& r)
+    : lhs(inputs[0]), rhs(inputs[1]), out(r), result(r) {
+  const auto shape = result.shape();
+  const int rank = static_cast<int>(shape.size());
+  for (const auto& t : {lhs, rhs}) {
+    const auto s = t.shape();
+    const int pad = rank - static_cast<int>(s.size());
+    MLLM_RT_ASSERT(pad >= 0);
+    for (int i = 0; i < static_cast<int>(s.size()); ++i) { MLLM_RT_ASSERT(s[i] == 1 || s[i] == shape[pad + i]); }
+  }
+  if (lhs.shape() != shape) {
+    const auto s = lhs.shape();
+    const auto stride = lhs.stride();
+    const size_t bytes = bytesOfType(lhs.dtype());
+    auto full = Tensor::empty(shape, lhs.dtype(), lhs.device()).alloc();
+    for (size_t idx = 0; idx < full.numel(); ++idx) {
+      size_t rest = idx;
+      int64_t offset = 0;
+      for (int d = rank - 1; d >= 0; --d) {
+        const int src = d - (rank - static_cast<int>(s.size()));
+        if (src >= 0 && s[src] != 1) { offset += static_cast<int64_t>(rest % shape[d]) * stride[src]; }
+        rest /= shape[d];
+      }
+      std::memcpy(full.ptr<char>() + idx * bytes, lhs.ptr<char>() + offset * static_cast<int64_t>(bytes), bytes);
+    }
+    lhs = full;
+  }
+  if (!lhs.isContiguous()) { lhs = lhs.contiguous(); }
+  if (!rhs.isContiguous()) { rhs = rhs.contiguous(); }
+  if (!out.isContiguous()) { out = Tensor::empty(shape, out.dtype(), out.device()).alloc(); }
+}
+
+BinaryOperands::~BinaryOperands() {
+  if (!result.isContiguous()) { out.copy2(result); }
+}
+
 CPUAddOp::CPUAddOp(const aops::AddOpOptions& options) : aops::AddOp(options) {}
 
 void CPUAddOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
-  auto& output = outputs[0];
+  BinaryOperands operands(inputs, outputs[0]);
+  auto& input0 = operands.lhs;
+  auto& input1 = operands.rhs;
+  auto& output = operands.out;
 
   auto dtype = output.dtype();
 
@@ -327,9 +366,10 @@ void CPUAddOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 CPUSubOp::CPUSubOp(const aops::SubOpOptions& options) : aops::SubOp(options) {}
 
 void CPUSubOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
-  auto& output = outputs[0];
+  BinaryOperands operands(inputs, outputs[0]);
+  auto& input0 = operands.lhs;
+  auto& input1 = operands.rhs;
+  auto& output = operands.out;
 
   auto dtype = output.dtype();
 
@@ -530,9 +570,10 @@ void CPUSubOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 CPUMulOp::CPUMulOp(const aops::MulOpOptions& options) : aops::MulOp(options) {}
 
 void CPUMulOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
-  auto& output = outputs[0];
+  BinaryOperands operands(inputs, outputs[0]);
+  auto& input0 = operands.lhs;
+  auto& input1 = operands.rhs;
+  auto& output = operands.out;
 
   auto dtype = output.dtype();
 
@@ -733,9 +774,10 @@ void CPUMulOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 CPUDivOp::CPUDivOp(const aops::DivOpOptions& options) : aops::DivOp(options) {}
 
 void CPUDivOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
-  auto& output = outputs[0];
+  BinaryOperands operands(inputs, outputs[0]);
+  auto& input0 = operands.lhs;
+  auto& input1 = operands.rhs;
+  auto& output = operands.out;
 
   auto dtype = output.dtype();
 
diff --git a/mllm/backends/cpu/ops/ElewiseOps.hpp b/mllm/backends/cpu/ops/ElewiseOps.hpp
index dafceec..0e818bf 100644
--- a/mllm/backends/cpu/ops/ElewiseOps.hpp
+++ b/mllm/backends/cpu/ops/ElewiseOps.hpp
@@ -16,6 +16,15 @@ struct BroadcastInfo {
   int32_t size = 0;
 };
 
+// The kernels walk raw storage. Operands of a binary operator as they need them: contiguous, the left one in the shape of the
+// result. A result that is a strided view (in place) is computed apart and copied into the view at the end.
+struct BinaryOperands {
+  BinaryOperands(const std::vector<Tensor>& inputs, const Tensor& result);
+  ~BinaryOperands();
+
+  Tensor lhs, rhs, out, result;
+};
+
 BroadcastInfo calculateBroadcastInfo(const std::vector<int32_t>& a_shape, const std::vector<int32_t>& b_shape);
 
 class CPUAddOp final : public aops::AddOp {
-- 
2.43.0


From 0b03b86fadfca08903873195018e0f12b88f5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 147/210] fix: operators without an implementation for the
 architecture must say so

---
 mllm/backends/cpu/ops/ElewiseOps.cpp | 46 ++++++++++++++++++++++++++++
 mllm/backends/cpu/ops/ReduceOps.cpp  | 18 +++++++++++
 2 files changed, 64 insertions(+)

diff --git a/mllm/backends/cpu/ops/ElewiseOps.cpp b/mllm/backends/cpu/ops/ElewiseOps.cpp
index 688e1e0..5077eb5 100644
--- a/mllm/backends/cpu/ops/ElewiseOps.cpp
+++ b/mllm/backends/cpu/ops/ElewiseOps.cpp
@@ -330,11 +330,15 @@ void CPUAddOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         cpu::arm::ew_add_fp32_complex(output.ptr<mllm_complex_fp32_t>(), input0.ptr<mllm_fp32_t>(),
                                       input1.ptr<mllm_complex_fp32_t>(), output.numel(), options_.getThreads());
+#else
+        NYI("AddOp of this type not supported on this architecture.");
 #endif
       } else if (input1.numel() == 1) {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         cpu::arm::ew_add_fp32_complex_scalar(output.ptr<mllm_complex_fp32_t>(), input0.ptr<mllm_fp32_t>(),
                                              *input1.ptr<mllm_complex_fp32_t>(), output.numel(), options_.getThreads());
+#else
+        NYI("AddOp of this type not supported on this architecture.");
 #endif
       } else if (can_be_broadcast_naive) {
         const float* a = input0.ptr<mllm_fp32_t>();
@@ -352,6 +356,8 @@ void CPUAddOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
             cpu::arm::ew_add_fp32_complex(out + out_offset, a + a_offset, b + b_offset, vector_size, options_.getThreads());
           }
         }
+#else
+        NYI("AddOp of this type not supported on this architecture.");
 #endif
       } else {
         NYI("AddOp broadcast for complex output not supported.");
@@ -533,11 +539,15 @@ void CPUSubOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         cpu::arm::ew_sub_fp32_complex(output.ptr<mllm_complex_fp32_t>(), input0.ptr<mllm_fp32_t>(),
                                       input1.ptr<mllm_complex_fp32_t>(), output.numel(), options_.getThreads());
+#else
+        NYI("SubOp of this type not supported on this architecture.");
 #endif
       } else if (input1.numel() == 1) {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         cpu::arm::ew_sub_fp32_complex_scalar(output.ptr<mllm_complex_fp32_t>(), input0.ptr<mllm_fp32_t>(),
                                              *input1.ptr<mllm_complex_fp32_t>(), output.numel(), options_.getThreads());
+#else
+        NYI("SubOp of this type not supported on this architecture.");
 #endif
       } else if (can_be_broadcast_naive) {
         const float* a = input0.ptr<mllm_fp32_t>();
@@ -556,6 +566,8 @@ void CPUSubOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
             cpu::arm::ew_sub_fp32_complex(out + out_offset, a + a_offset, b + b_offset, vector_size, options_.getThreads());
           }
         }
+#else
+        NYI("SubOp of this type not supported on this architecture.");
 #endif
       } else {
         NYI("SubOp broadcast for complex output not supported.");
@@ -737,11 +749,15 @@ void CPUMulOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         cpu::arm::ew_mul_fp32_complex(output.ptr<mllm_complex_fp32_t>(), input0.ptr<mllm_fp32_t>(),
                                       input1.ptr<mllm_complex_fp32_t>(), output.numel(), options_.getThreads());
+#else
+        NYI("MulOp of this type not supported on this architecture.");
 #endif
       } else if (input1.numel() == 1) {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         cpu::arm::ew_mul_fp32_complex_scalar(output.ptr<mllm_complex_fp32_t>(), input0.ptr<mllm_fp32_t>(),
                                              *input1.ptr<mllm_complex_fp32_t>(), output.numel(), options_.getThreads());
+#else
+        NYI("MulOp of this type not supported on this architecture.");
 #endif
       } else if (can_be_broadcast_naive) {
         const float* a = input0.ptr<mllm_fp32_t>();
@@ -760,6 +776,8 @@ void CPUMulOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
             cpu::arm::ew_mul_fp32_complex(out + out_offset, a + a_offset, b + b_offset, vector_size, options_.getThreads());
           }
         }
+#else
+        NYI("MulOp of this type not supported on this architecture.");
 #endif
       } else {
         NYI("MulOp broadcast for complex output not supported.");
@@ -1006,6 +1024,8 @@ void CPUAbsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kFloat16: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM) && defined(__ARM_FEATURE_FP16_VECTOR_ARITHMETIC)
       cpu::arm::ew_abs_fp16(output.ptr<mllm_fp16_t>(), input.ptr<mllm_fp16_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("AbsOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1013,6 +1033,8 @@ void CPUAbsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kInt32: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::ew_abs_int32(output.ptr<mllm_int32_t>(), input.ptr<mllm_int32_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("AbsOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1020,6 +1042,8 @@ void CPUAbsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kInt16: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::ew_abs_int16(output.ptr<mllm_int16_t>(), input.ptr<mllm_int16_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("AbsOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1027,6 +1051,8 @@ void CPUAbsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kInt8: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::ew_abs_int8(output.ptr<mllm_int8_t>(), input.ptr<mllm_int8_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("AbsOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1036,6 +1062,8 @@ void CPUAbsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
       // Just use simple std::abs()
       cpu::arm::ew_abs_complex_fp32(output.ptr<mllm_fp32_t>(), input.ptr<mllm_complex_fp32_t>(), output.numel(),
                                     options_.getThreads());
+#else
+      NYI("AbsOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1045,6 +1073,8 @@ void CPUAbsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
       // Just use simple std::abs()
       cpu::arm::ew_abs_complex_fp64(output.ptr<mllm_fp32_t>(), input.ptr<mllm_complex_fp64_t>(), output.numel(),
                                     options_.getThreads());
+#else
+      NYI("AbsOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1075,6 +1105,8 @@ void CPULogOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kFloat16: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::ew_log_fp16(output.ptr<mllm_fp16_t>(), input.ptr<mllm_fp16_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("LogOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1103,6 +1135,8 @@ void CPUExpOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kFloat16: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::ew_exp_fp16(output.ptr<mllm_fp16_t>(), input.ptr<mllm_fp16_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("ExpOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1134,6 +1168,8 @@ void CPUClipOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::clip_fp16(output.ptr<mllm_fp16_t>(), input.ptr<mllm_fp16_t>(), static_cast<mllm_fp16_t>(options_.min_val),
                           static_cast<mllm_fp16_t>(options_.max_val), output.numel(), options_.getThreads());
+#else
+      NYI("ClipOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1143,6 +1179,8 @@ void CPUClipOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::clip_int8(output.ptr<mllm_int8_t>(), input.ptr<mllm_int8_t>(), static_cast<mllm_int8_t>(options_.min_val),
                           static_cast<mllm_int8_t>(options_.max_val), output.numel(), options_.getThreads());
+#else
+      NYI("ClipOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1151,6 +1189,8 @@ void CPUClipOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::clip_int16(output.ptr<mllm_int16_t>(), input.ptr<mllm_int16_t>(), static_cast<mllm_int16_t>(options_.min_val),
                            static_cast<mllm_int16_t>(options_.max_val), output.numel(), options_.getThreads());
+#else
+      NYI("ClipOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1159,6 +1199,8 @@ void CPUClipOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::clip_int32(output.ptr<mllm_int32_t>(), input.ptr<mllm_int32_t>(), static_cast<mllm_int32_t>(options_.min_val),
                            static_cast<mllm_int32_t>(options_.max_val), output.numel(), options_.getThreads());
+#else
+      NYI("ClipOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1186,6 +1228,8 @@ void CPUSinOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kFloat16: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::ew_sin_fp16(output.ptr<mllm_fp16_t>(), input.ptr<mllm_fp16_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("SinOp of this type not supported on this architecture.");
 #endif
       break;
     }
@@ -1212,6 +1256,8 @@ void CPUCosOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
     case kFloat16: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::arm::ew_cos_fp16(output.ptr<mllm_fp16_t>(), input.ptr<mllm_fp16_t>(), output.numel(), options_.getThreads());
+#else
+      NYI("CosOp of this type not supported on this architecture.");
 #endif
       break;
     }
diff --git a/mllm/backends/cpu/ops/ReduceOps.cpp b/mllm/backends/cpu/ops/ReduceOps.cpp
index c42f407..d93b0f4 100644
--- a/mllm/backends/cpu/ops/ReduceOps.cpp
+++ b/mllm/backends/cpu/ops/ReduceOps.cpp
@@ -10,6 +10,10 @@ namespace mllm::cpu {
 CPUReduceMaxOp::CPUReduceMaxOp(const aops::ReduceMaxOpOptions& options) : aops::ReduceMaxOp(options) {}
 
 void CPUReduceMaxOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
+#if !defined(MLLM_HOST_ARCH_ARM64) && !defined(MLLM_HOST_ARCH_ARM)
+  NYI("ReduceMaxOp not supported on this architecture.");
+  return;
+#endif
   auto& input = inputs[0];
   auto& output = outputs[0];
 
@@ -144,6 +148,10 @@ void CPUReduceMaxOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 CPUReduceMinOp::CPUReduceMinOp(const aops::ReduceMinOpOptions& options) : aops::ReduceMinOp(options) {}
 
 void CPUReduceMinOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
+#if !defined(MLLM_HOST_ARCH_ARM64) && !defined(MLLM_HOST_ARCH_ARM)
+  NYI("ReduceMinOp not supported on this architecture.");
+  return;
+#endif
   auto& input = inputs[0];
   auto& output = outputs[0];
 
@@ -278,6 +286,12 @@ void CPUReduceMinOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 CPUReduceSumOp::CPUReduceSumOp(const aops::ReduceSumOpOptions& options) : aops::ReduceSumOp(options) {}
 
 void CPUReduceSumOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
+#if !defined(MLLM_HOST_ARCH_ARM64) && !defined(MLLM_HOST_ARCH_ARM)
+  if (inputs[0].dtype() != kFloat32) {
+    NYI("ReduceSumOp not support dtype {} on this architecture.", nameOfType(inputs[0].dtype()));
+    return;
+  }
+#endif
   auto& input = inputs[0];
   auto& output = outputs[0];
 
@@ -417,6 +431,10 @@ void CPUReduceSumOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 CPUMeanOp::CPUMeanOp(const aops::MeanOpOptions& options) : aops::MeanOp(options) {}
 
 void CPUMeanOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
+#if !defined(MLLM_HOST_ARCH_ARM64) && !defined(MLLM_HOST_ARCH_ARM)
+  NYI("MeanOp not supported on this architecture.");
+  return;
+#endif
   auto& input = inputs[0];
   auto& output = outputs[0];
 
-- 
2.43.0


From 18f8db03e91509c19974cc517a5af032b3594e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 148/210] fix: x86 exp must split ln 2 as its constants say

---
 mllm/backends/cpu/kernels/x86/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/x86/math.hpp b/mllm/backends/cpu/kernels/x86/math.hpp
index 716785b..919749e 100644
--- a/mllm/backends/cpu/kernels/x86/math.hpp
+++ b/mllm/backends/cpu/kernels/x86/math.hpp
@@ -21,7 +21,7 @@ HWY_INLINE V vexpq_fast_f32(D d, V x) {
   const auto c_exp_hi = hn::Set(d, 88.3762626647949f);
   const auto c_exp_lo = hn::Set(d, -88.3762626647949f);
   const auto c_cephes_LOG2EF = hn::Set(d, std::numbers::log2e_v<float>);
-  const auto c_cephes_exp_C1 = hn::Set(d, std::numbers::ln2_v<float>);
+  const auto c_cephes_exp_C1 = hn::Set(d, 0.693359375f);
   const auto c_cephes_exp_C2 = hn::Set(d, -2.12194440e-4f);
   const auto c_cephes_exp_p0 = hn::Set(d, 1.9875691500E-4f);
   const auto c_cephes_exp_p1 = hn::Set(d, 1.3981999507E-3f);
-- 
2.43.0


From 9dd826ebaf8626640cc6ca8a45222de408711e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 149/210] fix: x86 RMSNorm must not need aligned rows

---
 mllm/backends/cpu/kernels/x86/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/x86/math.hpp b/mllm/backends/cpu/kernels/x86/math.hpp
index 919749e..6e70f78 100644
--- a/mllm/backends/cpu/kernels/x86/math.hpp
+++ b/mllm/backends/cpu/kernels/x86/math.hpp
@@ -79,7 +79,7 @@ static inline float vsquare_mean_fp32(const float* __restrict X, int dim) {
 
   int i = 0;
   for (; i + hn::Lanes(d) <= dim; i += hn::Lanes(d)) {
-    auto vec = hn::Load(d, X + i);
+    auto vec = hn::LoadU(d, X + i);
     auto squared = hn::Mul(vec, vec);
     sum_vec = hn::Add(sum_vec, squared);
   }
-- 
2.43.0


From 585f9bbf4374eab351d49c2a506930130a75858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 150/210] fix: activations, normalisation, reductions, pooling
 and casts must follow the strides of views

---
 mllm/backends/cpu/ops/AvgPool1dOp.cpp |  3 ++-
 mllm/backends/cpu/ops/CastTypeOp.cpp  |  3 ++-
 mllm/backends/cpu/ops/Conv1DOp.cpp    |  3 ++-
 mllm/backends/cpu/ops/ElewiseOps.cpp  |  2 +-
 mllm/backends/cpu/ops/RMSNormOp.cpp   | 11 +++++------
 mllm/backends/cpu/ops/ReduceOps.cpp   | 12 ++++++++----
 mllm/backends/cpu/ops/SiLUOp.cpp      |  7 +++++--
 mllm/backends/cpu/ops/SigmoidOp.cpp   |  7 +++++--
 mllm/backends/cpu/ops/SoftmaxOp.cpp   |  3 ++-
 9 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/mllm/backends/cpu/ops/AvgPool1dOp.cpp b/mllm/backends/cpu/ops/AvgPool1dOp.cpp
index c5be2dd..6fba94b 100644
--- a/mllm/backends/cpu/ops/AvgPool1dOp.cpp
+++ b/mllm/backends/cpu/ops/AvgPool1dOp.cpp
@@ -10,7 +10,8 @@ namespace mllm::cpu {
 CPUAvgPool1dOp::CPUAvgPool1dOp(const aops::AvgPool1dOpOptions& options) : aops::AvgPool1dOp(options) {}
 
 void CPUAvgPool1dOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto i_shape = input.shape();
diff --git a/mllm/backends/cpu/ops/CastTypeOp.cpp b/mllm/backends/cpu/ops/CastTypeOp.cpp
index c7f9714..0b7d7a3 100644
--- a/mllm/backends/cpu/ops/CastTypeOp.cpp
+++ b/mllm/backends/cpu/ops/CastTypeOp.cpp
@@ -15,7 +15,8 @@ namespace mllm::cpu {
 CPUCastTypeOp::CPUCastTypeOp(const aops::CastTypeOpOptions& options) : aops::CastTypeOp(options) {}
 
 void CPUCastTypeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& i = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto i = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& o = outputs[0];
 
   auto to_dtype = options_.dtype;
diff --git a/mllm/backends/cpu/ops/Conv1DOp.cpp b/mllm/backends/cpu/ops/Conv1DOp.cpp
index ff8b3bc..5874312 100644
--- a/mllm/backends/cpu/ops/Conv1DOp.cpp
+++ b/mllm/backends/cpu/ops/Conv1DOp.cpp
@@ -10,7 +10,8 @@ namespace mllm::cpu {
 CPUConv1DOp::CPUConv1DOp(const aops::Conv1DOpOptions& options) : aops::Conv1DOp(options) {}
 
 void CPUConv1DOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto i_shape = input.shape();
diff --git a/mllm/backends/cpu/ops/ElewiseOps.cpp b/mllm/backends/cpu/ops/ElewiseOps.cpp
index 5077eb5..2a9b958 100644
--- a/mllm/backends/cpu/ops/ElewiseOps.cpp
+++ b/mllm/backends/cpu/ops/ElewiseOps.cpp
@@ -153,7 +153,7 @@ BinaryOperands::BinaryOperands(const std::vector<Tensor>& inputs, const Tensor&
   }
   if (!lhs.isContiguous()) { lhs = lhs.contiguous(); }
   if (!rhs.isContiguous()) { rhs = rhs.contiguous(); }
-  if (!out.isContiguous()) { out = Tensor::empty(shape, out.dtype(), out.device()).alloc(); }
+  if (!out.isContiguous()) { out = out.contiguous(); }
 }
 
 BinaryOperands::~BinaryOperands() {
diff --git a/mllm/backends/cpu/ops/RMSNormOp.cpp b/mllm/backends/cpu/ops/RMSNormOp.cpp
index 42bf50d..e22afc0 100644
--- a/mllm/backends/cpu/ops/RMSNormOp.cpp
+++ b/mllm/backends/cpu/ops/RMSNormOp.cpp
@@ -12,8 +12,10 @@ namespace mllm::cpu {
 CPURMSNormOp::CPURMSNormOp(const aops::RMSNormOpOptions& options) : aops::RMSNormOp(options) {}
 
 void CPURMSNormOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& i = inputs[0];
-  auto& o = outputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto i = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
+  Tensor result = outputs[0];
+  Tensor o = result.isContiguous() ? result : result.contiguous();
 
   // Should support [B, S, H ,D] and [B, S, H * D]
   auto x_shape = i.shape();
@@ -21,10 +23,6 @@ void CPURMSNormOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor
   size_t other_dim_size = 1;
   for (size_t i = 0; i < x_shape.size() - 1; ++i) { other_dim_size *= x_shape[i]; }
 
-  // Only Support Contiguous Tensor
-  // FIXME: No need isContiguous. Part contiguous tensor is supported.
-  // MLLM_RT_ASSERT(i.isContiguous());
-
   if (options_.isInplace()) {
     switch (i.dtype()) {
       case kFloat32: {
@@ -55,6 +53,7 @@ void CPURMSNormOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor
       }
       default: NYI("Unsupported data type");
     }
+    if (!result.isContiguous()) { o.copy2(result); }
     return;
   }
 
diff --git a/mllm/backends/cpu/ops/ReduceOps.cpp b/mllm/backends/cpu/ops/ReduceOps.cpp
index d93b0f4..6234a13 100644
--- a/mllm/backends/cpu/ops/ReduceOps.cpp
+++ b/mllm/backends/cpu/ops/ReduceOps.cpp
@@ -14,7 +14,8 @@ void CPUReduceMaxOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   NYI("ReduceMaxOp not supported on this architecture.");
   return;
 #endif
-  auto& input = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
@@ -152,7 +153,8 @@ void CPUReduceMinOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   NYI("ReduceMinOp not supported on this architecture.");
   return;
 #endif
-  auto& input = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
@@ -292,7 +294,8 @@ void CPUReduceSumOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
     return;
   }
 #endif
-  auto& input = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
@@ -435,7 +438,8 @@ void CPUMeanOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   NYI("MeanOp not supported on this architecture.");
   return;
 #endif
-  auto& input = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto input = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   auto& output = outputs[0];
 
   auto dtype = input.dtype();
diff --git a/mllm/backends/cpu/ops/SiLUOp.cpp b/mllm/backends/cpu/ops/SiLUOp.cpp
index bd140bf..6aae386 100644
--- a/mllm/backends/cpu/ops/SiLUOp.cpp
+++ b/mllm/backends/cpu/ops/SiLUOp.cpp
@@ -10,8 +10,10 @@ namespace mllm::cpu {
 CPUSiLUOp::CPUSiLUOp(const aops::SiLUOpOptions& options) : aops::SiLUOp(options) {}
 
 void CPUSiLUOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
-  auto& Y = outputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto X = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
+  Tensor result = outputs[0];
+  Tensor Y = result.isContiguous() ? result : result.contiguous();
 
   switch (X.dtype()) {
     case kFloat32: {
@@ -32,6 +34,7 @@ void CPUSiLUOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
     }
     default: NYI("CPUSiLUOp::forward not support dtype {}", nameOfType(X.dtype())); break;
   }
+  if (!result.isContiguous()) { Y.copy2(result); }
 }
 
 }  // namespace mllm::cpu
diff --git a/mllm/backends/cpu/ops/SigmoidOp.cpp b/mllm/backends/cpu/ops/SigmoidOp.cpp
index 9bd8880..723b9a5 100644
--- a/mllm/backends/cpu/ops/SigmoidOp.cpp
+++ b/mllm/backends/cpu/ops/SigmoidOp.cpp
@@ -10,8 +10,10 @@ namespace mllm::cpu {
 CPUSigmoidOp::CPUSigmoidOp(const aops::SigmoidOpOptions& options) : aops::SigmoidOp(options) {}
 
 void CPUSigmoidOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
-  auto& Y = outputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto X = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
+  Tensor result = outputs[0];
+  Tensor Y = result.isContiguous() ? result : result.contiguous();
 
   switch (X.dtype()) {
     case kFloat32: {
@@ -36,6 +38,7 @@ void CPUSigmoidOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor
     }
     default: NYI("CPUSigmoidOp::forward not support dtype {}", nameOfType(X.dtype())); break;
   }
+  if (!result.isContiguous()) { Y.copy2(result); }
 }
 
 }  // namespace mllm::cpu
diff --git a/mllm/backends/cpu/ops/SoftmaxOp.cpp b/mllm/backends/cpu/ops/SoftmaxOp.cpp
index 2f412be..becd3cf 100644
--- a/mllm/backends/cpu/ops/SoftmaxOp.cpp
+++ b/mllm/backends/cpu/ops/SoftmaxOp.cpp
@@ -11,7 +11,8 @@ namespace mllm::cpu {
 CPUSoftmaxOp::CPUSoftmaxOp(const aops::SoftmaxOpOptions& options) : aops::SoftmaxOp(options) {}
 
 void CPUSoftmaxOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  // The kernels walk raw storage: work on contiguous copies of strided views.
+  const auto X = inputs[0].isContiguous() ? inputs[0] : Tensor(inputs[0]).contiguous();
   const auto& Y = outputs[0];
 
   int reduce_dim = options_.axis;
-- 
2.43.0


From 518a28ba16961980e5a5680c64de401e29c153fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 151/210] fix: GELU and QuickGELU must compute their result on
 x86

---
 mllm/backends/cpu/kernels/x86/gelu.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mllm/backends/cpu/kernels/x86/gelu.cpp b/mllm/backends/cpu/kernels/x86/gelu.cpp
index ef1ac51..6e840e8 100644
--- a/mllm/backends/cpu/kernels/x86/gelu.cpp
+++ b/mllm/backends/cpu/kernels/x86/gelu.cpp
@@ -8,17 +8,18 @@
 
 #include <hwy/highway.h>
 #include <cmath>
-#include "mllm/backends/cpu/kernels/x86/math.hpp"
+#include "mllm/backends/cpu/kernels/x86/gelu.hpp"
+#include "mllm/backends/cpu/kernels/common/gelu-inl.hpp"
 
 namespace mllm::cpu::x86 {
 namespace hn = hwy::HWY_NAMESPACE;
 
 void gelu_fp32(float* __restrict__ Z, const float* __restrict__ X, int32_t N, int thread_cnt) {
-  // TODO
+  mllm::cpu::common::HWY_NAMESPACE::gelu_fp32(X, Z, N);
 }
 
 void quick_gelu_fp32(float* __restrict__ Z, const float* __restrict__ X, int32_t N, int thread_cnt) {
-  // TODO
+  for (int32_t i = 0; i < N; ++i) { Z[i] = X[i] / (1.0f + std::exp(-1.702f * X[i])); }
 }
 
 }  // namespace mllm::cpu::x86
-- 
2.43.0


From 878f273550925603180f7898bd4b7dd9964d9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 152/210] fix: LayerNorm must compute its result on x86

---
 mllm/backends/cpu/ops/LayerNormOp.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/LayerNormOp.cpp b/mllm/backends/cpu/ops/LayerNormOp.cpp
index f204686..6f0f73b 100644
--- a/mllm/backends/cpu/ops/LayerNormOp.cpp
+++ b/mllm/backends/cpu/ops/LayerNormOp.cpp
@@ -1,6 +1,7 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <cmath>
 #include <cstring>
 #include "mllm/backends/cpu/ops/LayerNormOp.hpp"
 #include "mllm/backends/cpu/kernels/Kernels.hpp"
@@ -30,7 +31,20 @@ void CPULayerNormOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
     case kFloat32: {
       MLLM_CONDITIONAL_PARALLEL_FOR(options_.getThreads() > 1, options_.getThreads(), l, 0, loop_times, 1, {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      // TODO
+        const mllm_fp32_t* x = i.ptr<mllm_fp32_t>() + l * loop_size;
+        mllm_fp32_t* y = o.ptr<mllm_fp32_t>() + l * loop_size;
+        double mean = 0;
+        double var = 0;
+        for (int32_t n = 0; n < loop_size; ++n) { mean += x[n]; }
+        mean /= loop_size;
+        for (int32_t n = 0; n < loop_size; ++n) { var += (x[n] - mean) * (x[n] - mean); }
+        const double inv_std = 1.0 / std::sqrt(var / loop_size + options_.eps);
+        for (int32_t n = 0; n < loop_size; ++n) {
+          double v = (x[n] - mean) * inv_std;
+          if (options_.elementwise_affine) { v *= weight_.ptr<mllm_fp32_t>()[n]; }
+          if (options_.bias) { v += bias_.ptr<mllm_fp32_t>()[n]; }
+          y[n] = static_cast<mllm_fp32_t>(v);
+        }
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         arm::layernorm_N_fp32(o.ptr<mllm_fp32_t>() + l * loop_size, i.ptr<mllm_fp32_t>() + l * loop_size,
                               options_.elementwise_affine ? weight_.ptr<mllm_fp32_t>() : nullptr,
@@ -43,7 +57,7 @@ void CPULayerNormOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
     case kFloat16: {
       MLLM_CONDITIONAL_PARALLEL_FOR(options_.getThreads() > 1, options_.getThreads(), l, 0, loop_times, 1, {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      // TODO
+        NYI("CPULayerNormOp::forward not support dtype {}", nameOfType(i.dtype()));
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
         arm::layernorm_N_fp16(o.ptr<mllm_fp16_t>() + l * loop_size, i.ptr<mllm_fp16_t>() + l * loop_size,
                               options_.elementwise_affine ? weight_.ptr<mllm_fp16_t>() : nullptr,
-- 
2.43.0


From e1bcbe09067055049880f62c54f03967d8aad814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 153/210] fix: casts between element types must convert on x86

---
 mllm/backends/cpu/ops/CastTypeOp.cpp | 42 ++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/mllm/backends/cpu/ops/CastTypeOp.cpp b/mllm/backends/cpu/ops/CastTypeOp.cpp
index 0b7d7a3..8b340c7 100644
--- a/mllm/backends/cpu/ops/CastTypeOp.cpp
+++ b/mllm/backends/cpu/ops/CastTypeOp.cpp
@@ -12,6 +12,46 @@
 
 namespace mllm::cpu {
 
+#if !defined(MLLM_HOST_ARCH_ARM64) && !defined(MLLM_HOST_ARCH_ARM)
+namespace {
+// Calls f with a value of the C++ type of dtype.
+template<typename F>
+void withType(DataTypes dtype, F&& f) {
+  switch (dtype) {
+    case kFloat32: f(mllm_fp32_t{}); break;
+    case kFloat16: f(mllm_fp16_t{}); break;
+    case kInt8: f(mllm_int8_t{}); break;
+    case kInt16: f(mllm_int16_t{}); break;
+    case kInt32: f(mllm_int32_t{}); break;
+    case kInt64: f(mllm_int64_t{}); break;
+    case kUInt8: f(mllm_uint8_t{}); break;
+    case kUInt16: f(mllm_uint16_t{}); break;
+    case kUInt32: f(mllm_uint32_t{}); break;
+    case kUInt64: f(mllm_uint64_t{}); break;
+    default: NYI("CastTypeOp not implemented for this data type");
+  }
+}
+
+void castAny(const Tensor& i, const Tensor& o) {
+  withType(i.dtype(), [&](auto from) {
+    withType(o.dtype(), [&](auto to) {
+      using From = decltype(from);
+      using To = decltype(to);
+      const auto* src = i.ptr<From>();
+      auto* dst = o.ptr<To>();
+      for (size_t idx = 0; idx < i.numel(); ++idx) {
+        if constexpr (std::is_same_v<From, mllm_fp16_t> || std::is_same_v<To, mllm_fp16_t>) {
+          dst[idx] = static_cast<To>(static_cast<mllm_fp32_t>(src[idx]));
+        } else {
+          dst[idx] = static_cast<To>(src[idx]);
+        }
+      }
+    });
+  });
+}
+}  // namespace
+#endif
+
 CPUCastTypeOp::CPUCastTypeOp(const aops::CastTypeOpOptions& options) : aops::CastTypeOp(options) {}
 
 void CPUCastTypeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
@@ -175,6 +215,8 @@ void CPUCastTypeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tenso
     }
     default: NYI("CastTypeOp not implemented for this data type");
   }
+#else
+  castAny(i, o);
 #endif
 }
 
-- 
2.43.0


From e960bdc701d9cde096f9518e1556848370d5db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 154/210] fix: ceil_mode pooling must not average over what
 lies beyond the padding

---
 mllm/backends/cpu/ops/AvgPool1dOp.cpp | 4 ++--
 mllm/core/aops/AvgPool1dOp.cpp        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/AvgPool1dOp.cpp b/mllm/backends/cpu/ops/AvgPool1dOp.cpp
index 6fba94b..a43da76 100644
--- a/mllm/backends/cpu/ops/AvgPool1dOp.cpp
+++ b/mllm/backends/cpu/ops/AvgPool1dOp.cpp
@@ -59,8 +59,8 @@ void CPUAvgPool1dOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
             int input_idx = b * (channels * length) + c * length + input_pos;
             sum += input_ptr[input_idx];
             count++;
-          } else if (options_.count_include_pad) {
-            // If count_include_pad is true, count padded positions
+          } else if (options_.count_include_pad && input_pos < length + padding) {
+            // If count_include_pad is true, count padded positions. What ceil_mode adds beyond the padding does not count.
             count++;
           }
         }
diff --git a/mllm/core/aops/AvgPool1dOp.cpp b/mllm/core/aops/AvgPool1dOp.cpp
index a4e8812..8df0089 100644
--- a/mllm/core/aops/AvgPool1dOp.cpp
+++ b/mllm/core/aops/AvgPool1dOp.cpp
@@ -33,6 +33,8 @@ void AvgPool1dOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>
   int pooled_length;
   if (options_.ceil_mode) {
     pooled_length = static_cast<int>(std::ceil(static_cast<float>(length + 2 * padding - kernel_size) / stride)) + 1;
+    // The last window must begin inside the input or its left padding.
+    if ((pooled_length - 1) * stride >= length + padding) { --pooled_length; }
   } else {
     pooled_length = ((length + 2 * padding - kernel_size) / stride) + 1;
   }
-- 
2.43.0


From bc2a5c9bc9cf2bce659973fe46fdcbfbda49a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 155/210] fix: token ids outside of the embedding table must be
 refused

---
 mllm/backends/cpu/ops/EmbeddingOp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mllm/backends/cpu/ops/EmbeddingOp.cpp b/mllm/backends/cpu/ops/EmbeddingOp.cpp
index 71af75f..772388d 100644
--- a/mllm/backends/cpu/ops/EmbeddingOp.cpp
+++ b/mllm/backends/cpu/ops/EmbeddingOp.cpp
@@ -26,6 +26,10 @@ void CPUEmbeddingOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   const bool use_parallel = options_.getThreads() > 1;
   const int thread_count = options_.getThreads();
   for (int b = 0; b < B; ++b) {
+    for (int s = 0; s < S; ++s) {
+      const auto token_idx = *ins.coffsettedPtr<mllm_int64_t>({b, s});
+      MLLM_RT_ASSERT(token_idx >= 0 && token_idx < options_.vocab_size);
+    }
     MLLM_CONDITIONAL_PARALLEL_FOR(use_parallel, thread_count, s, 0, S, 1, {
       switch (weight_dtype) {
         case kFloat32:
-- 
2.43.0


From 7e71a9a3d00090590b18540251b9482ad73aab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 156/210] fix: sigmoid in place must not allocate its input
 again

---
 mllm/core/aops/SigmoidOp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/core/aops/SigmoidOp.cpp b/mllm/core/aops/SigmoidOp.cpp
index a57d892..bca81e2 100644
--- a/mllm/core/aops/SigmoidOp.cpp
+++ b/mllm/core/aops/SigmoidOp.cpp
@@ -32,6 +32,8 @@ void SigmoidOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   }
 }
 
-void SigmoidOp::setup(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) { BaseOp::setup(inputs, outputs); }
+void SigmoidOp::setup(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
+  if (!options_.isInplace()) { BaseOp::setup(inputs, outputs); }
+}
 
 }  // namespace mllm::aops
-- 
2.43.0


From cc705a71bdd4e5f0566e71208da7e478d4434ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 157/210] fix: radix attention must compute its result on x86

---
 mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp               | 2 +-
 mllm/backends/cpu/ops/RadixAttnOp.cpp                      | 2 +-
 mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp b/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
index 33f0471..763923b 100644
--- a/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
@@ -41,7 +41,7 @@ void CPURadixAttnRelaxOp::forward(const std::vector<Tensor>& inputs, std::vector
           B, options_.q_head, options_.kv_head, S_Q, S_KV, options_.D_QK, options_.D_V, Q.ptr<mllm_fp32_t>(),
           K.ptr<mllm_fp32_t*>(), V.ptr<mllm_fp32_t*>(), O.ptr<mllm_fp32_t>(), options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86) || defined(MLLM_HOST_ARCH_X86_64)
-      fwd_bshd<::mllm::cpu::radix_attn::details::__X86ArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t>(
+      fwd_bshd<::mllm::cpu::radix_attn::details::__AnyArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t>(
           B, options_.q_head, options_.kv_head, S_Q, S_KV, options_.D_QK, options_.D_V, Q.ptr<mllm_fp32_t>(),
           K.ptr<mllm_fp32_t*>(), V.ptr<mllm_fp32_t*>(), O.ptr<mllm_fp32_t>(), options_.getThreads());
 #endif
diff --git a/mllm/backends/cpu/ops/RadixAttnOp.cpp b/mllm/backends/cpu/ops/RadixAttnOp.cpp
index e0b8d92..1de458a 100644
--- a/mllm/backends/cpu/ops/RadixAttnOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnOp.cpp
@@ -34,7 +34,7 @@ void CPURadixAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
                                              K_PTR.ptr<mllm_fp32_t*>(), V_PTR.ptr<mllm_fp32_t*>(), OUT.ptr<mllm_fp32_t>(),
                                              options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86) || defined(MLLM_HOST_ARCH_X86_64)
-      cpu::radix_attn::fwd_bshd<cpu::radix_attn::details::__X86ArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
+      cpu::radix_attn::fwd_bshd<cpu::radix_attn::details::__AnyArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
                                 mllm_fp32_t>(B, options_.H_Q, options_.H_KV, S_Q, S_KV, D, Q.ptr<mllm_fp32_t>(),
                                              K_PTR.ptr<mllm_fp32_t*>(), V_PTR.ptr<mllm_fp32_t*>(), OUT.ptr<mllm_fp32_t>(),
                                              options_.getThreads());
diff --git a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
index cc33816..dfdbfe7 100644
--- a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
@@ -63,7 +63,7 @@ void CPURadixAttnSwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vect
 #elif defined(MLLM_HOST_ARCH_X86) || defined(MLLM_HOST_ARCH_X86_64)
       switch (options_.pattern) {
         case aops::RadixAttnSwaSinkPattern::kDecode: {
-          fwd_bshd_decode<::mllm::cpu::radix_attn::details::__X86ArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
+          fwd_bshd_decode<::mllm::cpu::radix_attn::details::__AnyArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
                           mllm_fp32_t>(B, options_.q_head, options_.kv_head, S_Q, S_KV, options_.D_QK, options_.D_V,
                                        options_.sliding_window, options_.cur_seq_len, Q.ptr<mllm_fp32_t>(),
                                        K.ptr<mllm_fp32_t*>(), V.ptr<mllm_fp32_t*>(), S_AUX.ptr<mllm_fp32_t>(),
@@ -71,7 +71,7 @@ void CPURadixAttnSwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vect
           break;
         }
         case aops::RadixAttnSwaSinkPattern::kPrefill: {
-          fwd_bshd_prefill<::mllm::cpu::radix_attn::details::__X86ArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
+          fwd_bshd_prefill<::mllm::cpu::radix_attn::details::__AnyArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
                            mllm_fp32_t>(B, options_.q_head, options_.kv_head, S_Q, S_KV, options_.D_QK, options_.D_V,
                                         options_.sliding_window, options_.cur_seq_len, Q.ptr<mllm_fp32_t>(),
                                         K.ptr<mllm_fp32_t*>(), V.ptr<mllm_fp32_t*>(), S_AUX.ptr<mllm_fp32_t>(),
-- 
2.43.0


From c09db0b927db8ee3dd1a7d4427dd528c9d04e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 158/210] fix: radix attention without sinks has no fourth
 input

---
 mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp b/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
index 763923b..7726bcd 100644
--- a/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
@@ -14,7 +14,6 @@ void CPURadixAttnRelaxOp::forward(const std::vector<Tensor>& inputs, std::vector
   auto& Q = inputs[0];
   auto& K = inputs[1];
   auto& V = inputs[2];
-  auto& S_AUX = inputs[3];
   auto& O = outputs[0];
 
   // Only Support Contiguous Tensor
-- 
2.43.0


From 50a00038ac48199c3b85a005145f9ddc2f23e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 159/210] fix: paged attention must compute its result on x86

---
 mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp | 4 ++--
 mllm/backends/cpu/ops/PagedAttnOp.cpp                    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
index 5f8d6bb..693ca6f 100644
--- a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
+++ b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
@@ -99,7 +99,7 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
 
 #if defined(__SSE__) || defined(__x86_64__)
               __m128 weight_vec = _mm_set1_ps(weight);
-              __m128 v_vec = _mm_load_ps(v_ptr);
+              __m128 v_vec = _mm_loadu_ps(v_ptr);
               acc = _mm_add_ps(acc, _mm_mul_ps(weight_vec, v_vec));
 #elif defined(__ARM_NEON) || defined(__aarch64__)
                     float32x4_t weight_vec = vdupq_n_f32(weight);
@@ -117,7 +117,7 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
             mllm_fp32_t* out_ptr = __out + b_i * H_Q * S_Q * D + s_q_i * H_Q * D + h_q_i * D + d_i;
 
 #if defined(__SSE__) || defined(__x86_64__)
-            _mm_store_ps(out_ptr, acc);
+            _mm_storeu_ps(out_ptr, acc);
 #elif defined(__ARM_NEON) || defined(__aarch64__)
                 vst1q_f32(out_ptr, acc);
 #else
diff --git a/mllm/backends/cpu/ops/PagedAttnOp.cpp b/mllm/backends/cpu/ops/PagedAttnOp.cpp
index 3311fbc..52b124a 100644
--- a/mllm/backends/cpu/ops/PagedAttnOp.cpp
+++ b/mllm/backends/cpu/ops/PagedAttnOp.cpp
@@ -40,12 +40,12 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
+      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #else
-      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
+      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
-- 
2.43.0


From 32f668a5d2969be6686580139ca9b45f20de369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 160/210] fix: paged attention must step through the batches of
 its whole cache

---
 mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp | 6 +++---
 mllm/backends/cpu/ops/PagedAttnOp.cpp                    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
index 693ca6f..93662e3 100644
--- a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
+++ b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
@@ -19,7 +19,7 @@ namespace mllm::cpu::paged_attn {
 // H_KV should <= H_Q
 __MLLM_UNSAFE_OPT_BEGIN_O3
 template<typename __ArchTag>
-MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_KV, int32_t H_Q, int32_t H_KV, int32_t D,
+MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_KV, int32_t S_CACHE, int32_t H_Q, int32_t H_KV, int32_t D,
                                              const mllm_fp32_t* __restrict__ __q, const mllm_fp32_t* __restrict__ __k,
                                              const mllm_fp32_t* __restrict__ __v, mllm_fp32_t* __restrict__ __out,
                                              mllm_fp32_t* __restrict__ __attn_weights, const mllm_int32_t* __restrict__ __index,
@@ -45,7 +45,7 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
             if (S_Q == 1 || __custom_causal_mask[s_q_i * S_KV + s_kv_i] > -1.f) {
               details::VectorDotProduct<__ArchTag, kFloat32, kFloat32, kFloat32>::run(
                   __q + b_i * H_Q * S_Q * D + s_q_i * H_Q * D + h_q_i * D,
-                  __k + b_i * H_KV * S_KV * D + __index[s_kv_i] * H_KV * D + h_kv_i * D,
+                  __k + b_i * H_KV * S_CACHE * D + __index[s_kv_i] * H_KV * D + h_kv_i * D,
                   __attn_weights + b_i * H_Q * S_Q * S_KV + h_q_i * S_Q * S_KV + s_q_i * S_KV + s_kv_i, D);
               __attn_weights[b_i * H_Q * S_Q * S_KV + h_q_i * S_Q * S_KV + s_q_i * S_KV + s_kv_i] *= scale;
             } else {
@@ -95,7 +95,7 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
 
               // Load value vector (4 elements at a time)
               int32_t physical_block = __index[s_kv_i];
-              const mllm_fp32_t* v_ptr = __v + b_i * H_KV * S_KV * D + physical_block * H_KV * D + h_kv_i * D + d_i;
+              const mllm_fp32_t* v_ptr = __v + b_i * H_KV * S_CACHE * D + physical_block * H_KV * D + h_kv_i * D + d_i;
 
 #if defined(__SSE__) || defined(__x86_64__)
               __m128 weight_vec = _mm_set1_ps(weight);
diff --git a/mllm/backends/cpu/ops/PagedAttnOp.cpp b/mllm/backends/cpu/ops/PagedAttnOp.cpp
index 52b124a..7da0ef5 100644
--- a/mllm/backends/cpu/ops/PagedAttnOp.cpp
+++ b/mllm/backends/cpu/ops/PagedAttnOp.cpp
@@ -36,17 +36,17 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
     case aops::PagedAttnImplType::kAllFp32: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
-          B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
+          B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
-          B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
+          B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #else
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
-          B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
+          B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #endif
-- 
2.43.0


From 9c3fb571424d99bb698817f91e63f620651182b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 161/210] fix: paged attention must compute its result when its
 weights are not asked for

---
 .../cpu/kernels/common/paged_attn/fwd_bshd.hpp  | 17 ++++-------------
 mllm/backends/cpu/ops/PagedAttnOp.cpp           |  9 +++++----
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
index 93662e3..53f5491 100644
--- a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
+++ b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
@@ -31,9 +31,10 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
 
   auto scale = 1.f / sqrtf(D);
 
-  // 3 Passes.
-  if (need_return_attn_weights) {
-    if (!__attn_weights) { return false; }
+  if (!__attn_weights) { return false; }
+
+  // 3 Passes. FIXME: without need_return_attn_weights, 2 passes (FA2) would do and need no attention weights.
+  {
 
     // Pass 1. Q @ K^T
     for (int32_t b_i = 0; b_i < B; ++b_i) {                                                  // B
@@ -130,16 +131,6 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
         }
       });
     }
-  } else
-  // 2 Pass FA2 Method.
-  {
-    for (int32_t b_i = 0; b_i < B; ++b_i) {
-      // Parallel Loop at head level
-      MLLM_CONDITIONAL_PARALLEL_FOR(thread_count > 1, thread_count, h_q_i, 0, H_Q, 1, {
-        int32_t h_kv_i = h_q_i / head_repeat_times;
-        // TODO for loops here.
-      });
-    }
   }
   return true;
 }
diff --git a/mllm/backends/cpu/ops/PagedAttnOp.cpp b/mllm/backends/cpu/ops/PagedAttnOp.cpp
index 7da0ef5..2488b5a 100644
--- a/mllm/backends/cpu/ops/PagedAttnOp.cpp
+++ b/mllm/backends/cpu/ops/PagedAttnOp.cpp
@@ -27,7 +27,8 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   auto D = q_shape[3];
 
   auto& out = outputs[0];
-  Tensor attn = options_.need_attn_weights ? outputs[1] : Tensor::nil();
+  // The weights are worked out in any case
+  Tensor attn = options_.need_attn_weights ? outputs[1] : Tensor::empty({B, H_Q, S_Q, S_KV}, kFloat32, kCPU).alloc();
 
   // Not support yet.
   MLLM_RT_ASSERT_EQ(options_.fuse_rope, false);
@@ -37,17 +38,17 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
           B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
-          options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
+          attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
-          options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
+          attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #else
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
-          options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
+          attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #endif
       break;
-- 
2.43.0


From 224e887b8875af2e2d656197585ff3aac46faac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 162/210] fix: attention operators must say which cases they do
 not implement

---
 mllm/backends/cpu/ops/PagedAttnOp.cpp                     | 8 +++++---
 .../backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mllm/backends/cpu/ops/PagedAttnOp.cpp b/mllm/backends/cpu/ops/PagedAttnOp.cpp
index 2488b5a..f5446e5 100644
--- a/mllm/backends/cpu/ops/PagedAttnOp.cpp
+++ b/mllm/backends/cpu/ops/PagedAttnOp.cpp
@@ -36,24 +36,26 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   switch (options_.impl_type) {
     case aops::PagedAttnImplType::kAllFp32: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
+      auto ok = paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
           B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
+      auto ok = paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #else
-      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
+      auto ok = paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, K.shape()[1], H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #endif
+      if (!ok) { NYI("PagedAttnOp not support this shape, head_dim should be a multiple of 4"); }
       break;
     }
     case aops::PagedAttnImplType::kDefault: {
+      NYI("PagedAttnOp::forward not support PagedAttnImplType::kDefault");
       break;
     }
   }
diff --git a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
index dfdbfe7..98ac541 100644
--- a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
@@ -56,7 +56,7 @@ void CPURadixAttnSwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vect
           break;
         }
         case aops::RadixAttnSwaSinkPattern::kAppend: {
-          // TODO
+          NYI("RadixAttnSwaSink::forward not support pattern kAppend");
           break;
         }
       }
@@ -79,7 +79,7 @@ void CPURadixAttnSwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vect
           break;
         }
         case aops::RadixAttnSwaSinkPattern::kAppend: {
-          // TODO
+          NYI("RadixAttnSwaSink::forward not support pattern kAppend");
           break;
         }
       }
-- 
2.43.0


From 5a4a9be36b99314aaf043f7f97ce5a36bc40b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 163/210] fix: flash attention must follow the strides of keys
 and values

---
 .../cpu/kernels/common/fa2_1/fwd_bshd.hpp       | 12 +++++++-----
 .../fa2_1_swa_sink/fa2_swa_sink_fwd_bshd.hpp    | 12 +++++++-----
 mllm/backends/cpu/ops/FlashAttention2Op.cpp     | 17 +++++++++++------
 .../cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp      | 17 +++++++++++------
 4 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/fa2_1/fwd_bshd.hpp b/mllm/backends/cpu/kernels/common/fa2_1/fwd_bshd.hpp
index c891579..f4a674c 100644
--- a/mllm/backends/cpu/kernels/common/fa2_1/fwd_bshd.hpp
+++ b/mllm/backends/cpu/kernels/common/fa2_1/fwd_bshd.hpp
@@ -22,10 +22,12 @@ namespace mllm::cpu::flash_attn2 {
 
 // QKV is BSHD
 // H_KV should <= H_Q
+// K and V may be views: __k_stride and __v_stride are the strides of B, S and H. D is contiguous.
 template<typename __ArchTag, typename __QDType, typename __KDType, typename __VDType, typename __ODType, typename __AccDType,
          bool high_precession_exp = true>
 void fwd_bshd(int32_t B, int32_t H_Q, int32_t H_KV, int32_t S_Q, int32_t S_KV, int32_t D, const __QDType* __restrict__ __q,
-              __KDType* __k, __VDType* __v, __ODType* __restrict__ __out, int32_t thread_count) {
+              __KDType* __k, const int64_t (&__k_stride)[3], __VDType* __v, const int64_t (&__v_stride)[3],
+              __ODType* __restrict__ __out, int32_t thread_count) {
   int32_t head_repeat_times = H_Q / H_KV;
 
   __AccDType scale = scale = std::sqrt(1.0 / D) * (__AccDType)std::numbers::log2e;
@@ -54,13 +56,13 @@ void fwd_bshd(int32_t B, int32_t H_Q, int32_t H_KV, int32_t S_Q, int32_t S_KV, i
 
         for (int s_kv_idx = 0; s_kv_idx < S_KV_BOUND; ++s_kv_idx) {
           // k_token and v_token shape is [B, 1, H, D]
-          __KDType* k_token = __k + b_idx * S_KV * H_KV * D + s_kv_idx * H_KV * D;
-          __VDType* v_token = __v + b_idx * S_KV * H_KV * D + s_kv_idx * H_KV * D;
+          __KDType* k_token = __k + b_idx * __k_stride[0] + s_kv_idx * __k_stride[1];
+          __VDType* v_token = __v + b_idx * __v_stride[0] + s_kv_idx * __v_stride[1];
 
           // Offset to one head.
           // k_token and v_token shape is [D]
-          k_token = k_token + h_kv_id * D;
-          v_token = v_token + h_kv_id * D;
+          k_token = k_token + h_kv_id * __k_stride[2];
+          v_token = v_token + h_kv_id * __v_stride[2];
 
           // 1. MMA0. Q @ K -> A_i
           __AccDType acc_s;
diff --git a/mllm/backends/cpu/kernels/common/fa2_1_swa_sink/fa2_swa_sink_fwd_bshd.hpp b/mllm/backends/cpu/kernels/common/fa2_1_swa_sink/fa2_swa_sink_fwd_bshd.hpp
index 750682e..d6f5df4 100644
--- a/mllm/backends/cpu/kernels/common/fa2_1_swa_sink/fa2_swa_sink_fwd_bshd.hpp
+++ b/mllm/backends/cpu/kernels/common/fa2_1_swa_sink/fa2_swa_sink_fwd_bshd.hpp
@@ -20,11 +20,13 @@
 
 // QKV is BSHD
 // H_KV should <= H_Q
+// K and V may be views: __k_stride and __v_stride are the strides of B, S and H. D is contiguous.
 template<typename __ArchTag, typename __QDType, typename __KDType, typename __VDType, typename __ODType, typename __AccDType,
          bool high_precession_exp = true>
 void fwd_bshd_swa_with_sink(int32_t B, int32_t H_Q, int32_t H_KV, int32_t S_Q, int32_t S_KV, int32_t D_QK, int32_t D_V,
                             int left_sliding_window, int32_t cur_kv_seq_len, const __QDType* __restrict__ __q, __KDType* __k,
-                            __VDType* __v, __AccDType* __s_aux, __ODType* __restrict__ __out, int32_t thread_count) {
+                            const int64_t (&__k_stride)[3], __VDType* __v, const int64_t (&__v_stride)[3], __AccDType* __s_aux,
+                            __ODType* __restrict__ __out, int32_t thread_count) {
   // NOTE: Assume s_kv always less equal then sliding_window.
   if (S_KV > left_sliding_window) {
     MLLM_ERROR_EXIT(mllm::ExitCode::kCPUKernelError,
@@ -69,13 +71,13 @@ void fwd_bshd_swa_with_sink(int32_t B, int32_t H_Q, int32_t H_KV, int32_t S_Q, i
 
         for (int s_kv_idx = local_attention_start; s_kv_idx < local_attention_end; ++s_kv_idx) {
           // k_token and v_token shape is [B, 1, H, D]
-          __KDType* k_token = __k + b_idx * S_KV * H_KV * D_QK + s_kv_idx * H_KV * D_QK;
-          __VDType* v_token = __v + b_idx * S_KV * H_KV * D_V + s_kv_idx * H_KV * D_V;
+          __KDType* k_token = __k + b_idx * __k_stride[0] + s_kv_idx * __k_stride[1];
+          __VDType* v_token = __v + b_idx * __v_stride[0] + s_kv_idx * __v_stride[1];
 
           // Offset to one head.
           // k_token and v_token shape is [D]
-          k_token = k_token + h_kv_id * D_QK;
-          v_token = v_token + h_kv_id * D_V;
+          k_token = k_token + h_kv_id * __k_stride[2];
+          v_token = v_token + h_kv_id * __v_stride[2];
 
           // 1. MMA0. Q @ K -> A_i
           __AccDType acc_s;
diff --git a/mllm/backends/cpu/ops/FlashAttention2Op.cpp b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
index 3177d0f..8ac9737 100644
--- a/mllm/backends/cpu/ops/FlashAttention2Op.cpp
+++ b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
@@ -12,8 +12,11 @@ CPUFlashAttention2Op::CPUFlashAttention2Op(const aops::FlashAttention2OpOptions&
 
 void CPUFlashAttention2Op::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& Q = inputs[0];
-  auto& K = inputs[1];
-  auto& V = inputs[2];
+  // The last dimension of K and V should be contiguous
+  auto K = inputs[1];
+  auto V = inputs[2];
+  if (K.stride().back() != 1) { K = K.contiguous(); }
+  if (V.stride().back() != 1) { V = V.contiguous(); }
   auto& O = outputs[0];
 
   // Only Support Contiguous Tensor
@@ -33,19 +36,21 @@ void CPUFlashAttention2Op::forward(const std::vector<Tensor>& inputs, std::vecto
   MLLM_RT_ASSERT_EQ(H_Q, options_.q_head);
   auto S_KV = K.shape()[1];
   MLLM_RT_ASSERT_EQ(S_KV, V.shape()[1]);
+  const int64_t k_stride[3] = {K.stride()[0], K.stride()[1], K.stride()[2]};
+  const int64_t v_stride[3] = {V.stride()[0], V.stride()[1], V.stride()[2]};
 
   switch (Q.dtype()) {
     case kFloat32: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       cpu::flash_attn2::fwd_bshd<cpu::flash_attn2::details::__ArmArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
                                  mllm_fp32_t>(B, options_.q_head, options_.kv_head, S_Q, S_KV, D, Q.ptr<mllm_fp32_t>(),
-                                              K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), O.ptr<mllm_fp32_t>(),
-                                              options_.getThreads());
+                                              K.ptr<mllm_fp32_t>(), k_stride, V.ptr<mllm_fp32_t>(), v_stride,
+                                              O.ptr<mllm_fp32_t>(), options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86) || defined(MLLM_HOST_ARCH_X86_64)
       cpu::flash_attn2::fwd_bshd<cpu::flash_attn2::details::__X86ArchTag, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t, mllm_fp32_t,
                                  mllm_fp32_t>(B, options_.q_head, options_.kv_head, S_Q, S_KV, D, Q.ptr<mllm_fp32_t>(),
-                                              K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), O.ptr<mllm_fp32_t>(),
-                                              options_.getThreads());
+                                              K.ptr<mllm_fp32_t>(), k_stride, V.ptr<mllm_fp32_t>(), v_stride,
+                                              O.ptr<mllm_fp32_t>(), options_.getThreads());
 #endif
       break;
     }
diff --git a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
index b2a08c5..28c45da 100644
--- a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
+++ b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
@@ -13,8 +13,11 @@ CPUFlashAttention2SwaSinkOp::CPUFlashAttention2SwaSinkOp(const aops::FlashAttent
 
 void CPUFlashAttention2SwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& Q = inputs[0];
-  auto& K = inputs[1];
-  auto& V = inputs[2];
+  // The last dimension of K and V should be contiguous
+  auto K = inputs[1];
+  auto V = inputs[2];
+  if (K.stride().back() != 1) { K = K.contiguous(); }
+  if (V.stride().back() != 1) { V = V.contiguous(); }
   auto& S_AUX = inputs[3];
   auto& O = outputs[0];
 
@@ -36,6 +39,8 @@ void CPUFlashAttention2SwaSinkOp::forward(const std::vector<Tensor>& inputs, std
   MLLM_RT_ASSERT_EQ(H_Q, options_.q_head);
   auto S_KV = K.shape()[1];
   MLLM_RT_ASSERT_EQ(S_KV, V.shape()[1]);
+  const int64_t k_stride[3] = {K.stride()[0], K.stride()[1], K.stride()[2]};
+  const int64_t v_stride[3] = {V.stride()[0], V.stride()[1], V.stride()[2]};
 
   switch (Q.dtype()) {
     case mllm::kFloat32: {
@@ -43,14 +48,14 @@ void CPUFlashAttention2SwaSinkOp::forward(const std::vector<Tensor>& inputs, std
       fwd_bshd_swa_with_sink<mllm::cpu::flash_attn2::details::__ArmArchTag, mllm::mllm_fp32_t, mllm::mllm_fp32_t,
                              mllm::mllm_fp32_t, mllm::mllm_fp32_t, mllm::mllm_fp32_t>(
           B, options_.q_head, options_.kv_head, S_Q, S_KV, D_QK, D_V, options_.sliding_window, options_.cur_seq_len,
-          Q.ptr<mllm::mllm_fp32_t>(), K.ptr<mllm::mllm_fp32_t>(), V.ptr<mllm::mllm_fp32_t>(), S_AUX.ptr<mllm::mllm_fp32_t>(),
-          O.ptr<mllm::mllm_fp32_t>(), options_.getThreads());
+          Q.ptr<mllm::mllm_fp32_t>(), K.ptr<mllm::mllm_fp32_t>(), k_stride, V.ptr<mllm::mllm_fp32_t>(), v_stride,
+          S_AUX.ptr<mllm::mllm_fp32_t>(), O.ptr<mllm::mllm_fp32_t>(), options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86) || defined(MLLM_HOST_ARCH_X86_64)
       fwd_bshd_swa_with_sink<mllm::cpu::flash_attn2::details::__X86ArchTag, mllm::mllm_fp32_t, mllm::mllm_fp32_t,
                              mllm::mllm_fp32_t, mllm::mllm_fp32_t, mllm::mllm_fp32_t>(
           B, options_.q_head, options_.kv_head, S_Q, S_KV, D_QK, D_V, options_.sliding_window, options_.cur_seq_len,
-          Q.ptr<mllm::mllm_fp32_t>(), K.ptr<mllm::mllm_fp32_t>(), V.ptr<mllm::mllm_fp32_t>(), S_AUX.ptr<mllm::mllm_fp32_t>(),
-          O.ptr<mllm::mllm_fp32_t>(), options_.getThreads());
+          Q.ptr<mllm::mllm_fp32_t>(), K.ptr<mllm::mllm_fp32_t>(), k_stride, V.ptr<mllm::mllm_fp32_t>(), v_stride,
+          S_AUX.ptr<mllm::mllm_fp32_t>(), O.ptr<mllm::mllm_fp32_t>(), options_.getThreads());
 #endif
       break;
     }
-- 
2.43.0


From 7ea5b650cd663af4984d55e79543c38648317542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 164/210] fix: sliding window attention without sinks must not
 read a fourth input

---
 mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp     | 9 ++++++++-
 .../cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
index 28c45da..542a4b9 100644
--- a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
+++ b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
@@ -1,7 +1,9 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <limits>
 #include <cstring>
+#include <algorithm>
 #include "mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.hpp"
 #include "mllm/backends/cpu/kernels/common/fa2_1_swa_sink/fa2_swa_sink_fwd_bshd.hpp"
 #include "mllm/core/DataTypes.hpp"
@@ -18,7 +20,12 @@ void CPUFlashAttention2SwaSinkOp::forward(const std::vector<Tensor>& inputs, std
   auto V = inputs[2];
   if (K.stride().back() != 1) { K = K.contiguous(); }
   if (V.stride().back() != 1) { V = V.contiguous(); }
-  auto& S_AUX = inputs[3];
+  // Without sinks, a sink that takes no weight
+  auto S_AUX = options_.s_aux_enable ? inputs[3]
+                                     : Tensor::empty({Q.shape()[2]}, kFloat32, kCPU).alloc();
+  if (!options_.s_aux_enable) {
+    std::fill_n(S_AUX.ptr<mllm_fp32_t>(), Q.shape()[2], -std::numeric_limits<mllm_fp32_t>::infinity());
+  }
   auto& O = outputs[0];
 
   // Only Support Contiguous Tensor
diff --git a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
index 98ac541..8a409e2 100644
--- a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
@@ -1,6 +1,8 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <limits>
+#include <algorithm>
 #include "mllm/core/Tensor.hpp"
 #include "mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.hpp"
 #include "mllm/backends/cpu/kernels/common/radix_swa_sink/radix_swa_sink_fwd_bshd.hpp"
@@ -15,7 +17,12 @@ void CPURadixAttnSwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vect
   auto& Q = inputs[0];
   auto& K = inputs[1];
   auto& V = inputs[2];
-  auto& S_AUX = inputs[3];
+  // Without sinks, a sink that takes no weight
+  auto S_AUX = options_.s_aux_enable ? inputs[3]
+                                     : Tensor::empty({Q.shape()[2]}, kFloat32, kCPU).alloc();
+  if (!options_.s_aux_enable) {
+    std::fill_n(S_AUX.ptr<mllm_fp32_t>(), Q.shape()[2], -std::numeric_limits<mllm_fp32_t>::infinity());
+  }
   auto& O = outputs[0];
 
   // Only Support Contiguous Tensor
-- 
2.43.0


From df04be9f03e4f1db7c934f5ce49099488bfcb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 165/210] fix: attention operators must refuse keys and values
 that do not fit the queries

---
 mllm/backends/cpu/ops/FlashAttention2Op.cpp                | 6 ++++++
 mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp       | 2 ++
 mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp               | 1 +
 mllm/backends/cpu/ops/RadixAttnOp.cpp                      | 1 +
 mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp | 1 +
 5 files changed, 11 insertions(+)

diff --git a/mllm/backends/cpu/ops/FlashAttention2Op.cpp b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
index 8ac9737..8015ef4 100644
--- a/mllm/backends/cpu/ops/FlashAttention2Op.cpp
+++ b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
@@ -34,6 +34,12 @@ void CPUFlashAttention2Op::forward(const std::vector<Tensor>& inputs, std::vecto
   auto H_Q = Q.shape()[2];
   auto D = Q.shape()[3];
   MLLM_RT_ASSERT_EQ(H_Q, options_.q_head);
+  MLLM_RT_ASSERT(options_.kv_head > 0 && H_Q % options_.kv_head == 0);
+  for (auto& kv : {K, V}) {
+    MLLM_RT_ASSERT_EQ(kv.shape()[0], B);
+    MLLM_RT_ASSERT_EQ(kv.shape()[2], options_.kv_head);
+    MLLM_RT_ASSERT_EQ(kv.shape()[3], D);
+  }
   auto S_KV = K.shape()[1];
   MLLM_RT_ASSERT_EQ(S_KV, V.shape()[1]);
   const int64_t k_stride[3] = {K.stride()[0], K.stride()[1], K.stride()[2]};
diff --git a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
index 542a4b9..f7433f5 100644
--- a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
+++ b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
@@ -44,6 +44,8 @@ void CPUFlashAttention2SwaSinkOp::forward(const std::vector<Tensor>& inputs, std
   auto D_QK = Q.shape()[3];
   auto D_V = V.shape()[3];
   MLLM_RT_ASSERT_EQ(H_Q, options_.q_head);
+  MLLM_RT_ASSERT_EQ(K.shape()[2], options_.kv_head);
+  MLLM_RT_ASSERT(options_.kv_head > 0 && H_Q % options_.kv_head == 0);
   auto S_KV = K.shape()[1];
   MLLM_RT_ASSERT_EQ(S_KV, V.shape()[1]);
   const int64_t k_stride[3] = {K.stride()[0], K.stride()[1], K.stride()[2]};
diff --git a/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp b/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
index 7726bcd..d1b2eca 100644
--- a/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnDiffDimOp.cpp
@@ -30,6 +30,7 @@ void CPURadixAttnRelaxOp::forward(const std::vector<Tensor>& inputs, std::vector
   auto S_Q = Q.shape()[1];
   auto H_Q = Q.shape()[2];
   MLLM_RT_ASSERT_EQ(H_Q, options_.q_head);
+  MLLM_RT_ASSERT(options_.kv_head > 0 && H_Q % options_.kv_head == 0);
   auto S_KV = K.shape()[0];
   MLLM_RT_ASSERT_EQ(S_KV, V.shape()[0]);
 
diff --git a/mllm/backends/cpu/ops/RadixAttnOp.cpp b/mllm/backends/cpu/ops/RadixAttnOp.cpp
index 1de458a..ec1f8da 100644
--- a/mllm/backends/cpu/ops/RadixAttnOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnOp.cpp
@@ -23,6 +23,7 @@ void CPURadixAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   auto H_Q = Q.shape()[2];
   auto D = Q.shape()[3];
   MLLM_RT_ASSERT_EQ(H_Q, options_.H_Q);
+  MLLM_RT_ASSERT(options_.H_KV > 0 && H_Q % options_.H_KV == 0);
   auto S_KV = K_PTR.shape()[0];
   MLLM_RT_ASSERT_EQ(S_KV, V_PTR.shape()[0]);
 
diff --git a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
index 8a409e2..ffee190 100644
--- a/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
+++ b/mllm/backends/cpu/ops/RadixAttnWithSinkAndSwaDiffDimOp.cpp
@@ -39,6 +39,7 @@ void CPURadixAttnSwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vect
   auto S_Q = Q.shape()[1];
   auto H_Q = Q.shape()[2];
   MLLM_RT_ASSERT_EQ(H_Q, options_.q_head);
+  MLLM_RT_ASSERT(options_.kv_head > 0 && H_Q % options_.kv_head == 0);
   auto S_KV = K.shape()[0];
   MLLM_RT_ASSERT_EQ(S_KV, V.shape()[0]);
 
-- 
2.43.0


From 0c8a58c96fb440efc57dced36ed81f8e7c312230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 166/210] fix: flash attention must say that it only does
 causal attention

---
 mllm/backends/cpu/ops/FlashAttention2Op.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/backends/cpu/ops/FlashAttention2Op.cpp b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
index 8015ef4..0f6b160 100644
--- a/mllm/backends/cpu/ops/FlashAttention2Op.cpp
+++ b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
@@ -45,6 +45,8 @@ void CPUFlashAttention2Op::forward(const std::vector<Tensor>& inputs, std::vecto
   const int64_t k_stride[3] = {K.stride()[0], K.stride()[1], K.stride()[2]};
   const int64_t v_stride[3] = {V.stride()[0], V.stride()[1], V.stride()[2]};
 
+  if (!options_.causal_mask) { NYI("CPUFlashAttention2Op::forward not support attention without causal mask"); }
+
   switch (Q.dtype()) {
     case kFloat32: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-- 
2.43.0


From 94a40cb4267d1267a539311a6203dca7b63112f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 167/210] fix: 3-D convolution must say that it is not
 implemented for the architecture

---
 mllm/backends/cpu/ops/Conv3DOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/backends/cpu/ops/Conv3DOp.cpp b/mllm/backends/cpu/ops/Conv3DOp.cpp
index 26ec51a..ee71415 100644
--- a/mllm/backends/cpu/ops/Conv3DOp.cpp
+++ b/mllm/backends/cpu/ops/Conv3DOp.cpp
@@ -27,6 +27,8 @@ void CPUConv3DOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>
               output.ptr<mllm_fp32_t>(), i_shape[i_shape_size - 5], i_shape[i_shape_size - 4], i_shape[i_shape_size - 3],
               i_shape[i_shape_size - 2], i_shape[i_shape_size - 1], options_.out_channels, options_.kernel_size[0],
               options_.kernel_size[1], options_.kernel_size[2], options_.stride[0], options_.stride[1], options_.stride[2]);
+#else
+          NYI("Conv3D: not implemented for this architecture");
 #endif
           break;
         }
-- 
2.43.0


From 3fc32c529ba382ac88c0891bddbe993dd7a19927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 168/210] fix: deleting a tensor must not touch what it has
 just released

---
 mllm/core/Tensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/core/Tensor.cpp b/mllm/core/Tensor.cpp
index 37aea2d..43ed4f0 100644
--- a/mllm/core/Tensor.cpp
+++ b/mllm/core/Tensor.cpp
@@ -36,8 +36,9 @@ void Tensor::operator delete(void* ptr) noexcept {
 }
 
 void Tensor::delete_() noexcept {
+  if (!this->impl_) { return; }
+  for (auto& [a, view] : this->impl_->attachedViews()) { view.second.reset(); }
   this->impl_.reset();
-  for (auto& [a, _] : this->impl_->attachedViews()) { this->impl_->attachedViews()[a].second.reset(); }
 }
 
 /**
-- 
2.43.0


From 175067638f1559974c465d981685dad4acbf5ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 169/210] fix: generate must not ask sampled logits for their
 device

---
 mllm/models/ARGeneration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 0017061..b195bb2 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -157,6 +157,7 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
     if (i == 0) { prefillEventEndTimePoint(); }
 
     Tensor logits = output["sequence"];
+    auto device = logits.device();
 
     int64_t next_token_id;
     if (use_sampling) {
@@ -177,7 +178,7 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
 
     // [B, S]
     past = output;
-    past["sequence"] = Tensor::empty({1, 1}, kInt64, logits.device()).alloc();
+    past["sequence"] = Tensor::empty({1, 1}, kInt64, device).alloc();
     past["sequence"].at<mllm_int64_t>({0, 0}) = next_token_id;
 
     ar_steps_++;
-- 
2.43.0


From 8892000d836d6fbd9522e7b97f80d2e8cf94605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 170/210] fix: sampling at temperature zero must give the most
 likely token

---
 mllm/models/ARGeneration.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index b195bb2..9d87876 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -350,6 +350,9 @@ int64_t ARGeneration::sampleGreedy(Tensor& logits) {
 __MLLM_UNSAFE_OPT_END
 
 int64_t ARGeneration::sampleTemperature(Tensor& logits, float temperature) {
+  // The limit of ever lower temperatures.
+  if (temperature <= 0.f) { return sampleGreedy(logits); }
+
   Tensor last_logits = getLastLogits(logits);
 
   if (temperature != 1.0f) { last_logits = last_logits * (1.f / temperature); }
@@ -369,6 +372,9 @@ int64_t ARGeneration::sampleTemperature(Tensor& logits, float temperature) {
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 int64_t ARGeneration::sampleTopK(Tensor& logits, int k, float temperature) {
+  // The limit of ever lower temperatures.
+  if (temperature <= 0.f) { return sampleGreedy(logits); }
+
   // We need the last logits
   Tensor last_logits = getLastLogits(logits);
 
@@ -409,6 +415,9 @@ __MLLM_UNSAFE_OPT_END
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 int64_t ARGeneration::sampleTopP(Tensor& logits, float p, float temperature) {
+  // The limit of ever lower temperatures.
+  if (temperature <= 0.f) { return sampleGreedy(logits); }
+
   Tensor last_logits = getLastLogits(logits);
 
   if (temperature != 1.0f) { last_logits = last_logits * (1.f / temperature); }
-- 
2.43.0


From 0dd6f25b65e3668f8d27d93bfad6b439bdfa6b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 171/210] fix: top_k beyond the vocabulary must not sort
 outside of it

---
 mllm/models/ARGeneration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 9d87876..26402e9 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -394,6 +394,8 @@ int64_t ARGeneration::sampleTopK(Tensor& logits, int k, float temperature) {
   auto prob_data = probs.ptr<float>();
   int vocab_size = probs.shape().back();
 
+  k = std::min(k, vocab_size);
+
   // Indexing
   std::vector<int> indices(vocab_size);
   std::iota(indices.begin(), indices.end(), 0);
-- 
2.43.0


From 7746da870a0def11c32e0070184e023127ddceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 172/210] fix: sampling must not give an id outside of the
 vocabulary

---
 mllm/models/ARGeneration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 26402e9..8d3d924 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -473,7 +473,8 @@ int64_t ARGeneration::categoricalSample(const Tensor& probs) {
   std::random_device rd;
   std::mt19937 gen(rd());
   std::uniform_real_distribution<> dis(0.0, 1.0);
-  float r = dis(gen);
+  // The float sum is not exactly one; and r may be rounded up to one.
+  float r = static_cast<float>(dis(gen)) * cumulative_probs.back();
 
   auto it = std::lower_bound(cumulative_probs.begin(), cumulative_probs.end(), r);
   return std::distance(cumulative_probs.begin(), it);
-- 
2.43.0


From 075402bd45a3cca6512f7441af8d1b35cf68eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 173/210] fix: models without an end token must not end at a
 token by chance

---
 mllm/models/ARGeneration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/models/ARGeneration.hpp b/mllm/models/ARGeneration.hpp
index 5eb362f..40041b1 100644
--- a/mllm/models/ARGeneration.hpp
+++ b/mllm/models/ARGeneration.hpp
@@ -125,7 +125,7 @@ class ARGeneration {
 
  protected:
   bool do_sample_ = false;
-  int eos_token_id_;
+  int eos_token_id_ = -1;
   int max_length_ = 1024;
 
   int64_t ar_steps_ = 0;
-- 
2.43.0


From a1928fc54bf6876a3bc117b993a8adea59b0576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 174/210] fix: Qwen3 with untied embeddings must apply its
 output head

---
 mllm/models/qwen3/modeling_qwen3.hpp                 | 4 +++-
 mllm/models/qwen3/modeling_qwen3_fa2.hpp             | 4 +++-
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 4 +++-
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3.hpp b/mllm/models/qwen3/modeling_qwen3.hpp
index 8829b6b..72352b6 100644
--- a/mllm/models/qwen3/modeling_qwen3.hpp
+++ b/mllm/models/qwen3/modeling_qwen3.hpp
@@ -290,6 +290,8 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       // NOTE:
       // model.lm_head.weight is quantization weights of model.embed_tokens.weight
       lm_head_ = reg<nn::Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     // Init inv freq
@@ -334,7 +336,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
diff --git a/mllm/models/qwen3/modeling_qwen3_fa2.hpp b/mllm/models/qwen3/modeling_qwen3_fa2.hpp
index a309159..5377714 100644
--- a/mllm/models/qwen3/modeling_qwen3_fa2.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_fa2.hpp
@@ -263,6 +263,8 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       // NOTE:
       // model.lm_head.weight is quantization weights of model.embed_tokens.weight
       lm_head_ = reg<nn::Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     // Init inv freq
@@ -307,7 +309,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index f4b3cea..658487b 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -407,6 +407,8 @@ class Qwen3ProbingForCausalLM : public ARGeneration, public Module {
     llm = reg<Qwen3ProbingText>("model", cfg);
     if (cfg.tie_word_embeddings) {
       lm_head_ = reg<Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
     auto inv = makeRoPEInvFreq(cfg.head_dim, cfg.rope_theta);
     registerBuffer("inv_freq", inv);
@@ -540,7 +542,7 @@ class Qwen3ProbingForCausalLM : public ARGeneration, public Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
     return {{"sequence", sequence}, {"position_ids", position_ids}};
   }
 
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 2f879c3..302310b 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -319,6 +319,8 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       // NOTE:
       // model.lm_head.weight is quantization weights of model.embed_tokens.weight
       lm_head_ = reg<nn::Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     // Init inv freq
@@ -367,7 +369,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
-- 
2.43.0


From 8858dada3ce2f01b59eed879486bcfcc91df5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 175/210] fix: Qwen3 MoE with untied embeddings must apply its
 output head

---
 mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp b/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
index 379db0c..2ce4f1a 100644
--- a/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
+++ b/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
@@ -423,11 +423,9 @@ class Qwen3MoeForCausalLM : public ARGeneration, public nn::Module {
 
     llm = reg<Qwen3MoeText>("model", cfg);
 
-    if (cfg.tie_word_embeddings) {
-      // NOTE:
-      // model.lm_head.weight is quantization weights of model.embed_tokens.weight
-      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
-    }
+    // NOTE:
+    // If tied, lm_head.weight is quantization weights of model.embed_tokens.weight
+    lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
 
     // Init inv freq
     auto inv = makeRoPEInvFreq(cfg.head_dim, cfg.rope_theta);
@@ -471,7 +469,7 @@ class Qwen3MoeForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
-- 
2.43.0


From 0e3f932c7f93125d9ea312ae00aee5fc2555248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 176/210] fix: SmolLM3 with untied embeddings must apply its
 output head

---
 mllm/models/smollm3_3B/modeling_smollm3.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mllm/models/smollm3_3B/modeling_smollm3.hpp b/mllm/models/smollm3_3B/modeling_smollm3.hpp
index 3d7ee4a..90b2e81 100644
--- a/mllm/models/smollm3_3B/modeling_smollm3.hpp
+++ b/mllm/models/smollm3_3B/modeling_smollm3.hpp
@@ -264,6 +264,8 @@ class Smollm3ForCausalLM : public ARGeneration, public nn::Module {
 
     if (cfg.tie_word_embeddings) {
       lm_head_ = reg<nn::Linear>("model.lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     auto inv = makeRoPEInvFreq(cfg.head_dim, cfg.rope_theta);
@@ -306,9 +308,7 @@ class Smollm3ForCausalLM : public ARGeneration, public nn::Module {
     auto S = sequence.shape()[1];
     sequence = sequence[{kAll, {S - 1}, kAll}];
 
-    if (tie_word_embeddings_) { 
-      sequence = lm_head_(sequence); 
-    }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
-- 
2.43.0


From 2770157b31248f8a2167b4f9d4518416fc9c23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 177/210] fix: SmolLM3 must tell the generation loops its end
 token and length

---
 mllm/models/smollm3_3B/modeling_smollm3.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mllm/models/smollm3_3B/modeling_smollm3.hpp b/mllm/models/smollm3_3B/modeling_smollm3.hpp
index 90b2e81..c735acc 100644
--- a/mllm/models/smollm3_3B/modeling_smollm3.hpp
+++ b/mllm/models/smollm3_3B/modeling_smollm3.hpp
@@ -321,8 +321,6 @@ class Smollm3ForCausalLM : public ARGeneration, public nn::Module {
   nn::StaticCache kv_cache_;
   Smollm3Text llm;
   nn::Linear lm_head_;
-  int eos_token_id_;
-  int max_length_;
   bool tie_word_embeddings_;
 };
 
-- 
2.43.0


From 1c363d652a332ada3de2bf886b8bb7f28e0ccb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 178/210] fix: SmolLM3 layers without rotary embedding must not
 be rotated

---
 .../models/smollm3_3B/configuration_smollm3.hpp | 17 +++++++++++++++++
 mllm/models/smollm3_3B/modeling_smollm3.hpp     |  8 ++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/mllm/models/smollm3_3B/configuration_smollm3.hpp b/mllm/models/smollm3_3B/configuration_smollm3.hpp
index 966a5a6..e58585a 100644
--- a/mllm/models/smollm3_3B/configuration_smollm3.hpp
+++ b/mllm/models/smollm3_3B/configuration_smollm3.hpp
@@ -2,6 +2,8 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <vector>
+
 #include "mllm/core/aops/LinearOp.hpp"
 #include "mllm/engine/ConfigFile.hpp"
 
@@ -30,6 +32,12 @@ struct Smollm3Config : protected ConfigFile {
     pad_token_id = data()["pad_token_id"];
     rope_theta = data()["rope_theta"];
 
+    // Layers without rotary embedding. As in transformers, every 4th one if the config does not list them.
+    if (data().contains("no_rope_layers") && !data()["no_rope_layers"].is_null()) {
+      no_rope_layers = data()["no_rope_layers"].get<std::vector<int32_t>>();
+    }
+    no_rope_layer_interval = data().value("no_rope_layer_interval", 4);
+
     tie_word_embeddings = data()["tie_word_embeddings"];
     max_cache_length = 2048; // Use reasonable default
 
@@ -41,6 +49,15 @@ struct Smollm3Config : protected ConfigFile {
     }
   }
 
+  // no_rope_layers[i] is 0 if layer i has no rotary embedding.
+  [[nodiscard]] bool layerHasRoPE(int32_t layer_idx) const {
+    if (!no_rope_layers.empty()) { return no_rope_layers.at(layer_idx) != 0; }
+    return (layer_idx + 1) % no_rope_layer_interval != 0;
+  }
+
+  std::vector<int32_t> no_rope_layers;
+  int32_t no_rope_layer_interval = 4;
+
   bool attention_bias = false;
   int32_t hidden_size = 2048;
   int32_t head_dim = 128;  // 2048 / 16 = 128
diff --git a/mllm/models/smollm3_3B/modeling_smollm3.hpp b/mllm/models/smollm3_3B/modeling_smollm3.hpp
index c735acc..2cd14f5 100644
--- a/mllm/models/smollm3_3B/modeling_smollm3.hpp
+++ b/mllm/models/smollm3_3B/modeling_smollm3.hpp
@@ -151,8 +151,10 @@ class Smollm3Attention final : public nn::Module {
     key_states = key_states.transpose(1, 2);
     value_states = value_states.transpose(1, 2);
 
-    query_states = q_rope_(query_states, llm_embedding_sin, llm_embedding_cos);
-    key_states = k_rope_(key_states, llm_embedding_sin, llm_embedding_cos);
+    if (use_rope_) {
+      query_states = q_rope_(query_states, llm_embedding_sin, llm_embedding_cos);
+      key_states = k_rope_(key_states, llm_embedding_sin, llm_embedding_cos);
+    }
 
     auto [key_states_result, value_states_result] = past_kv_cache->updateKVCache(layer_idx_, key_states, value_states);
     key_states = std::move(key_states_result);
@@ -178,6 +180,7 @@ class Smollm3Attention final : public nn::Module {
   }
 
   int layer_idx_ = 0;
+  bool use_rope_ = true;
 };
 
 class Smollm3Decoder final : public nn::Module {
@@ -221,6 +224,7 @@ class Smollm3Text final : public nn::Module {
     decode_blocks_ = reg<nn::ModuleList<Smollm3Decoder>>("layers", cfg.num_hidden_layers, cfg);
     for (auto [idx, b] : enumerate(decode_blocks_.list())) { 
       b.self_attn_.layer_idx_ = idx; 
+      b.self_attn_.use_rope_ = cfg.layerHasRoPE(idx);
     }
     norm_ = reg<nn::RMSNorm>("norm", cfg.rms_norm_eps);
     embedding_ = reg<nn::Embedding>("embed_tokens", cfg.vocab_size, cfg.hidden_size);
-- 
2.43.0


From feb0b36e5c0eaa595547bfa73b4ccf7a59924a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 179/210] fix: Llama with tied embeddings must compute its
 logits

---
 mllm/models/llama/modeling_llama.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mllm/models/llama/modeling_llama.hpp b/mllm/models/llama/modeling_llama.hpp
index 58a0336..b0a20e1 100644
--- a/mllm/models/llama/modeling_llama.hpp
+++ b/mllm/models/llama/modeling_llama.hpp
@@ -363,7 +363,11 @@ class LlamaForCausalLM : public nn::Module, public ARGeneration {
     }
 
     Tensor logits;
-    if (!tie_word_embeddings_) { logits = lm_head_(hidden_states); }
+    if (tie_word_embeddings_) {
+      logits = nn::functional::matmul(hidden_states, model.embedding_.weight(), false, true);
+    } else {
+      logits = lm_head_(hidden_states);
+    }
 
     return {
         {"sequence", logits},
-- 
2.43.0


From 5af62568a6bdb7151a3591fe091c5537791e6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 180/210] fix: Llama must tell the generation loops its end
 token and length

---
 mllm/models/llama/modeling_llama.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/models/llama/modeling_llama.hpp b/mllm/models/llama/modeling_llama.hpp
index b0a20e1..43645e0 100644
--- a/mllm/models/llama/modeling_llama.hpp
+++ b/mllm/models/llama/modeling_llama.hpp
@@ -302,6 +302,8 @@ class LlamaForCausalLM : public nn::Module, public ARGeneration {
       lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
     tie_word_embeddings_ = cfg.tie_word_embeddings;
+    eos_token_id_ = cfg.eos_token_id;
+    max_length_ = cfg.max_position_embeddings;
   }
 
   ARGenerationOutputPast forward(const ARGenerationOutputPast& input, const ARGenerationArgs& args) override {
-- 
2.43.0


From 0a41d22a868ef0a4596e4cc41ddb4a79f8e0c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 181/210] fix: Qwen3 must end at the end token of its
 configuration

---
 mllm/models/qwen3/configuration_qwen3.hpp         | 1 +
 mllm/models/qwen3_moe/configuration_qwen3_moe.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mllm/models/qwen3/configuration_qwen3.hpp b/mllm/models/qwen3/configuration_qwen3.hpp
index 7df5137..7474580 100644
--- a/mllm/models/qwen3/configuration_qwen3.hpp
+++ b/mllm/models/qwen3/configuration_qwen3.hpp
@@ -25,6 +25,7 @@ struct Qwen3Config : protected ConfigFile {
 
     bos_token_id = data()["bos_token_id"];
     eos_token_id = data()["eos_token_id"];
+    end_of_text_token_id = eos_token_id;
     rope_theta = data()["rope_theta"];
 
     tie_word_embeddings = data()["tie_word_embeddings"];
diff --git a/mllm/models/qwen3_moe/configuration_qwen3_moe.hpp b/mllm/models/qwen3_moe/configuration_qwen3_moe.hpp
index f3cf5d3..69a96f7 100644
--- a/mllm/models/qwen3_moe/configuration_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/configuration_qwen3_moe.hpp
@@ -27,6 +27,7 @@ struct Qwen3MoeConfig : protected ConfigFile {
     // Special tokens
     bos_token_id = data()["bos_token_id"];
     eos_token_id = data()["eos_token_id"];
+    end_of_text_token_id = eos_token_id;
 
     // Generation config
     tie_word_embeddings = data()["tie_word_embeddings"];
-- 
2.43.0


From 6918bcfd07d17eb465ad365cce2d12da6099cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 182/210] fix: MiniCPM4 longrope must choose its factors by the
 whole sequence

---
 mllm/models/minicpm4/modeling_minicpm4.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/models/minicpm4/modeling_minicpm4.hpp b/mllm/models/minicpm4/modeling_minicpm4.hpp
index 312a457..b49817b 100644
--- a/mllm/models/minicpm4/modeling_minicpm4.hpp
+++ b/mllm/models/minicpm4/modeling_minicpm4.hpp
@@ -326,8 +326,6 @@ class MiniCPM4ForCausalLM : public ARGeneration, public nn::Module {
     auto batch_size = sequence.shape()[0];
     auto seq_len = sequence.shape()[1];
 
-    auto inv_freq = makeRoPEInvFreqWithLongRoPE(cfg.hidden_size / cfg.num_attention_heads, cfg.rope_theta, cfg, seq_len);
-
     Tensor position_ids = Tensor::nil();
     if (input.count("position_ids")) {
       // Use existing position_ids for decode phase
@@ -348,6 +346,10 @@ class MiniCPM4ForCausalLM : public ARGeneration, public nn::Module {
       }
     }
 
+    // Which factors longrope uses depends on how long the whole sequence has become, not this part of it.
+    int total_len = static_cast<int>(*position_ids.offsettedPtr<int64_t>({0, position_ids.shape()[1] - 1})) + 1;
+    auto inv_freq = makeRoPEInvFreqWithLongRoPE(cfg.hidden_size / cfg.num_attention_heads, cfg.rope_theta, cfg, total_len);
+
     // Generate RoPE embeddings using the inv_freq buffer
     auto [llm_embedding_sin, llm_embedding_cos] = makeRotaryPosEmbedding(position_ids, inv_freq, longrope_scaling_factor_);
 
-- 
2.43.0


From 23350a2f021438eb4d919cf00b4aecccb1d6977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 183/210] fix: MiniCPM4 must end at each of its end tokens

---
 mllm/models/ARGeneration.cpp               | 12 +++++++++---
 mllm/models/ARGeneration.hpp               |  4 ++++
 mllm/models/minicpm4/modeling_minicpm4.hpp |  1 +
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 8d3d924..6277305 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -109,7 +109,7 @@ void ARGenerationChatIterator::step() {
   current_step_.current_step = step_count_;
   current_step_.cur_token_id = next_token_id;
 
-  if (next_token_id == eos_token_id_) {
+  if (gen_->isEndToken(next_token_id, eos_token_id_)) {
     // Timing
     gen_->decodeEventEndTimePoint();
     finished_ = true;
@@ -174,7 +174,7 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
 
     generated_tokens.push_back(next_token_id);
 
-    if (next_token_id == eos_token_id) { break; }
+    if (isEndToken(next_token_id, eos_token_id)) { break; }
 
     // [B, S]
     past = output;
@@ -249,7 +249,7 @@ void ARGeneration::streamGenerate(const ARGenerationOutputPast& input, const ARG
 
     callback(next_token_id);
 
-    if (next_token_id == eos_token_id) { break; }
+    if (isEndToken(next_token_id, eos_token_id)) { break; }
 
     // [B, S]
     past = output;
@@ -506,6 +506,12 @@ int ARGeneration::sampleFromDistribution(const std::vector<float>& probs) {
   return dist(gen);
 }
 
+bool ARGeneration::isEndToken(int64_t token_id, int64_t eos_token_id) const {
+  if (token_id == eos_token_id) { return true; }
+  return eos_token_id == eos_token_id_
+         && std::find(more_eos_token_ids_.begin(), more_eos_token_ids_.end(), token_id) != more_eos_token_ids_.end();
+}
+
 void ARGeneration::prefillEventStartTimePoint() { llm_prefill_start_time_ = std::chrono::high_resolution_clock::now(); }
 
 void ARGeneration::prefillEventEndTimePoint() { llm_prefill_end_time_ = std::chrono::high_resolution_clock::now(); }
diff --git a/mllm/models/ARGeneration.hpp b/mllm/models/ARGeneration.hpp
index 40041b1..e949165 100644
--- a/mllm/models/ARGeneration.hpp
+++ b/mllm/models/ARGeneration.hpp
@@ -111,6 +111,9 @@ class ARGeneration {
 
   int sampleFromDistribution(const std::vector<float>& probs);
 
+  // The model's further end tokens count as long as the caller does not name another one.
+  [[nodiscard]] bool isEndToken(int64_t token_id, int64_t eos_token_id) const;
+
   void prefillEventStartTimePoint();
 
   void prefillEventEndTimePoint();
@@ -126,6 +129,7 @@ class ARGeneration {
  protected:
   bool do_sample_ = false;
   int eos_token_id_ = -1;
+  std::vector<int64_t> more_eos_token_ids_;
   int max_length_ = 1024;
 
   int64_t ar_steps_ = 0;
diff --git a/mllm/models/minicpm4/modeling_minicpm4.hpp b/mllm/models/minicpm4/modeling_minicpm4.hpp
index b49817b..933cf3c 100644
--- a/mllm/models/minicpm4/modeling_minicpm4.hpp
+++ b/mllm/models/minicpm4/modeling_minicpm4.hpp
@@ -306,6 +306,7 @@ class MiniCPM4ForCausalLM : public ARGeneration, public nn::Module {
                                 false                                       // use_fa2
     );
     eos_token_id_ = cfg.eos_token_id;
+    more_eos_token_ids_ = cfg.eos_token_ids;
     max_length_ = cfg.max_cache_length;
     tie_word_embeddings_ = cfg.tie_word_embeddings;
 
-- 
2.43.0


From 201bad0972e739cce490d9bb9506266c8429c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 184/210] fix: a request without messages must be refused by
 the Qwen3 sessions

---
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 4 ++--
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 658487b..165c713 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -590,7 +590,7 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
   void streamGenerate(const nlohmann::json& request,
                       const std::function<void(const nlohmann::json&, bool)>& callback) override {
     mllm::cpu::wakeupHpcThreadPool();
-    auto messages = request["messages"];
+    auto messages = request.at("messages");
 
     // 简短指令
     std::string concise_instruction = " Please answer in a single, complete sentence. Keep it concise.";
@@ -1015,7 +1015,7 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
             if (tool_call_item.contains("function")) { tool_call_ptr = &tool_call_item["function"]; }
             const nlohmann::json& tool_call = *tool_call_ptr;
             oss << "<tool_call>\n{\"name\": \"" << tool_call.value("name", "") << R"(", "arguments": )";
-            const auto& args = tool_call["arguments"];
+            const auto& args = tool_call.at("arguments");
             if (args.is_string()) {
               oss << args.get<std::string>();
             } else {
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 302310b..75348e7 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -399,7 +399,7 @@ class Qwen3Session final : public ::mllm::service::Session {
     // The cpu thread pool should start to work
     mllm::cpu::wakeupHpcThreadPool();
 
-    const auto& messages = request["messages"];
+    const auto& messages = request.at("messages");
     auto inputs = applyChatTemplate(messages, {}, true, request.value("enable_thinking", false));
 
     auto full_seq_idx = tokenizer_->convert2Ids(tokenizer_->tokenize(inputs)).toVector<int64_t>();
@@ -641,7 +641,7 @@ class Qwen3Session final : public ::mllm::service::Session {
             const json& tool_call = *tool_call_ptr;
 
             oss << "<tool_call>\n{\"name\": \"" << tool_call.value("name", "") << R"(", "arguments": )";
-            const auto& args = tool_call["arguments"];
+            const auto& args = tool_call.at("arguments");
             if (args.is_string()) {
               oss << args.get<std::string>();
             } else {
-- 
2.43.0


From 4db9ccd0018677e2015b2eed70c08bf169e72214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 185/210] fix: a prompt that is wholly cached must be answered

---
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 6 ++++++
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 165c713..ccdd33a 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -614,6 +614,12 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
     ARGenerationArgs args;
     ARGenerationOutputPast input;
     auto prefix_cache_result = cache_->find(full_seq_idx);
+    // The last token is always computed: its logits are what the answer starts from.
+    if (prefix_cache_result.matched_length == full_seq_idx.size()) {
+      prefix_cache_result.matched_length--;
+      for (auto& k_vec : prefix_cache_result.k_cache_addresses) k_vec.pop_back();
+      for (auto& v_vec : prefix_cache_result.v_cache_addresses) v_vec.pop_back();
+    }
     std::span<int64_t> reduced_seq_idx(full_seq_idx.data() + prefix_cache_result.matched_length,
                                        full_seq_idx.size() - prefix_cache_result.matched_length);
     std::vector<int64_t> position_ids;
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 75348e7..33b5638 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -408,6 +408,12 @@ class Qwen3Session final : public ::mllm::service::Session {
 
     // Search in the radix cache. Find the tokens we really need to compute.
     auto prefix_cache_result = cache_->find(full_seq_idx);
+    // The last token is always computed: its logits are what the answer starts from.
+    if (prefix_cache_result.matched_length == full_seq_idx.size()) {
+      prefix_cache_result.matched_length--;
+      for (auto& k_vec : prefix_cache_result.k_cache_addresses) k_vec.pop_back();
+      for (auto& v_vec : prefix_cache_result.v_cache_addresses) v_vec.pop_back();
+    }
     fmt::print("Reuse Tokens: {}, compute budget: {} tokens\n", prefix_cache_result.matched_length,
                full_seq_idx.size() - prefix_cache_result.matched_length);
     std::span<int64_t> reduced_seq_idx(full_seq_idx.data() + prefix_cache_result.matched_length,
-- 
2.43.0


From d4ab88c1e88ba8307f2789bb416dae1616a78da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 186/210] fix: a prompt with one token left to compute must
 keep its position

---
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 2 ++
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index ccdd33a..331b58d 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -630,6 +630,8 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
       std::ranges::copy(std::views::iota(static_cast<int64_t>(start), static_cast<int64_t>(end)),
                         std::back_inserter(position_ids));
     }
+    // A single token follows the position given, as in decode phase.
+    if (position_ids.size() == 1) { position_ids[0]--; }
     input["sequence"] = Tensor::fromVector(reduced_seq_idx, {1, (int32_t)reduced_seq_idx.size()}, kInt64, kCPU);
     input["position_ids"] = Tensor::fromVector(position_ids, {1, (int32_t)position_ids.size()}, kInt64, kCPU);
     k_cache_addrs_ = prefix_cache_result.k_cache_addresses;
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 33b5638..cbd46a3 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -426,6 +426,8 @@ class Qwen3Session final : public ::mllm::service::Session {
       std::ranges::copy(std::views::iota(static_cast<int64_t>(start), static_cast<int64_t>(end)),
                         std::back_inserter(position_ids));
     }
+    // A single token follows the position given, as in decode phase.
+    if (position_ids.size() == 1) { position_ids[0]--; }
     MLLM_RT_ASSERT_EQ(reduced_seq_idx.size(), position_ids.size());
     input["sequence"] = Tensor::fromVector(reduced_seq_idx, {1, (int32_t)reduced_seq_idx.size()}, kInt64, kCPU);
     input["position_ids"] = Tensor::fromVector(position_ids, {1, (int32_t)position_ids.size()}, kInt64, kCPU);
-- 
2.43.0


From 0108b3895f623ab3e691f9e7a4f9e7af52669ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:52 +0000
Subject: [PATCH 187/210] fix: Qwen3 sessions must take one request at a time

---
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 5 +++++
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 331b58d..6b22b73 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <span>
+#include <mutex>
 #include <memory>
 #include <ranges>
 #include <algorithm>
@@ -589,6 +590,9 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
 
   void streamGenerate(const nlohmann::json& request,
                       const std::function<void(const nlohmann::json&, bool)>& callback) override {
+    // One request at a time: the blocks of its cache are kept in the session, and there is one model.
+    std::lock_guard<std::mutex> lock(mtx_);
+
     mllm::cpu::wakeupHpcThreadPool();
     auto messages = request.at("messages");
 
@@ -1048,6 +1052,7 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
   }
 
  private:
+  std::mutex mtx_;
   std::vector<std::vector<prefix_cache::vp_addr_t>> k_cache_addrs_;
   std::vector<std::vector<prefix_cache::vp_addr_t>> v_cache_addrs_;
   std::shared_ptr<Qwen3ProbingForCausalLM> model_;
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index cbd46a3..969d381 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <span>
+#include <mutex>
 #include <memory>
 #include <ranges>
 #include <algorithm>
@@ -396,6 +397,9 @@ class Qwen3Session final : public ::mllm::service::Session {
 
   void streamGenerate(const nlohmann::json& request,
                       const std::function<void(const nlohmann::json&, bool)>& callback) override {
+    // One request at a time: the blocks of its cache are kept in the session, and there is one model.
+    std::lock_guard<std::mutex> lock(mtx_);
+
     // The cpu thread pool should start to work
     mllm::cpu::wakeupHpcThreadPool();
 
@@ -677,6 +681,7 @@ class Qwen3Session final : public ::mllm::service::Session {
 
  private:
   // States
+  std::mutex mtx_;
   std::vector<std::vector<prefix_cache::vp_addr_t>> k_cache_addrs_;
   std::vector<std::vector<prefix_cache::vp_addr_t>> v_cache_addrs_;
 
-- 
2.43.0


From b987cdf3b0b4a4581e900b593bfd1dd6f4d57e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:52 +0000
Subject: [PATCH 188/210] fix: Qwen3 sessions must give back the cache blocks
 that are not kept

---
 .../qwen3/modeling_qwen3_probing_service.hpp  | 37 ++++++++++---
 mllm/models/qwen3/modeling_qwen3_service.hpp  | 52 ++++++++++++++-----
 2 files changed, 69 insertions(+), 20 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 6b22b73..82bcbb6 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -588,6 +588,35 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
     return std::distance(output_ids.begin(), it);
   }
 
+  // Keep in the prefix cache what was computed for the tokens before any thinking, and give back all other blocks.
+  void settle(std::vector<int64_t>& full_seq_idx) {
+    auto keep = findThinkStartToken(full_seq_idx);
+    for (auto& k_vec : k_cache_addrs_) keep = std::min(keep, k_vec.size());
+    for (auto& v_vec : v_cache_addrs_) keep = std::min(keep, v_vec.size());
+    full_seq_idx.resize(keep);
+    auto k_kept = k_cache_addrs_;
+    auto v_kept = v_cache_addrs_;
+    for (auto& k_vec : k_kept) k_vec.resize(keep);
+    for (auto& v_vec : v_kept) v_vec.resize(keep);
+
+    // Insert generated tokens to the cache.
+    cache_->promote(full_seq_idx, k_kept, v_kept);
+
+    // Tokens the cache knew before keep the blocks they had.
+    auto kept = cache_->find(full_seq_idx);
+    auto release = [this](const std::vector<prefix_cache::vp_addr_t>& used, const std::vector<prefix_cache::vp_addr_t>& in_cache) {
+      for (size_t i = 0; i < used.size(); ++i) {
+        if (i >= in_cache.size() || in_cache[i] != used[i]) { cache_->free(kCPU, used[i]); }
+      }
+    };
+    for (size_t i = 0; i < k_cache_addrs_.size(); ++i) release(k_cache_addrs_[i], kept.k_cache_addresses[i]);
+    for (size_t i = 0; i < v_cache_addrs_.size(); ++i) release(v_cache_addrs_[i], kept.v_cache_addresses[i]);
+
+    // Cleanup session Context
+    k_cache_addrs_ = {};
+    v_cache_addrs_ = {};
+  }
+
   void streamGenerate(const nlohmann::json& request,
                       const std::function<void(const nlohmann::json&, bool)>& callback) override {
     // One request at a time: the blocks of its cache are kept in the session, and there is one model.
@@ -893,13 +922,7 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
       if (std::string(e.what()) != "PROBING_INTERRUPT") std::cerr << e.what() << std::endl;
     }
 
-    auto thinking_end_token_idx = findThinkStartToken(full_seq_idx);
-    full_seq_idx.resize(thinking_end_token_idx);
-    for (auto& k_vec : k_cache_addrs_) k_vec.resize(thinking_end_token_idx);
-    for (auto& v_vec : v_cache_addrs_) v_vec.resize(thinking_end_token_idx);
-    cache_->promote(full_seq_idx, k_cache_addrs_, v_cache_addrs_);
-    k_cache_addrs_ = {};
-    v_cache_addrs_ = {};
+    settle(full_seq_idx);
     mllm::cpu::idleHpcThreadPool();
   }
 
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 969d381..cb78a64 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -395,6 +395,35 @@ class Qwen3Session final : public ::mllm::service::Session {
     return std::distance(output_ids.begin(), it);
   }
 
+  // Keep in the prefix cache what was computed for the tokens before any thinking, and give back all other blocks.
+  void settle(std::vector<int64_t>& full_seq_idx) {
+    auto keep = findThinkStartToken(full_seq_idx);
+    for (auto& k_vec : k_cache_addrs_) keep = std::min(keep, k_vec.size());
+    for (auto& v_vec : v_cache_addrs_) keep = std::min(keep, v_vec.size());
+    full_seq_idx.resize(keep);
+    auto k_kept = k_cache_addrs_;
+    auto v_kept = v_cache_addrs_;
+    for (auto& k_vec : k_kept) k_vec.resize(keep);
+    for (auto& v_vec : v_kept) v_vec.resize(keep);
+
+    // Insert generated tokens to the cache.
+    cache_->promote(full_seq_idx, k_kept, v_kept);
+
+    // Tokens the cache knew before keep the blocks they had.
+    auto kept = cache_->find(full_seq_idx);
+    auto release = [this](const std::vector<prefix_cache::vp_addr_t>& used, const std::vector<prefix_cache::vp_addr_t>& in_cache) {
+      for (size_t i = 0; i < used.size(); ++i) {
+        if (i >= in_cache.size() || in_cache[i] != used[i]) { cache_->free(kCPU, used[i]); }
+      }
+    };
+    for (size_t i = 0; i < k_cache_addrs_.size(); ++i) release(k_cache_addrs_[i], kept.k_cache_addresses[i]);
+    for (size_t i = 0; i < v_cache_addrs_.size(); ++i) release(v_cache_addrs_[i], kept.v_cache_addresses[i]);
+
+    // Cleanup session Context
+    k_cache_addrs_ = {};
+    v_cache_addrs_ = {};
+  }
+
   void streamGenerate(const nlohmann::json& request,
                       const std::function<void(const nlohmann::json&, bool)>& callback) override {
     // One request at a time: the blocks of its cache are kept in the session, and there is one model.
@@ -453,7 +482,7 @@ class Qwen3Session final : public ::mllm::service::Session {
 
     // Iteration start
     int64_t package_cnt = 0;
-    model_->streamGenerate(input, args, [this, &max_length, &request, &full_seq_idx, &package_cnt, &callback](int64_t idx) {
+    auto on_token = [this, &max_length, &request, &full_seq_idx, &package_cnt, &callback](int64_t idx) {
       bool finished = false;
       std::string ret_token;
       if (idx == model_->cfg.eos_token_id || package_cnt + 1 >= max_length) {
@@ -471,7 +500,14 @@ class Qwen3Session final : public ::mllm::service::Session {
       callback(ret_token, finished);
 
       package_cnt++;
-    });
+    };
+    try {
+      model_->streamGenerate(input, args, on_token);
+    } catch (...) {
+      settle(full_seq_idx);
+      mllm::cpu::idleHpcThreadPool();
+      throw;
+    }
 
     // Post process full_seq_idx and k_cache_addrs_/v_cache_addrs_. Only none thinking budget should be insert in radix tree.
     //
@@ -495,17 +531,7 @@ class Qwen3Session final : public ::mllm::service::Session {
     //
     // Explain: That because Qwen3 and other CoT model will remove thinking budget, which means the answer "hello"'s rope is
     // changed in 2ed turn.
-    auto thinking_end_token_idx = findThinkStartToken(full_seq_idx);
-    full_seq_idx.resize(thinking_end_token_idx);
-    for (auto& k_vec : k_cache_addrs_) k_vec.resize(thinking_end_token_idx);
-    for (auto& v_vec : v_cache_addrs_) v_vec.resize(thinking_end_token_idx);
-
-    // Insert generated tokens to the cache.
-    cache_->promote(full_seq_idx, k_cache_addrs_, v_cache_addrs_);
-
-    // Cleanup session Context
-    k_cache_addrs_ = {};
-    v_cache_addrs_ = {};
+    settle(full_seq_idx);
 
     // The cpu thread pool should idle to freeze cpu resource
     mllm::cpu::idleHpcThreadPool();
-- 
2.43.0


From 472cd4d748e05e59a573bd7bd6278381f3f44478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:52 +0000
Subject: [PATCH 189/210] fix: Qwen3 sessions must not lose characters that are
 split over tokens

---
 .../qwen3/modeling_qwen3_probing_service.hpp  |  8 ++++--
 mllm/models/qwen3/modeling_qwen3_service.hpp  |  6 +++--
 mllm/models/qwen3/tokenization_qwen3.hpp      | 26 +++++++++++++++++++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 82bcbb6..0e017e5 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -711,9 +711,10 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
 
     int64_t package_cnt = 0;
     std::string accumulated_output = "";
+    std::string pending;  // Bytes of a character that is not complete
     auto wrapped_callback = [this, &max_length, &request, &full_seq_idx, &package_cnt, &callback, &probe_ctx, &stop_generating,
                              &candidate_key, &debounce_counter, &has_confirmed_key_in_decode,
-                             &accumulated_output](int64_t idx) {
+                             &accumulated_output, &pending](int64_t idx) {
       if (stop_generating) return;
 
       // Calculate token string early for punctuation check
@@ -721,7 +722,10 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
 
       // 0. Accumulate output (Wait for safety check)
       // Do not append EOS token to the buffer
-      if (idx != model_->cfg.eos_token_id) { accumulated_output += current_token_str; }
+      if (idx != model_->cfg.eos_token_id) {
+        pending += tokenizer_->detokenizeBytes(idx);
+        accumulated_output += takeWholeCharacters(pending);
+      }
 
       auto should_skip_token = [](std::string s) -> bool {
         // 1. Trim leading/trailing whitespace (include common whitespace chars)
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index cb78a64..9843795 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -482,7 +482,8 @@ class Qwen3Session final : public ::mllm::service::Session {
 
     // Iteration start
     int64_t package_cnt = 0;
-    auto on_token = [this, &max_length, &request, &full_seq_idx, &package_cnt, &callback](int64_t idx) {
+    std::string pending;  // Bytes of a character that is not complete
+    auto on_token = [this, &max_length, &request, &full_seq_idx, &package_cnt, &callback, &pending](int64_t idx) {
       bool finished = false;
       std::string ret_token;
       if (idx == model_->cfg.eos_token_id || package_cnt + 1 >= max_length) {
@@ -490,7 +491,8 @@ class Qwen3Session final : public ::mllm::service::Session {
         ret_token = "";
       } else {
         finished = false;
-        ret_token = preprocessor::wideString2Utf8String(tokenizer_->detokenize(idx));
+        pending += tokenizer_->detokenizeBytes(idx);
+        ret_token = takeWholeCharacters(pending);
 
         // Update full_seq_idx to include the new token for Radix Tree to use.
         full_seq_idx.push_back(idx);
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index b3d5e64..c6ebb21 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -2,7 +2,9 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <string>
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 
 #include "mllm/preprocessor/tokenizers/BPE.hpp"
@@ -154,6 +156,23 @@ inline bool qwen3Regex(const std::string& str, std::vector<std::wstring>& splitt
   return true;
 }
 
+// Take the characters that are complete from the front of pending. What cannot be a character becomes U+FFFD.
+inline std::string takeWholeCharacters(std::string& pending) {
+  std::string ret;
+  size_t i = 0;
+  while (i < pending.size()) {
+    auto lead = static_cast<unsigned char>(pending[i]);
+    size_t len = lead < 0x80 ? 1 : lead >= 0xC2 && lead < 0xE0 ? 2 : lead >= 0xE0 && lead < 0xF0 ? 3 : lead >= 0xF0 && lead < 0xF5 ? 4 : 0;
+    size_t got = std::min<size_t>(len, 1);
+    while (got < len && i + got < pending.size() && (static_cast<unsigned char>(pending[i + got]) & 0xC0) == 0x80) { got++; }
+    if (got < len && i + got == pending.size()) { break; }  // The rest may follow
+    ret += len && got == len ? pending.substr(i, len) : std::string("\xEF\xBF\xBD");
+    i += std::max<size_t>(got, 1);
+  }
+  pending.erase(0, i);
+  return ret;
+}
+
 struct Qwen3Message {
   std::string prompt;
   static inline std::string message_template =
@@ -225,6 +244,13 @@ class Qwen3Tokenizer final : public mllm::preprocessor::AutoTokenizer {
     return {mllm::preprocessor::utf8string2WideString(utf_8_str)};
   }
 
+  // The bytes a token stands for: they may be a part of a character.
+  std::string detokenizeBytes(int64_t pos_idx) {
+    std::string bytes;
+    for (wchar_t c : _detokenize(pos_idx)) { bytes.push_back((char)(bytes_2_unicode_dict_inverse_[c])); }
+    return bytes;
+  }
+
   Tensor convert2Ids(const std::vector<std::wstring>& strs) override {
     std::vector<int64_t> ids;
     ids.reserve(strs.size());
-- 
2.43.0


From af2c2f786895b1282868f7f74cc83854c8e3676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 190/210] fix: the Qwen3 template must take the thoughts of
 earlier answers away whole

---
 .../qwen3/modeling_qwen3_probing_service.hpp       | 14 +++++++-------
 mllm/models/qwen3/modeling_qwen3_service.hpp       | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 0e017e5..3360dda 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -965,11 +965,11 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
   }
 
   std::string ltrim(const std::string& s) {
-    size_t start = s.find_first_not_of(" \n\r\t\f\v");
+    size_t start = s.find_first_not_of('\n');
     return (start == std::string::npos) ? "" : s.substr(start);
   }
   std::string rtrim(const std::string& s) {
-    size_t end = s.find_last_not_of(" \n\r\t\f\v");
+    size_t end = s.find_last_not_of('\n');
     return (end == std::string::npos) ? "" : s.substr(0, end + 1);
   }
   std::string trim(const std::string& s) { return rtrim(ltrim(s)); }
@@ -1026,11 +1026,11 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
         } else {
           auto think_end_pos = content.find("</think>");
           if (think_end_pos != std::string::npos) {
-            auto think_start_pos = content.rfind("<think>", think_end_pos);
-            if (think_start_pos != std::string::npos) {
-              reasoning_content = content.substr(think_start_pos + 7, think_end_pos - (think_start_pos + 7));
-              content = content.substr(think_end_pos + 8);
-            }
+            reasoning_content = content.substr(0, think_end_pos);
+            auto think_start_pos = reasoning_content.rfind("<think>");
+            if (think_start_pos != std::string::npos) { reasoning_content = reasoning_content.substr(think_start_pos + 7); }
+            reasoning_content = trim(reasoning_content);
+            content = ltrim(content.substr(content.rfind("</think>") + 8));
           }
         }
 
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 9843795..32cd93c 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -587,12 +587,12 @@ class Qwen3Session final : public ::mllm::service::Session {
   }
 
   std::string ltrim(const std::string& s) {
-    size_t start = s.find_first_not_of(" \n\r\t\f\v");
+    size_t start = s.find_first_not_of('\n');
     return (start == std::string::npos) ? "" : s.substr(start);
   }
 
   std::string rtrim(const std::string& s) {
-    size_t end = s.find_last_not_of(" \n\r\t\f\v");
+    size_t end = s.find_last_not_of('\n');
     return (end == std::string::npos) ? "" : s.substr(0, end + 1);
   }
 
@@ -651,11 +651,11 @@ class Qwen3Session final : public ::mllm::service::Session {
         } else {
           auto think_end_pos = content.find("</think>");
           if (think_end_pos != std::string::npos) {
-            auto think_start_pos = content.rfind("<think>", think_end_pos);
-            if (think_start_pos != std::string::npos) {
-              reasoning_content = content.substr(think_start_pos + 7, think_end_pos - (think_start_pos + 7));
-              content = content.substr(think_end_pos + 8);
-            }
+            reasoning_content = content.substr(0, think_end_pos);
+            auto think_start_pos = reasoning_content.rfind("<think>");
+            if (think_start_pos != std::string::npos) { reasoning_content = reasoning_content.substr(think_start_pos + 7); }
+            reasoning_content = trim(reasoning_content);
+            content = ltrim(content.substr(content.rfind("</think>") + 8));
           }
         }
 
-- 
2.43.0


From 2b3bdd7d93d63e10fad7cabccc9d786f016e1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 191/210] fix: the Qwen3 template must describe tools as the
 model was taught

---
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 2 +-
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 3360dda..173129b 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -981,7 +981,7 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
     if (!tools.empty()) {
       oss << "<|im_start|>system\n";
       if (!messages.empty() && messages[0].value("role", "") == "system") { oss << messages[0].value("content", "") << "\n\n"; }
-      oss << "# Tools\n\nYou may call one or more functions to assist with the user query.\n";
+      oss << "# Tools\n\nYou may call one or more functions to assist with the user query.\n\n";
       oss << "You are provided with function signatures within <tools></tools> XML tags:\n<tools>";
       for (const auto& tool : tools) { oss << "\n" << tool.dump(); }
       oss << "\n</tools>\n\nFor each function call, return a json object with function name and arguments within "
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 32cd93c..808b4ca 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -606,7 +606,7 @@ class Qwen3Session final : public ::mllm::service::Session {
     if (!tools.empty()) {
       oss << "<|im_start|>system\n";
       if (!messages.empty() && messages[0].value("role", "") == "system") { oss << messages[0].value("content", "") << "\n\n"; }
-      oss << "# Tools\n\nYou may call one or more functions to assist with the user query.\n";
+      oss << "# Tools\n\nYou may call one or more functions to assist with the user query.\n\n";
       oss << "You are provided with function signatures within <tools></tools> XML tags:\n<tools>";
       for (const auto& tool : tools) { oss << "\n" << tool.dump(); }
       oss << "\n</tools>\n\nFor each function call, return a json object with function name and arguments within "
-- 
2.43.0


From 34e69cc7133ec18ab9bac4d3a6f12eb201dc0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 192/210] fix: a user message that ends with a tool response
 must be known as one

---
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 2 +-
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 173129b..9c4e0e6 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -1001,7 +1001,7 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
         if (msg.value("role", "") == "user" && msg.contains("content") && msg["content"].is_string()) {
           std::string content_str = msg["content"].get<std::string>();
           if (!(content_str.starts_with("<tool_response>")
-                && content_str.find("</tool_response>") == content_str.length() - std::string("</tool_response>").length())) {
+                && content_str.ends_with("</tool_response>"))) {
             last_query_index = i;
             found_last_query = true;
             break;
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 808b4ca..f173538 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -626,7 +626,7 @@ class Qwen3Session final : public ::mllm::service::Session {
         if (msg.value("role", "") == "user" && msg.contains("content") && msg["content"].is_string()) {
           std::string content_str = msg["content"].get<std::string>();
           if (!(content_str.starts_with("<tool_response>")
-                && content_str.find("</tool_response>") == content_str.length() - std::string("</tool_response>").length())) {
+                && content_str.ends_with("</tool_response>"))) {
             last_query_index = i;
             found_last_query = true;
             break;
-- 
2.43.0


From 2ad28e8ef691428329f11ddc74711d52d97881d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:39 +0000
Subject: [PATCH 193/210] fix: the HTTP server must end the stream of a request
 that failed

---
 mllm-cli/pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index 2041117..a6a6a99 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -255,8 +255,8 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 			if json.Unmarshal([]byte(rawResponse), &responseChunk) == nil {
 				if choices, ok := responseChunk["choices"].([]interface{}); ok && len(choices) > 0 {
 					if choice, ok := choices[0].(map[string]interface{}); ok {
-						if reason, ok := choice["finish_reason"].(string); ok && reason == "stop" {
-							log.Println("End of stream detected: finish_reason is 'stop'.")
+						if reason, ok := choice["finish_reason"].(string); ok && reason != "" {
+							log.Printf("End of stream detected: finish_reason is '%s'.", reason)
 							break
 						}
 					}
-- 
2.43.0


From 1342bf78c5b12c296b63f8290869b43140123d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:39 +0000
Subject: [PATCH 194/210] fix: OCR requests must take the image of the 'images'
 field, and no file of the server

---
 mllm-cli/pkg/server/handlers.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index a6a6a99..767c263 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -54,20 +54,27 @@ func (s *Server) preprocessRequestForOCR(payload map[string]interface{}) (bool,
 	var contentArray []interface{}
 	var imageFoundInPayload bool = false
 
+	// Only the server names image files to the model: what messages say of images is taken out of them.
+	imagesOf := make([][]interface{}, len(messages))
+	for i := range messages {
+		if msg, ok := messages[i].(map[string]interface{}); ok {
+			imagesOf[i], _ = msg["images"].([]interface{})
+			delete(msg, "images")
+		}
+	}
+
 	for i := len(messages) - 1; i >= 0; i-- {
 		msg, ok := messages[i].(map[string]interface{})
 		if !ok {
 			continue
 		}
 		if role, _ := msg["role"].(string); role == "user" {
-			delete(msg, "images") 
-
 			if content, ok := msg["content"].([]interface{}); ok {
 				userMessage = msg
 				contentArray = content
 				log.Println("[Handler] Found OpenAI Vision 'content' array.")
 				break
-			} else if images, ok := msg["images"].([]interface{}); ok && len(images) > 0 {
+			} else if images := imagesOf[i]; len(images) > 0 {
 				log.Println("[Handler] Found custom 'images' field.")
 				base64URI, ok := images[0].(string)
 				if !ok || !strings.HasPrefix(base64URI, "data:image") {
-- 
2.43.0


From 1ce494757a336680377c6308cb6e372706017fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:39 +0000
Subject: [PATCH 195/210] fix: the HTTP server must pass numbers on as they
 were sent

---
 mllm-cli/pkg/server/handlers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index 767c263..44d0f6c 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -178,7 +178,9 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 		}
 
 		var requestPayload map[string]interface{}
-		if err := json.NewDecoder(r.Body).Decode(&requestPayload); err != nil {
+		decoder := json.NewDecoder(r.Body)
+		decoder.UseNumber() // Numbers reach the model as they were sent
+		if err := decoder.Decode(&requestPayload); err != nil {
 			http.Error(w, "Invalid request body", http.StatusBadRequest)
 			return
 		}
-- 
2.43.0


From 357f02dbe8218470dbd3f0c3bacee25e18b32e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:39 +0000
Subject: [PATCH 196/210] fix: requests with the same client ID must not get
 each other's answers

---
 mllm-cli/pkg/server/handlers.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index 44d0f6c..e05392b 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -217,13 +217,10 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 
 		requestPayload["model"] = session.SessionID()
 
-		requestID, ok := requestPayload["id"].(string)
-		if !ok || requestID == "" {
-			newID := uuid.New().String()
-			log.Printf("Client did not provide a request ID. Generated a new one: %s", newID)
-			requestID = newID
-			requestPayload["id"] = newID
-		}
+		// Responses are kept by request ID: one of the server's own keeps requests with the same client ID apart.
+		clientID, _ := requestPayload["id"].(string)
+		requestID := uuid.New().String()
+		requestPayload["id"] = requestID
 
 		requestBytes, err := json.Marshal(requestPayload)
 		if err != nil {
@@ -255,13 +252,21 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 				break
 			}
 
+			var responseChunk map[string]interface{}
+			isJSON := json.Unmarshal([]byte(rawResponse), &responseChunk) == nil
+			if isJSON && clientID != "" {
+				responseChunk["id"] = clientID
+				if named, err := json.Marshal(responseChunk); err == nil {
+					rawResponse = string(named)
+				}
+			}
+
 			fmt.Fprintf(w, "data: %s\n\n", rawResponse)
 			if fl, ok := w.(http.Flusher); ok {
 				fl.Flush()
 			}
 
-			var responseChunk map[string]interface{}
-			if json.Unmarshal([]byte(rawResponse), &responseChunk) == nil {
+			if isJSON {
 				if choices, ok := responseChunk["choices"].([]interface{}); ok && len(choices) > 0 {
 					if choice, ok := choices[0].(map[string]interface{}); ok {
 						if reason, ok := choice["finish_reason"].(string); ok && reason != "" {
-- 
2.43.0


From 7f07628aa242c5aba3d97f8cd7eefb288b875493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:54 +0000
Subject: [PATCH 197/210] fix: the HTTP server must take the responses of
 clients that left

---
 mllm-cli/pkg/server/handlers.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index e05392b..1feb03e 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -239,10 +239,12 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 
 		log.Printf("Streaming response for session %s (Request ID: %s)...", session.SessionID(), requestID)
 
+		gone := false
 		for {
-			if r.Context().Err() != nil {
+			if !gone && r.Context().Err() != nil {
+				// The model still answers: its responses are taken, or they would stay for ever.
 				log.Printf("Client disconnected. Stopping stream for %s.", session.SessionID())
-				break
+				gone = true
 			}
 
 			rawResponse := session.PollResponse(requestID)
@@ -261,9 +263,11 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 				}
 			}
 
-			fmt.Fprintf(w, "data: %s\n\n", rawResponse)
-			if fl, ok := w.(http.Flusher); ok {
-				fl.Flush()
+			if !gone {
+				fmt.Fprintf(w, "data: %s\n\n", rawResponse)
+				if fl, ok := w.(http.Flusher); ok {
+					fl.Flush()
+				}
 			}
 
 			if isJSON {
-- 
2.43.0


From 8ac9e93aea128a264022571c041ee7aa91083610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:54 +0000
Subject: [PATCH 198/210] fix: a poll of a stopped service must end the stream

---
 mllm/c_api/Runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/c_api/Runtime.cpp b/mllm/c_api/Runtime.cpp
index e0b301c..84429b8 100644
--- a/mllm/c_api/Runtime.cpp
+++ b/mllm/c_api/Runtime.cpp
@@ -163,8 +163,10 @@ const char* pollResponse(const char* session_id) {
     try {
         nlohmann::json j = nlohmann::json::parse(response);
 
-
-        if (j.contains("choices")) {
+        // The service has stopped, or there is no such request: nothing more will come.
+        if (!j.contains("choices")) {
+            finished = true;
+        } else {
             if (j["choices"].is_array() && !j["choices"].empty()) {
                 const auto& first_choice = j["choices"][0];
                 if (first_choice.contains("finish_reason") && first_choice["finish_reason"] == "stop") {
-- 
2.43.0


From 2de4878adcf32be7bbda6530896427b98a3f6ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:10 +0000
Subject: [PATCH 199/210] fix: IRContext gives every module of a trace a name
 of its own

---
 mllm/compile/ir/Node.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mllm/compile/ir/Node.cpp b/mllm/compile/ir/Node.cpp
index 481f609..ca36fab 100644
--- a/mllm/compile/ir/Node.cpp
+++ b/mllm/compile/ir/Node.cpp
@@ -230,13 +230,12 @@ void IRContext::setValueName(const val_ptr_t& val, const std::string& name) { va
 std::string IRContext::getAutoIndexedValueName() { return std::to_string(auto_indexed_value_name_cnt_++); }
 
 std::string IRContext::getUniqueModuleName(const std::string& base_name) {
-  auto& counter = module_name_counters_[base_name];
-  if (counter == 0) {
-    counter = 1;
-    return base_name;
-  } else {
-    return base_name + "_" + std::to_string(counter++);
-  }
+  // Several modules may share one base name, and a generated name may itself be the base name of a later call. Keep counting
+  // until the name has not been given to anyone.
+  auto name = base_name;
+  while (module_name_counters_.count(name)) { name = base_name + "_" + std::to_string(module_name_counters_[base_name]++); }
+  module_name_counters_[name] = 1;
+  return name;
 }
 
 void IRContext::resetRegion(const region_ptr_t& region) { cur_insert_region_ = region; }
-- 
2.43.0


From 0652045f49b076b3e6b415ecdd7e69640555e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:16 +0000
Subject: [PATCH 200/210] fix: an operation removed from the IR must leave the
 chain of operations

---
 mllm/compile/ir/Node.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mllm/compile/ir/Node.cpp b/mllm/compile/ir/Node.cpp
index ca36fab..284c4ff 100644
--- a/mllm/compile/ir/Node.cpp
+++ b/mllm/compile/ir/Node.cpp
@@ -299,6 +299,14 @@ void IRWriter::removeValue(const val_ptr_t& val) {
   for (auto& output : val->outputs()) { output->inputs().remove(val); }
 }
 
+// The neighbours hold non-owning links to the op, take it out of the chain before it is released.
+static void unlinkFromChain(std::list<op_ptr_t>& ops, const std::list<op_ptr_t>::iterator& it) {
+  op_ptr_t prev_op = it != ops.begin() ? *std::prev(it) : nullptr;
+  op_ptr_t next_op = std::next(it) != ops.end() ? *std::next(it) : nullptr;
+  if (prev_op) prev_op->setNextOp(next_op);
+  if (next_op) next_op->setPrevOp(prev_op);
+}
+
 void IRWriter::removeOp(const op_ptr_t& op) {
   auto& ops = cur_region_->ops();
 
@@ -309,6 +317,7 @@ void IRWriter::removeOp(const op_ptr_t& op) {
 
   auto it = std::find(ops.begin(), ops.end(), op);
   MLLM_RT_ASSERT(it != ops.end());
+  unlinkFromChain(ops, it);
   cur_op_iter_ = ops.erase(it);
 
   is_iterator_modified_ = true;
@@ -318,6 +327,7 @@ void IRWriter::removeOpWithoutEdgeCut(const op_ptr_t& op) {
   auto& ops = cur_region_->ops();
   auto it = std::find(ops.begin(), ops.end(), op);
   MLLM_RT_ASSERT(it != ops.end());
+  unlinkFromChain(ops, it);
   cur_op_iter_ = ops.erase(it);
   is_iterator_modified_ = true;
 }
-- 
2.43.0


From 8346fb700c553a8a79bd0041125d829a08ca84a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:59 +0000
Subject: [PATCH 201/210] fix: an operation inserted after another must know
 the next one

---
 mllm/compile/ir/Node.cpp | 1 +
 mllm/compile/ir/Node.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mllm/compile/ir/Node.cpp b/mllm/compile/ir/Node.cpp
index 284c4ff..9c57ba8 100644
--- a/mllm/compile/ir/Node.cpp
+++ b/mllm/compile/ir/Node.cpp
@@ -366,6 +366,7 @@ void IRWriter::insertOpAtPos(const op_ptr_t& pos_op, Position pos, const op_ptr_
 
       pre_op->setNextOp(new_op);
       new_op->setPrevOp(pre_op);
+      new_op->setNextOp(next_op);
       if (next_op) next_op->setPrevOp(new_op);
 
       cur_op_iter_ = ops.insert(pos_op_iter, new_op);
diff --git a/mllm/compile/ir/Node.hpp b/mllm/compile/ir/Node.hpp
index 2506d5e..c9ed3d0 100644
--- a/mllm/compile/ir/Node.hpp
+++ b/mllm/compile/ir/Node.hpp
@@ -428,6 +428,7 @@ class IRWriter {
 
           pre_op->setNextOp(created_node);
           created_node->setPrevOp(pre_op);
+          created_node->setNextOp(next_op);
           if (next_op) next_op->setPrevOp(created_node);
 
           cur_op_iter_ = ops.insert(pos_op_iter, created_node);
-- 
2.43.0


From 72f7f6ee5e696dd6ee6839e21a2f356caebf26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:00 +0000
Subject: [PATCH 202/210] fix: a kernel launch must keep the device of its
 operation

---
 mllm/compile/ir/Node.hpp                        | 2 +-
 mllm/compile/passes/ProgramLoweringPipeline.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/compile/ir/Node.hpp b/mllm/compile/ir/Node.hpp
index c9ed3d0..23a4696 100644
--- a/mllm/compile/ir/Node.hpp
+++ b/mllm/compile/ir/Node.hpp
@@ -149,7 +149,7 @@ class DeviceInterface {
   bool hasDevice() { return true; }
 
  private:
-  DeviceTypes device_type_;
+  DeviceTypes device_type_ = kCPU;
 };
 
 class Op : public Node, public DeviceInterface<Op> {
diff --git a/mllm/compile/passes/ProgramLoweringPipeline.cpp b/mllm/compile/passes/ProgramLoweringPipeline.cpp
index c184b40..978445d 100644
--- a/mllm/compile/passes/ProgramLoweringPipeline.cpp
+++ b/mllm/compile/passes/ProgramLoweringPipeline.cpp
@@ -44,6 +44,7 @@ bool LinalgIR2ProgramPattern::rewrite(IRWriter& writer, const op_ptr_t& node) {
   auto mllm_op_name = optype2Str(mllm_op->getOpType());
   auto mllm_op_options = jit::binary::dumpLinalgIROptions(node->cast_<ir::linalg::LinalgIROp>()).dump();
   auto kernel_op = writer.createAndReplaceOp<ir::program::KernelLaunchOp>(node, ins, ous, mllm_op_name, mllm_op_options);
+  kernel_op->setDevice(node->getDevice());
 
   if (!mllm_op->getName().empty()) {
     kernel_op->setAttr("symbol_name", writer.getContext()->create<ir::StrAttr>(mllm_op->getName()));
-- 
2.43.0


From 74e4e8c2ef0da3c5f8c4a50600e32edca79834c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:00 +0000
Subject: [PATCH 203/210] fix: a program with an unsupported operation must be
 refused when it is loaded

---
 mllm/compile/jit/interpreter/AopsFromJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/compile/jit/interpreter/AopsFromJson.cpp b/mllm/compile/jit/interpreter/AopsFromJson.cpp
index 1093301..8f78c6c 100644
--- a/mllm/compile/jit/interpreter/AopsFromJson.cpp
+++ b/mllm/compile/jit/interpreter/AopsFromJson.cpp
@@ -156,7 +156,7 @@ BaseOp::ptr_t aopsFromJson(const nlohmann::json& json) {
     }
   }
 
-  MLLM_WARN("Unsupported op in aopsFromJson: {}", json.dump());
+  MLLM_ERROR_EXIT(ExitCode::kCoreError, "Unsupported op in aopsFromJson: {}", json.dump());
   return nullptr;
 }
 
-- 
2.43.0


From b15e7b8b87d3b58bfc066716e9b0bad57096d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:30 +0000
Subject: [PATCH 204/210] fix: the memory solver must not free what a program
 takes, returns or keeps

---
 mllm/compile/passes/EagerMemorySolverPass.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mllm/compile/passes/EagerMemorySolverPass.cpp b/mllm/compile/passes/EagerMemorySolverPass.cpp
index 422f410..a7af914 100644
--- a/mllm/compile/passes/EagerMemorySolverPass.cpp
+++ b/mllm/compile/passes/EagerMemorySolverPass.cpp
@@ -1,6 +1,7 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <limits>
 #include <unordered_map>
 
 #include "mllm/utils/Common.hpp"
@@ -27,6 +28,7 @@ void recursiveIndexTensorOp(std::unordered_map<uint32_t, int32_t>& count, const
       // We only take consider the inputs, outputs should be used at least once.
       auto inputs = sub_op->inputs();
       for (auto input : inputs) {
+        if (input->getAttr("constant")) { continue; }
         if (count.count(input->cast_<ir::tensor::TensorValue>()->tensor_.uuid())) {
           count[input->cast_<ir::tensor::TensorValue>()->tensor_.uuid()]++;
         } else {
@@ -50,6 +52,7 @@ void recursiveInsertFreeTensorOp(std::unordered_map<uint32_t, int32_t>& count, c
       // We only take consider the inputs, outputs should be used at least once.
       auto inputs = sub_op->inputs();
       for (auto input : inputs) {
+        if (input->getAttr("constant")) { continue; }
         if (count.count(input->cast_<ir::tensor::TensorValue>()->tensor_.uuid())) {
           count[input->cast_<ir::tensor::TensorValue>()->tensor_.uuid()]--;
           if (count[input->cast_<ir::tensor::TensorValue>()->tensor_.uuid()] == 0) {
@@ -86,6 +89,16 @@ uint8_t EagerMemorySolverPass::run(const node_ptr_t& op) {
   recursiveIndexTensorOp(tensor_usage_count, getCtx(),
                          getCtx()->lookupSymbolTable(call_op->getSymbolAttr()->str())->cast_<ir::graph::SubGraphOp>());
 
+  // What the program takes, returns, or keeps as a constant does not belong to a single run, it must outlive it.
+  auto main_graph = getCtx()->lookupSymbolTable(call_op->getSymbolAttr()->str())->cast_<ir::graph::SubGraphOp>();
+  auto keep = [&](node_weak_ptr_t value) {
+    if (value->isa_<ir::tensor::TensorValue>()) {
+      tensor_usage_count[value->cast_<ir::tensor::TensorValue>()->tensor_.uuid()] = std::numeric_limits<int32_t>::max();
+    }
+  };
+  for (auto& value : main_graph->getTopRegion()->inputs()) { keep(value); }
+  for (auto& value : main_graph->getTopRegion()->outputs()) { keep(value); }
+
   recursiveInsertFreeTensorOp(tensor_usage_count, getCtx(),
                               getCtx()->lookupSymbolTable(call_op->getSymbolAttr()->str())->cast_<ir::graph::SubGraphOp>());
 
-- 
2.43.0


From 09021702bb8799c3743185f32d01b54fe7fe2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:29 +0000
Subject: [PATCH 205/210] fix: layers a compressed-tensors checkpoint keeps
 unquantized must be matched by their checkpoint names

---
 .../methods/compressed_tensors.py             | 44 ++++++++++---------
 pymllm/quantization/quant_config.py           | 34 +++++++++++++-
 2 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/pymllm/quantization/methods/compressed_tensors.py b/pymllm/quantization/methods/compressed_tensors.py
index db81603..c676f2e 100644
--- a/pymllm/quantization/methods/compressed_tensors.py
+++ b/pymllm/quantization/methods/compressed_tensors.py
@@ -10,7 +10,12 @@ from mllm_kernel.cuda.jit import gptq_marlin_gemm, gptq_marlin_repack
 
 from pymllm.layers.quantize_base import LinearMethodBase
 from pymllm.layers.utils import set_weight_attrs
-from pymllm.quantization.quant_config import QuantizationConfig, register_quantization
+from pymllm.quantization.quant_config import (
+    QuantizationConfig,
+    checkpoint_names,
+    is_layer_unquantized,
+    register_quantization,
+)
 
 MARLIN_SUPPORTED_GROUP_SIZES = [-1, 32, 64, 128]
 GPTQ_MARLIN_MIN_THREAD_N = 64
@@ -618,24 +623,23 @@ class CompressedTensorsConfig(QuantizationConfig):
         self, layer: torch.nn.Module, prefix: str = ""
     ) -> Optional[CompressedTensorsLinearMethod]:
         signature = _validate_supported_signature(self)
-        # Support two matching styles for items in self.ignore:
-        #   1. Exact prefix match: prefix.startswith(ignored)
-        #      e.g. ignore=["lm_head"] matches prefix="lm_head"
-        #   2. Path-component containment: ".ignored." in ".prefix."
-        #      e.g. ignore=["linear_attn"] matches prefix="layers.0.linear_attn.out_proj"
-        # Style 2 is needed because nested module names (e.g. inside decoder layers)
-        # never start with the bare module name.
-        dotted = f".{prefix}."
-        def _is_ignored(ignored: str) -> bool:
-            if not ignored:
-                return False
-            # Support llm-compressor-style regex patterns: "re:.*pattern.*"
-            if ignored.startswith("re:"):
-                try:
-                    return bool(re.search(ignored[3:], prefix))
-                except re.error:
-                    return False
-            return prefix.startswith(ignored) or f".{ignored}." in dotted
-        if any(_is_ignored(ig) for ig in self.ignore):
+        # Items of self.ignore match a module when
+        #   1. they are one or more consecutive components of its path,
+        #      e.g. ignore=["linear_attn"] matches "layers.0.linear_attn.out_proj"
+        #   2. they are a pattern ("re:...") that matches its checkpoint name.
+        def _is_kept(name: str) -> bool:
+            for ignored in self.ignore:
+                if ignored.startswith("re:"):
+                    try:
+                        pattern = re.compile(ignored[3:])
+                    except re.error:
+                        continue
+                    if any(pattern.search(n) for n in checkpoint_names(name)):
+                        return True
+                elif ignored and f".{ignored}." in f".{name}.":
+                    return True
+            return False
+
+        if is_layer_unquantized(prefix, _is_kept):
             return None
         return CompressedTensorsLinearMethod(self, signature)
diff --git a/pymllm/quantization/quant_config.py b/pymllm/quantization/quant_config.py
index 8225f6d..4ca6557 100644
--- a/pymllm/quantization/quant_config.py
+++ b/pymllm/quantization/quant_config.py
@@ -35,13 +35,45 @@ How to add a new quantization method
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional, Type
+from typing import Any, Callable, Dict, List, Optional, Type
 
 import torch
 
 from pymllm.layers.quantize_base import QuantizeMethodBase
 
 
+# ---------------------------------------------------------------------------
+# Layers kept in full precision
+# ---------------------------------------------------------------------------
+
+# Fused layers and the checkpoint modules they are made of.
+_FUSED_SHARDS: Dict[str, List[str]] = {
+    "qkv_proj": ["q_proj", "k_proj", "v_proj"],
+    "gate_up_proj": ["gate_proj", "up_proj"],
+}
+
+
+def checkpoint_names(prefix: str) -> List[str]:
+    """Names a checkpoint may use for the layer pymllm addresses as *prefix*."""
+    return [prefix, f"model.{prefix}", f"model.language_model.{prefix}"]
+
+
+def is_layer_unquantized(prefix: str, is_kept: Callable[[str], bool]) -> bool:
+    """Whether the checkpoint keeps layer *prefix* in full precision.
+
+    *is_kept* decides for one module name.  A fused layer is kept when all the
+    modules it is made of are; keeping only some of them is not supported.
+    """
+    parent, _, leaf = prefix.rpartition(".")
+    shards = [f"{parent}.{s}" if parent else s for s in _FUSED_SHARDS.get(leaf, [])]
+    kept = [s for s in shards if is_kept(s)]
+    if kept and len(kept) != len(shards):
+        raise ValueError(
+            f"{prefix} is fused from {shards}, but only {kept} are unquantized"
+        )
+    return bool(kept) or is_kept(prefix)
+
+
 # ---------------------------------------------------------------------------
 # Registry
 # ---------------------------------------------------------------------------
-- 
2.43.0


From e83cc2150b2074061766532f5f0a2456f842ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:49 +0000
Subject: [PATCH 206/210] fix: channel-wise 4-bit compressed-tensors
 checkpoints must load

---
 pymllm/quantization/methods/compressed_tensors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymllm/quantization/methods/compressed_tensors.py b/pymllm/quantization/methods/compressed_tensors.py
index c676f2e..74660a9 100644
--- a/pymllm/quantization/methods/compressed_tensors.py
+++ b/pymllm/quantization/methods/compressed_tensors.py
@@ -299,10 +299,11 @@ class CompressedTensorsWNA16Scheme:
         set_weight_attrs(weight_packed, {"output_dim": 0, **extra_weight_attrs})
         layer.register_parameter("weight_packed", weight_packed)
 
+        group_size = self.group_size if self.group_size != -1 else input_size
         weight_scale = Parameter(
             torch.empty(
                 output_size_per_partition,
-                input_size_per_partition // self.group_size,
+                input_size_per_partition // group_size,
                 dtype=params_dtype,
             ),
             requires_grad=False,
@@ -582,11 +583,14 @@ class CompressedTensorsConfig(QuantizationConfig):
     def from_config(cls, config: Dict[str, Any]) -> "CompressedTensorsConfig":
         weights = _weights_cfg(config)
         input_activations = _input_activations_cfg(config)
+        group_size = weights["group_size"]
+        if config["format"] == "pack-quantized" and weights.get("strategy") == "channel":
+            group_size = -1  # one scale per output channel
         return cls(
             quant_format=config["format"],
             ignore=cls._normalize_ignore(list(config.get("ignore", []))),
             weight_bits=weights["num_bits"],
-            group_size=weights["group_size"],
+            group_size=group_size,
             weight_strategy=weights.get("strategy"),
             weight_type=weights.get("type"),
             weight_dynamic=bool(weights.get("dynamic", False)),
-- 
2.43.0


From 97c2e05fbe287c88d06670fde1c59c560e3fa6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:49 +0000
Subject: [PATCH 207/210] fix: modules an AWQ checkpoint keeps unquantized must
 be loaded as they are

---
 pymllm/quantization/methods/awq_marlin.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pymllm/quantization/methods/awq_marlin.py b/pymllm/quantization/methods/awq_marlin.py
index e8f929a..947ebad 100644
--- a/pymllm/quantization/methods/awq_marlin.py
+++ b/pymllm/quantization/methods/awq_marlin.py
@@ -22,7 +22,12 @@ from torch.nn import Parameter
 
 from pymllm.layers.quantize_base import LinearMethodBase
 from pymllm.layers.utils import set_weight_attrs
-from pymllm.quantization.quant_config import QuantizationConfig, register_quantization
+from pymllm.quantization.quant_config import (
+    QuantizationConfig,
+    checkpoint_names,
+    is_layer_unquantized,
+    register_quantization,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -468,8 +473,10 @@ class AWQMarlinConfig(QuantizationConfig):
         weight_bits: int,
         group_size: int,
         zero_point: bool,
+        modules_to_not_convert: Optional[List[str]] = None,
     ) -> None:
         super().__init__()
+        self.modules_to_not_convert = modules_to_not_convert or []
         self.weight_bits = weight_bits
         self.group_size = group_size
         self.zero_point = zero_point
@@ -514,11 +521,22 @@ class AWQMarlinConfig(QuantizationConfig):
         weight_bits = config.get("bits", config.get("w_bit", 4))
         group_size = config.get("group_size", 128)
         zero_point = config.get("zero_point", True)
-        return cls(weight_bits, group_size, zero_point)
+        modules_to_not_convert = config.get("modules_to_not_convert")
+        return cls(weight_bits, group_size, zero_point, modules_to_not_convert)
 
     def get_quant_method(
         self,
         layer: torch.nn.Module,
         prefix: str = "",
     ) -> Optional[AWQMarlinLinearMethod]:
+        # AutoAWQ keeps the modules whose name contains one of the entries.
+        def _is_kept(name: str) -> bool:
+            return any(
+                entry in full
+                for entry in self.modules_to_not_convert
+                for full in checkpoint_names(name)
+            )
+
+        if is_layer_unquantized(prefix, _is_kept):
+            return None
         return AWQMarlinLinearMethod(self)
-- 
2.43.0


From 97dfc682e1ad57be11389dc3cf922e694e9c6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:49 +0000
Subject: [PATCH 208/210] fix: AWQ checkpoints of another weight layout must be
 refused

---
 pymllm/quantization/methods/awq_marlin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/quantization/methods/awq_marlin.py b/pymllm/quantization/methods/awq_marlin.py
index 947ebad..ea7be20 100644
--- a/pymllm/quantization/methods/awq_marlin.py
+++ b/pymllm/quantization/methods/awq_marlin.py
@@ -518,6 +518,9 @@ class AWQMarlinConfig(QuantizationConfig):
 
     @classmethod
     def from_config(cls, config: Dict[str, Any]) -> AWQMarlinConfig:
+        version = str(config.get("version", "gemm")).lower()
+        if version != "gemm":
+            raise ValueError(f"Unsupported AWQ weight layout: version={version}")
         weight_bits = config.get("bits", config.get("w_bit", 4))
         group_size = config.get("group_size", 128)
         zero_point = config.get("zero_point", True)
-- 
2.43.0


From 26e6d1d511d73c018cc7109fe3196e8a758cbe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:51 +0000
Subject: [PATCH 209/210] fix: the fused M-RoPE kernel must not read beyond the
 table's row

Heads that are wider than the rotated part, or not a power of two wide, made
it read the padded columns of the cos/sin table: for the last rows that is
memory after the end of the table.
---
 pymllm/layers/rope.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymllm/layers/rope.py b/pymllm/layers/rope.py
index 17fdb39..07d39c3 100644
--- a/pymllm/layers/rope.py
+++ b/pymllm/layers/rope.py
@@ -464,6 +464,12 @@ if triton is not None:
             h_mask = (t_end <= cos_offsets) & (cos_offsets < h_end)
             w_mask = (h_end <= cos_offsets) & (cos_offsets < half_rd)
 
+        # The padded columns have no angle: they lie outside of the table's row.
+        in_row = cos_offsets < half_rd
+        t_mask = t_mask & in_row
+        h_mask = h_mask & in_row
+        w_mask = w_mask & in_row
+
         t_cos_row = tl.load(t_cos + cos_offsets, mask=t_mask, other=0.0)
         t_sin_row = tl.load(t_sin + cos_offsets, mask=t_mask, other=0.0)
         h_cos_row = tl.load(h_cos + cos_offsets, mask=h_mask, other=0.0)
-- 
2.43.0


From 29335a0f6ded58d56efaa7dc473a39b518c6712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:31 +0000
Subject: [PATCH 210/210] fix: a prompt that ends with its image is continued
 after the image's largest position

Qwen2-VL and Qwen2.5-VL took the last position of the time axis, where an image
stays at its first position, so the first generated token overlapped the image.
---
 mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp           | 5 ++++-
 mllm/models/qwen2_5vl/modeling_qwen2_5vl_traceable.hpp | 5 ++++-
 mllm/models/qwen2vl/modeling_qwen2vl.hpp               | 5 ++++-
 mllm/models/qwen2vl/modeling_qwen2vl_traceable.hpp     | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp b/mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp
index a392e54..2bd6403 100644
--- a/mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp
+++ b/mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp
@@ -923,7 +923,10 @@ class Qwen2_5VLForCausalLM : public ARGeneration {
     if (!img.isNil()) {  // Prefill
       return getPositionIdsPrefill(sequence, grid_thw, cfg);
     } else {  // Decode
-      auto last_pos = *position_ids.offsettedPtr<int64_t>({0, 0, position_ids.shape()[2] - 1});
+      // The axes differ where the prompt ends with the image.
+      const auto last = position_ids.shape()[2] - 1;
+      auto last_pos = std::max({*position_ids.offsettedPtr<int64_t>({0, 0, last}), *position_ids.offsettedPtr<int64_t>({1, 0, last}),
+                                *position_ids.offsettedPtr<int64_t>({2, 0, last})});
       auto ret_position_ids = Tensor::empty({3, 1, 1}, kInt64, kCPU).alloc();
       *ret_position_ids.offsettedPtr<int64_t>({0, 0, 0}) = last_pos + 1;
       *ret_position_ids.offsettedPtr<int64_t>({1, 0, 0}) = last_pos + 1;
diff --git a/mllm/models/qwen2_5vl/modeling_qwen2_5vl_traceable.hpp b/mllm/models/qwen2_5vl/modeling_qwen2_5vl_traceable.hpp
index 34a4e4f..6f8a40d 100644
--- a/mllm/models/qwen2_5vl/modeling_qwen2_5vl_traceable.hpp
+++ b/mllm/models/qwen2_5vl/modeling_qwen2_5vl_traceable.hpp
@@ -914,7 +914,10 @@ class Qwen2_5VLForCausalLM : public ARGeneration {
     if (!img.isNil()) {  // Prefill
       return getPositionIdsPrefill(sequence, grid_thw, cfg);
     } else {  // Decode
-      auto last_pos = *position_ids.offsettedPtr<int64_t>({0, 0, position_ids.shape()[2] - 1});
+      // The axes differ where the prompt ends with the image.
+      const auto last = position_ids.shape()[2] - 1;
+      auto last_pos = std::max({*position_ids.offsettedPtr<int64_t>({0, 0, last}), *position_ids.offsettedPtr<int64_t>({1, 0, last}),
+                                *position_ids.offsettedPtr<int64_t>({2, 0, last})});
       auto ret_position_ids = Tensor::empty({3, 1, 1}, kInt64, kCPU).alloc();
       *ret_position_ids.offsettedPtr<int64_t>({0, 0, 0}) = last_pos + 1;
       *ret_position_ids.offsettedPtr<int64_t>({1, 0, 0}) = last_pos + 1;
diff --git a/mllm/models/qwen2vl/modeling_qwen2vl.hpp b/mllm/models/qwen2vl/modeling_qwen2vl.hpp
index df0d247..a4ae65b 100644
--- a/mllm/models/qwen2vl/modeling_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/modeling_qwen2vl.hpp
@@ -786,7 +786,10 @@ class Qwen2VLForCausalLM : public ARGeneration {
     if (!img.isNil()) {  // Prefill
       return getPositionIdsPrefill(sequence, grid_thw, cfg);
     } else {  // Decode
-      auto last_pos = *position_ids.offsettedPtr<int64_t>({0, 0, position_ids.shape()[2] - 1});
+      // The axes differ where the prompt ends with the image.
+      const auto last = position_ids.shape()[2] - 1;
+      auto last_pos = std::max({*position_ids.offsettedPtr<int64_t>({0, 0, last}), *position_ids.offsettedPtr<int64_t>({1, 0, last}),
+                                *position_ids.offsettedPtr<int64_t>({2, 0, last})});
       auto ret_position_ids = Tensor::empty({3, 1, 1}, kInt64, kCPU).alloc();
       *ret_position_ids.offsettedPtr<int64_t>({0, 0, 0}) = last_pos + 1;
       *ret_position_ids.offsettedPtr<int64_t>({1, 0, 0}) = last_pos + 1;
diff --git a/mllm/models/qwen2vl/modeling_qwen2vl_traceable.hpp b/mllm/models/qwen2vl/modeling_qwen2vl_traceable.hpp
index 05c009d..d4fff50 100644
--- a/mllm/models/qwen2vl/modeling_qwen2vl_traceable.hpp
+++ b/mllm/models/qwen2vl/modeling_qwen2vl_traceable.hpp
@@ -873,7 +873,10 @@ class Qwen2VLForCausalLM : public ARGeneration {
     if (!img.isNil()) {  // Prefill
       return getPositionIdsPrefill(sequence, grid_thw, cfg);
     } else {  // Decode
-      auto last_pos = *position_ids.offsettedPtr<int64_t>({0, 0, position_ids.shape()[2] - 1});
+      // The axes differ where the prompt ends with the image.
+      const auto last = position_ids.shape()[2] - 1;
+      auto last_pos = std::max({*position_ids.offsettedPtr<int64_t>({0, 0, last}), *position_ids.offsettedPtr<int64_t>({1, 0, last}),
+                                *position_ids.offsettedPtr<int64_t>({2, 0, last})});
       auto ret_position_ids = Tensor::empty({3, 1, 1}, kInt64, kCPU).alloc();
       *ret_position_ids.offsettedPtr<int64_t>({0, 0, 0}) = last_pos + 1;
       *ret_position_ids.offsettedPtr<int64_t>({1, 0, 0}) = last_pos + 1;
-- 
2.43.0

