From d61b373fe85cc506a6f0cd35f8fe8c10df2b5060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:20 +0000
Subject: [PATCH 001/101] fix: only accept block root gindexes in historic
 proofs

The gindex of a historic proof was taken from the proof without any restriction, so any 32 byte node of the
beacon state (e.g. withdrawal credentials of an attacker controlled deposit) could be presented as block root.
---
 src/chains/eth/verifier/beacon_header.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..ff9f268 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -114,11 +114,23 @@ static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, s
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// the gindex is given by the proof, so we need to make sure it addresses a block root and not any other node of the state.
+static bool is_block_root_gindex(verify_ctx_t* ctx, uint64_t slot, gindex_t gindex) {
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (!spec) return false;
+  gindex_t fields = c4_chain_fork_id(ctx->chain_id, epoch_for_slot(slot, spec)) >= C4_FORK_ELECTRA ? 64 : 32;
+  return (gindex >> 38 == (fields + 27) * 2 && ((gindex >> 13) & 1) == 0) // historical_summaries[i].block_summary_root[j]
+         || gindex >> 13 == fields + 5;                                   // block_roots[j]
+}
+
 static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t historic_proof) {
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
 
+  if (!is_block_root_gindex(ctx, ssz_get_uint64(&signed_header, "slot"), ssz_get_uint64(&historic_proof, "gindex")))
+    THROW_ERROR("invalid gindex for historic proof!");
+
   ssz_hash_tree_root(header, block_root);
   ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
 
-- 
2.43.0


From a888b216f5049c4cd13173d38ff70bf4c389bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:37 +0000
Subject: [PATCH 002/101] fix: require a 2/3 majority of the sync committee

A single participating member of the sync committee was enough to sign a header or a light client update.
---
 src/chains/eth/verifier/beacon_header.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index ff9f268..22880fe 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -155,6 +155,15 @@ c4_status_t c4_verify_header(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t block_
   return c4_verify_historic_proof(ctx, header, sync_committee_bits, sync_committee_signature, header_proof);
 }
 
+// a signature only counts if at least 2/3 of the sync committee participated
+static bool has_supermajority(bytes_t sync_committee_bits) {
+  uint32_t count = 0;
+  for (uint32_t i = 0; i < sync_committee_bits.len; i++) {
+    for (uint8_t b = sync_committee_bits.data[i]; b; b &= b - 1) count++;
+  }
+  return count * 3 >= 512 * 2;
+}
+
 c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, ssz_ob_t* sync_committee_bits, ssz_ob_t* sync_committee_signature, uint64_t slot, bytes32_t pubkey_hash) {
   bytes32_t            root       = {0};
   c4_sync_validators_t sync_state = {0};
@@ -164,6 +173,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   if (slot == 0) slot = ssz_get_uint64(header, "slot") + 1;
   if (slot == 0) THROW_ERROR("slot is missing in beacon header!");
   if (!spec) THROW_ERROR("unsupported chain id!");
+  if (!has_supermajority(sync_committee_bits->bytes)) THROW_ERROR("not enough sync committee participants!");
 
   uint32_t period = slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
 
-- 
2.43.0


From 2caff70b2af63dcd125e8e181e4eb7720af23e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:59 +0000
Subject: [PATCH 003/101] fix: don't list a sync period twice

Storing an already known period added a second entry to the list of periods. The cleanup then removed the keys
of a period which was still listed or dropped the oldest period without deleting its keys.
---
 src/chains/eth/verifier/sync_committee_state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 13261db..78512d6 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -448,6 +448,12 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   c4_get_storage_config(&storage_conf);
 
+  // if the period is already tracked, we only need to replace its data
+  for (uint32_t i = 0; i < period_count(&state); i++) {
+    if (state.data.periods[i] == period)
+      return store_sync_period(period, validators, previous_pubkeys_hash, chain_id);
+  }
+
   // Cleanup old periods if storage limit reached
   uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
 
-- 
2.43.0


From 1bd5bb162e9e426e14a0db326d89678e37f55db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:01 +0000
Subject: [PATCH 004/101] fix: limit the number of sync periods to the size of
 the state

With max_sync_states > 8 the list of periods was written and read beyond its end.
---
 src/chains/eth/verifier/sync_committee_state.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 78512d6..c4e62b1 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -356,13 +356,14 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
   uint32_t periods = period_count(state);
   char     name[100];
 
+  if (max_states > MAX_SYNC_PERIODS) max_states = MAX_SYNC_PERIODS; // there is no room for more periods in the state
   while (periods >= max_states) {
     uint32_t oldest       = 0;
     uint32_t latest       = 0;
     int      oldest_index = 0;
 
     // Find the oldest and latest period
-    for (int i = 0; state->data.periods[i]; i++) {
+    for (int i = 0; i < periods; i++) {
       uint32_t p = state->data.periods[i];
       if (p > latest || latest == 0)
         latest = p;
-- 
2.43.0


From bc80eb43393b66779434344bf0b99bf88827dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:32 +0000
Subject: [PATCH 005/101] fix: never list a sync period without its keys

Keys were deleted before the list of periods was updated, so if the process stopped in between (or the limit was
lowered), a listed period had no keys anymore. With max_sync_states=1 this state could never be left again.
---
 .../eth/verifier/sync_committee_state.c       | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index c4e62b1..38d8fab 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -346,15 +346,13 @@ c4_status_t c4_handle_bootstrap(verify_ctx_t* ctx, bytes_t bootstrap_data, bytes
  * Keeps the oldest and latest periods, removes intermediate ones.
  *
  * @param state Chain state containing period information
- * @param chain_id Chain identifier
  * @param max_states Maximum number of sync states to keep
+ * @param removed Array for the removed periods, whose keys must be deleted after the new state is stored
+ * @param removed_count Number of removed periods
  * @return Updated number of periods after cleanup
  */
-static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id, uint32_t max_states) {
-  storage_plugin_t storage_conf = {0};
-  c4_get_storage_config(&storage_conf);
+static uint32_t cleanup_old_periods(c4_chain_state_t* state, uint32_t max_states, uint32_t* removed, uint32_t* removed_count) {
   uint32_t periods = period_count(state);
-  char     name[100];
 
   if (max_states > MAX_SYNC_PERIODS) max_states = MAX_SYNC_PERIODS; // there is no room for more periods in the state
   while (periods >= max_states) {
@@ -388,12 +386,12 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
       oldest       = oldest_2nd;
     }
 
-    // Delete from storage and remove from periods array
-    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, oldest);
-    storage_conf.del(name);
+    // Remove from periods array and remember it, so the keys can be deleted after the new list is stored
+    removed[(*removed_count)++] = oldest;
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
     periods--;
+    state->data.periods[periods] = 0;
   }
 
   return periods;
@@ -456,7 +454,9 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
   }
 
   // Cleanup old periods if storage limit reached
-  uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+  uint32_t removed[MAX_SYNC_PERIODS] = {0};
+  uint32_t removed_count             = 0;
+  uint32_t periods                   = cleanup_old_periods(&state, storage_conf.max_sync_states, removed, &removed_count);
 
   // Add new period to tracking
   state.data.periods[periods] = period;
@@ -467,6 +467,13 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   // Update chain state
   c4_set_chain_state(chain_id, &state);
+
+  // now the removed periods are not listed anymore and their keys can be deleted
+  for (uint32_t i = 0; i < removed_count; i++) {
+    char name[100];
+    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, removed[i]);
+    storage_conf.del(name);
+  }
   return true;
 }
 
@@ -613,19 +620,20 @@ static void clear_sync_state(chain_id_t chain_id) {
   storage_plugin_t storage_conf = {0};
   c4_get_storage_config(&storage_conf);
 
-  // Delete all sync states for this chain
   c4_chain_state_t chain_state = c4_get_chain_state(chain_id);
+
+  // Delete chain state first, so there is never a listed period without its keys
+  char state_name[100];
+  sbprintf(state_name, "states_%l", (uint64_t) chain_id);
+  storage_conf.del(state_name);
+
+  // Delete all sync states for this chain
   for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
     uint32_t p = chain_state.data.periods[i];
     char     name[100];
     sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, p);
     storage_conf.del(name);
   }
-
-  // Delete chain state
-  char name[100];
-  sbprintf(name, "states_%l", (uint64_t) chain_id);
-  storage_conf.del(name);
 }
 
 #ifdef USE_CHECKPOINTZ
-- 
2.43.0


From 2435b3512cabfb478898267c4df468198e0696e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:48 +0000
Subject: [PATCH 006/101] fix: check the bounds of light client updates

A length below 4 or an offset close to 2^32 in the response of the beacon node resulted in reading outside of the response.
---
 src/chains/eth/verifier/sync_committee.c       | 6 +++---
 src/chains/eth/verifier/sync_committee_state.c | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index aae1fe0..0f5f04e 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -255,7 +255,7 @@ INTERNAL bool c4_update_from_sync_data(verify_ctx_t* ctx) {
 fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data) {
   if (data.len < 4) return 0;
   uint32_t offset = uint32_from_le(data.data);
-  if (offset + 8 > data.len) return 0;
+  if (offset > data.len || offset + 8 > data.len) return 0;
   uint64_t            slot = uint64_from_le(data.data + offset);
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   return c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
@@ -302,7 +302,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
         break;
       }
       pos = uint32_from_le(light_client_updates.data + (idx * SSZ_OFFSET_SIZE));
-      if (pos + UPDATE_PREFIX_SIZE > light_client_updates.len) {
+      if (pos > light_client_updates.len || pos + UPDATE_PREFIX_SIZE > light_client_updates.len) {
         success = false;
         c4_state_add_error(&ctx->state, "invalid offset in lighthouse client update!");
         break;
@@ -313,7 +313,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
     length = uint64_from_le(light_client_updates.data + pos);
 
     // Check for integer overflow and bounds
-    if (length > UPDATE_PREFIX_SIZE && (pos + SSZ_LENGTH_SIZE + length > light_client_updates.len || pos + SSZ_LENGTH_SIZE + length < pos)) {
+    if (length < data_length_offset || length > light_client_updates.len || data_offset + length - data_length_offset > light_client_updates.len) {
       success = false;
       c4_state_add_error(&ctx->state, "invalid length causes overflow or exceeds bounds!");
       break;
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 38d8fab..3158395 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -658,7 +658,7 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
         uint32_t data_length_offset = SSZ_OFFSET_SIZE;
         length                      = uint64_from_le(client_updates.data + pos);
 
-        if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
+        if (length < data_length_offset || length > client_updates.len || pos + SSZ_LENGTH_SIZE + length > client_updates.len) break;
 
         bytes_t          client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
         fork_id_t        fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
@@ -879,10 +879,12 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
 
     // Navigate to the first update in the list
     uint32_t offset = uint32_from_le(light_client_update.data);
-    if (offset + UPDATE_PREFIX_SIZE > light_client_update.len)
+    if (offset > light_client_update.len || offset + UPDATE_PREFIX_SIZE > light_client_update.len)
       THROW_ERROR("Invalid offset in light client update list");
 
     uint64_t length                    = uint64_from_le(light_client_update.data + offset);
+    if (length < SSZ_OFFSET_SIZE || length > light_client_update.len || offset + SSZ_LENGTH_SIZE + length > light_client_update.len)
+      THROW_ERROR("Invalid length in light client update list");
     bytes_t  light_client_update_bytes = bytes(light_client_update.data + offset + UPDATE_PREFIX_SIZE, length - SSZ_OFFSET_SIZE);
     ssz_ob_t update_ob                 = {.bytes = light_client_update_bytes, .def = client_update_def};
 
-- 
2.43.0


From 76a006454d6c3472408ff36f3958b5c1ef75b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 007/101] fix: check the weak subjectivity before storing the
 updates

The updates were stored before the request to the checkpointz server was sent. When its response arrived, the
period was found in the local state and the response (even if it did not match) was ignored.
---
 .../eth/verifier/sync_committee_state.c       | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 3158395..8170d15 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -638,7 +638,7 @@ static void clear_sync_state(chain_id_t chain_id) {
 
 #ifdef USE_CHECKPOINTZ
 /**
- * Find the most recent finalized checkpoint from verified light client updates.
+ * Find the most recent finalized checkpoint from the received light client updates.
  * Iterates through all cached light_client/updates requests to find the highest finalized slot.
  * Used for weak subjectivity validation when syncing across large time gaps.
  *
@@ -666,6 +666,7 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
         if (!client_update_def) break;
 
         ssz_ob_t update    = {.bytes = client_update_bytes, .def = client_update_def};
+        if (!ssz_is_valid(update, true, NULL)) break;
         ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
         ssz_ob_t header    = ssz_get(&finalized, "beacon");
         uint64_t slot      = ssz_get_uint64(&header, "slot");
@@ -736,10 +737,8 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
 
   // first find the last finality checkpoint we have verifier during a light_client_update.
   uint64_t finality_slot = find_last_verified_finality_checkpoint(ctx, last_verified_finality_checkpoint_root);
-  if (!finality_slot) {
-    clear_sync_state(ctx->chain_id);
-    return c4_state_add_error(&ctx->state, "Checkpoint slot not found in local state");
-  }
+  if (!finality_slot)
+    return c4_state_add_error(&ctx->state, "Checkpoint slot not found in light client updates");
 
   buffer_t url_buf = {0};
   bprintf(&url_buf, "eth/v1/beacon/blocks/%l/root", finality_slot);
@@ -962,18 +961,18 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Strategy 3: Normal sync path - fetch light_client_updates from lowest to target period
     bytes_t light_client_updates = {0};
     if (req_client_update(&ctx->state, sync_state.lowest_period, sync_state.current_period - sync_state.lowest_period, ctx->chain_id, &light_client_updates)) {
+      // Check weak subjectivity period BEFORE any update is stored, because once stored the period is trusted
+      // and would not be checked again as soon as we get the response.
+      // If this fails, clear_sync_state() is called inside to force re-initialization
+#ifdef USE_CHECKPOINTZ
+      TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
+#endif
       if (!c4_handle_client_updates(ctx, light_client_updates))
         return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
     }
     else
       return ctx->state.error ? C4_ERROR : C4_PENDING;
 
-    // Check weak subjectivity period BEFORE loading new sync state
-    // If this fails, clear_sync_state() is called inside to force re-initialization
-#ifdef USE_CHECKPOINTZ
-    TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
-#endif
-
     // Load new sync state after successful WSP check
     sync_state = get_validators_from_cache(ctx, period);
     if (sync_state.validators.data == NULL) return c4_state_add_error(&ctx->state, "Failed to get validators");
-- 
2.43.0


From ee6934ad8a69d400332072eb0de9072b9717a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 008/101] fix: endless recursion while processing light client
 updates

If a response contained an update of a period without known sync committee, the same response was processed
recursively until the stack was exhausted.
---
 src/chains/eth/verifier/sync_committee_state.c | 8 +++++++-
 src/verifier/verify.h                          | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 8170d15..b81c32f 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -940,6 +940,9 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
   c4_sync_validators_t sync_state = get_validators_from_cache(ctx, period);
 
   if (sync_state.validators.data == NULL) {
+    // the updates we are currently processing must form a chain, otherwise we would process the same response again and again.
+    if (ctx->flags & VERIFY_FLAG_SYNCING) THROW_ERROR("light client update is not signed by a known sync committee");
+
     // Strategy 1: No cached periods exist - initialize from trusted checkpoint
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
@@ -967,7 +970,10 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
 #ifdef USE_CHECKPOINTZ
       TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
 #endif
-      if (!c4_handle_client_updates(ctx, light_client_updates))
+      ctx->flags |= VERIFY_FLAG_SYNCING;
+      bool updated = c4_handle_client_updates(ctx, light_client_updates);
+      ctx->flags &= ~VERIFY_FLAG_SYNCING;
+      if (!updated)
         return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
     }
     else
diff --git a/src/verifier/verify.h b/src/verifier/verify.h
index 9d5412f..2af56ff 100644
--- a/src/verifier/verify.h
+++ b/src/verifier/verify.h
@@ -80,6 +80,7 @@ typedef uint32_t verify_flags_t;
  */
 typedef enum {
   VERIFY_FLAG_FREE_DATA = 1 << 0, // if set, the data section will be freed after verification. This flag is set when the verifier generates the actual result data from the proof and needs cleanup afterwards.
+  VERIFY_FLAG_SYNCING   = 1 << 1, // if set, the verifier is processing fetched light client updates, which must only build on sync committees already known.
 } verify_flag_t;
 
 /**
-- 
2.43.0


From 237d6fee06018299fd8dcd29e8e08716c4575af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:20 +0000
Subject: [PATCH 009/101] fix: drop the sync state if updates beyond the weak
 subjectivity period are invalid

The weak subjectivity check only confirms the newest finalized header of the
updates. If one of the updates is not valid, this header may not be connected
to the updates already stored, so those must not be trusted.
---
 src/chains/eth/verifier/sync_committee_state.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index b81c32f..37c3266 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -682,6 +682,12 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
   return finalized_slot;
 }
 
+// checks if the gap between the highest known period and the target period exceeds the weak subjectivity period
+static bool exceeds_weak_subjectivity(const chain_spec_t* spec, c4_sync_validators_t* sync_state, uint32_t target_period) {
+  if (!spec || target_period <= sync_state->highest_period) return false; // No gap, no need to check
+  return (((uint64_t) (target_period - sync_state->highest_period)) << spec->epochs_per_period_bits) > spec->weak_subjectivity_epochs;
+}
+
 /**
  * Weak Subjectivity Period (WSP) Validation
  *
@@ -726,14 +732,8 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
   bytes32_t           last_verified_finality_checkpoint_root = {0};
   if (!spec) return C4_SUCCESS; // Cannot validate without spec
 
-  // Calculate period difference
-  if (target_period <= sync_state->highest_period) return C4_SUCCESS; // No gap, no need to check
-
-  uint32_t period_diff = target_period - sync_state->highest_period;
-  uint64_t epoch_diff  = ((uint64_t) period_diff) << spec->epochs_per_period_bits;
-
   // Check if we exceed weak subjectivity period
-  if (epoch_diff <= spec->weak_subjectivity_epochs) return C4_SUCCESS; // Within WSP
+  if (!exceeds_weak_subjectivity(spec, sync_state, target_period)) return C4_SUCCESS; // Within WSP
 
   // first find the last finality checkpoint we have verifier during a light_client_update.
   uint64_t finality_slot = find_last_verified_finality_checkpoint(ctx, last_verified_finality_checkpoint_root);
@@ -973,6 +973,10 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
       ctx->flags |= VERIFY_FLAG_SYNCING;
       bool updated = c4_handle_client_updates(ctx, light_client_updates);
       ctx->flags &= ~VERIFY_FLAG_SYNCING;
+#ifdef USE_CHECKPOINTZ
+      // the confirmed checkpoint only counts, if all updates leading to it are valid. So we must not trust the ones stored before the failing update.
+      if (!updated && exceeds_weak_subjectivity(c4_eth_get_chain_spec(ctx->chain_id), &sync_state, period)) clear_sync_state(ctx->chain_id);
+#endif
       if (!updated)
         return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
     }
-- 
2.43.0


From c5b909046885f3fb70281ad13eee8b0d644b989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:21 +0000
Subject: [PATCH 010/101] fix: endless recursion if the sync state can not be
 stored

---
 src/chains/eth/verifier/sync_committee_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 37c3266..02417f8 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -495,6 +495,7 @@ static c4_status_t init_sync_state(verify_ctx_t* ctx) {
       if (c4_req_checkpointz_status(state, ctx->chain_id, &checkpoint_epoch, checkpoint_root)) {
         // Set the checkpoint as trusted blockhash
         c4_eth_set_trusted_checkpoint(ctx->chain_id, checkpoint_root);
+        if (c4_get_chain_state(ctx->chain_id).status == C4_STATE_SYNC_EMPTY) THROW_ERROR("the trusted checkpoint could not be stored");
         // Recursively call init_sync_state to process the bootstrap with the new trusted checkpoint
         return init_sync_state(ctx);
       }
@@ -947,6 +948,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
       TRY_ASYNC(init_sync_state(ctx));
+      if (c4_get_chain_state(ctx->chain_id).status != C4_STATE_SYNC_PERIODS) THROW_ERROR("the sync committee could not be stored");
       // Recursively call to retrieve the period after initialization
       return c4_get_validators(ctx, period, target_state, NULL);
     }
-- 
2.43.0


From 07f3951744e3b872fee8694890ec91c1798d07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:31 +0000
Subject: [PATCH 011/101] fix: check the bounds of rlp lengths

---
 src/chains/eth/verifier/rlp.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..4837e05 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -29,6 +29,16 @@ static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* n
   return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
 }
 
+// reads the length of a long item or list. Returns false if the length bytes or the content exceed the source.
+static bool read_length(bytes_t* src, size_t pos, uint8_t n, size_t* len) {
+  uint64_t value = 0;
+  if (pos + 1 + n > src->len) return false;
+  for (uint8_t i = 0; i < n; i++)
+    value = (value << 8) | src->data[pos + 1 + i];
+  *len = (size_t) value;
+  return value <= src->len;
+}
+
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
   size_t pos = 0, src_idx = 0;
   for (; src_idx < src->len; src_idx++, pos++) {
@@ -43,9 +53,8 @@ INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
       src_idx += c - 0x80;
     }
     else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
+      size_t len = 0;
+      if (!read_length(src, src_idx, c - 0xb7, &len)) return RLP_OUT_OF_RANGE;
       if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
       src_idx += len + c - 0xb7;
     }
@@ -57,8 +66,7 @@ INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
     }
     else {
       size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
+      if (!read_length(src, src_idx, c - 0xf7, &len)) return RLP_OUT_OF_RANGE;
       if ((int) pos == index)
         return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
       src_idx += len + c - 0xf7;
@@ -128,7 +136,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
+  if (rlp_decode(&data, index, &data) != RLP_ITEM) return 0;
   if (data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
-- 
2.43.0


From 09b3b356acb7678670f99bd162d51becedd587ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:32 +0000
Subject: [PATCH 012/101] fix: a merkle patricia proof must end with the value
 or an empty slot

---
 src/chains/eth/verifier/patricia.c | 81 +++++++++++++-----------------
 1 file changed, 35 insertions(+), 46 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..e14592d 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -61,83 +61,65 @@ static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
   return nibbles;
 }
 
-static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
-  bytes_t val;
-  bytes_t node;
+// handles the content of a node (the items of its list). Returns 0 = invalid, 1 = next node is needed, 2 = not existing, 3 = found
+static int handle_node(bytes_t node, uint8_t** k, bool last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
+  bytes_t    val  = NULL_BYTES;
+  rlp_type_t type = RLP_NOT_FOUND;
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
       if (**k == 0xFF) {
-        if (!last_node || rlp_decode(&node, 16, &node) != RLP_ITEM) return 0;
-        *last_val = node;
-        return node.len == 0 ? 2 : 3;
+        if (!last_node || rlp_decode(&node, 16, &val) != RLP_ITEM) return 0;
+        *last_val = val;
+        return val.len == 0 ? 2 : 3;
       }
 
-      if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
+      type = rlp_decode(&node, **k, &val);
+      if (type == RLP_LIST) { // found embedded node in branch
         *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
+        return handle_node(val, k, last_node, last_val, next_hash, depth);
       }
-      else if (val.len != 32) // we got a NULL, which means value does not exists
-        return 2;
-      else
-        memcpy(next_hash, val.data, 32); // the hash of the next node
+      if (type != RLP_ITEM) return 0;
+      if (val.len == 0) return 2;      // we got a NULL, which means value does not exists
+      if (val.len != 32) return 0;     // this is not a reference to a node
+      memcpy(next_hash, val.data, 32); // the hash of the next node
       *k += 1;
       return 1;
 
     case NODE_LEAF:
-      if (rlp_decode(&node, 0, &val) != RLP_ITEM)
+      if (rlp_decode(&node, 0, &val) != RLP_ITEM || val.len == 0)
         return 0;
       else {
         uint8_t* pn      = patricia_to_nibbles(val, 1);
         int      match   = patricia_match_nibbles(pn, *k);
         int      np_len  = count_nibbles(pn);
-        int      is_leaf = *val.data & 32;
+        bool     is_leaf = (*val.data & 32) != 0;
         safe_free(pn);
 
         if (match < np_len) return last_node ? 2 : 0;
 
         *k += np_len;
-        if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
-          rlp_decode(&node, 0, &node);
-          node.data += node.len;
-          node.len = val.data + val.len - node.data;
-
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
-        }
-        else if (**k == 0xFF) { // we reached the end of the path
-          if (is_leaf) {
-            *last_val = val;
-            return last_node ? 3 : 0;
-          }
-          else if (last_node)
-            return 0; // this is an extension node, but the path is not complete
-
-          // follow the extension, which should lead to branch with the value.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
-
-          //          if (!last_node || (expected_val == NULL && is_leaf)) return 0;
-        }
-        else if (is_leaf)           // we found a leaf matching the path, but the patch is not complete yet.
-          return last_node ? 2 : 0; // it is either a proof, that the account does not exist or an error.
-        else {                      // it is an extension and we follow the extension to the branch.
+        type = rlp_decode(&node, 1, &val);
+        if (is_leaf) {
+          if (type != RLP_ITEM || !last_node) return 0; // a leaf is always the last node and has a value
+          if (**k != 0xFF) return 2;                    // the leaf matches, but the path is not complete, so the value does not exist.
           *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
+          return 3;
         }
+
+        // it is an extension and we follow it to the branch.
+        if (type == RLP_LIST) return handle_node(val, k, last_node, last_val, next_hash, depth); // embedded
+        if (type != RLP_ITEM || val.len != 32) return 0;
+        memcpy(next_hash, val.data, 32);
+        return 1;
       }
 
     default:
       return 0;
   }
-  return 1;
 }
 
 INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_t proof, bytes_t* expected) {
@@ -161,9 +143,16 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
       result = 0;
       break;
     }
-    if (1 != (result = handle_node(&witness.bytes, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
+    bytes_t node = NULL_BYTES;
+    if (rlp_decode(&witness.bytes, 0, &node) != RLP_LIST) {
+      result = 0;
+      break;
+    }
+    if (1 != (result = handle_node(node, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
   }
 
+  if (result == 1) result = 0; // the proof ended before reaching a value or an empty slot
+
   if (result && expected)
     *expected = result == 2 ? NULL_BYTES : last_value;
 
-- 
2.43.0


From 4e54f311039d5b62c79588dfc34e9aa66605538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:34 +0000
Subject: [PATCH 013/101] fix: all storage values must be set by the proof

---
 src/chains/eth/verifier/eth_account.c          | 18 ++++++++++++------
 src/chains/eth/verifier/verify_account_proof.c |  4 ++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..3af3f94 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -56,9 +56,9 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 }
 
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
-  int len = ssz_len(storage_proofs);
-  if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+  if (values.data) memset(values.data, 0, values.len);
+  int  len           = ssz_len(storage_proofs);
+  bool empty_storage = memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0;
   for (int i = 0; i < len; i++) {
     bytes32_t path    = {0};
     bytes32_t root    = {0};
@@ -66,10 +66,15 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     ssz_ob_t  proof   = ssz_get(&storage, "proof");
     ssz_ob_t  key     = ssz_get(&storage, "key");
     bytes_t   leaf    = {0};
+    if (empty_storage) { // there are no nodes to prove and all values are 0
+      if (ssz_len(proof)) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+      continue;
+    }
     keccak(key.bytes, path);
     if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (leaf.data && (rlp_decode(&leaf, 0, &leaf) != RLP_ITEM || leaf.len > 32)) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
+    if (values.data && leaf.data && values.len >= (i + 1) * 32)
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
   }
 
@@ -85,6 +90,7 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   bytes32_t storage_hash  = {0};
 
   keccak(address.bytes, address_hash);
+  memcpy(storage_hash, EMPTY_ROOT_HASH, 32); // a non existing account has no storage
 
   switch (field) {
     case ETH_ACCOUNT_CODE_HASH:
@@ -106,8 +112,8 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
     if (rlp_decode(&rlp_account, 0, &rlp_account) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
     if (rlp_decode(&rlp_account, 2, &field_value) != RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
     // get the storage hash from the proof
-    if (field_value.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
-    memcpy(storage_hash, field_value.data, field_value.len);
+    if (field_value.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
+    memcpy(storage_hash, field_value.data, 32);
 
     // get the field value from the proof
     if (field) {
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 33cc9c4..2fe9780 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -52,9 +52,9 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len + 32), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len + 32), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
-- 
2.43.0


From 27be8196f10c6495a60ac903c06e91e0905642b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:38 +0000
Subject: [PATCH 014/101] fix: never use the values of another account or
 storage key

---
 src/chains/eth/verifier/eth_account.c | 44 +++++++--------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 3af3f94..bbc2175 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -128,34 +128,27 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// finds the value for the key in the proof. If the proof shows that there is no value, NULL_BYTES is returned
+static bytes_t get_leaf(ssz_ob_t proof, bytes_t key) {
+  bytes32_t path = {0};
+  bytes32_t root = {0};
+  bytes_t   leaf = NULL_BYTES;
+  keccak(key, path);
+  return patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_FOUND ? leaf : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_leaf(ssz_get(&storage, "proof"), ssz_get(&storage, "key").bytes);
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
+  memset(value, 0, 32 - last_value.len);
   memcpy(value + 32 - last_value.len, last_value.data, last_value.len);
   return true;
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
+  bytes_t last_value = get_leaf(ssz_get(&account, "accountProof"), ssz_get(&account, "address").bytes);
   if (!last_value.data) return;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
@@ -315,21 +308,6 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
-
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
-
-  return node;
-}
-
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
@@ -357,7 +335,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
       case ETH_ACCOUNT_PROOF: {
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"), bytes(verified_address, 20));
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-- 
2.43.0


From 54006f947e2852058f7593f01144d0e8b21bf6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:41 +0000
Subject: [PATCH 015/101] fix: the blockhash of the request must match the
 proof

---
 src/chains/eth/verifier/eth_account.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index bbc2175..95425bb 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -284,7 +284,7 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
-- 
2.43.0


From d5902550f66173939c0a7ec9aee8dde260953c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:20 +0000
Subject: [PATCH 016/101] fix: the proof must match the requested method

---
 src/chains/eth/verifier/eth_verify.c | 39 ++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/chains/eth/verifier/eth_verify.c b/src/chains/eth/verifier/eth_verify.c
index f99770e..d93d35d 100644
--- a/src/chains/eth/verifier/eth_verify.c
+++ b/src/chains/eth/verifier/eth_verify.c
@@ -110,10 +110,49 @@ const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type) {
   return chain_type == C4_CHAIN_TYPE_ETHEREUM ? eth_ssz_verification_type(ETH_SSZ_VERIFY_REQUEST) : NULL;
 }
 
+// the proof type, which is required to verify the result of a method
+static const struct {
+  const char*    method;
+  eth_ssz_type_t proof;
+} method_proofs[] = {
+    {"eth_call", ETH_SSZ_VERIFY_CALL_PROOF},
+    {"colibri_simulateTransaction", ETH_SSZ_VERIFY_CALL_PROOF},
+    {"eth_getProof", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBalance", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getCode", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getTransactionCount", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getStorageAt", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBlockByHash", ETH_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getBlockByNumber", ETH_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_blockNumber", ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF},
+    {"eth_getLogs", ETH_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_verifyLogs", ETH_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_getTransactionReceipt", ETH_SSZ_VERIFY_RECEIPT_PROOF},
+    {"eth_getTransactionByHash", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockHashAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockNumberAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+};
+
+// a proof only proves the result of the method it was made for.
+static bool proof_matches_method(verify_ctx_t* ctx) {
+  if (ctx->proof.def->type == SSZ_TYPE_NONE) return true;
+  for (int i = 0; i < sizeof(method_proofs) / sizeof(method_proofs[0]); i++) {
+    if (ctx->method && strcmp(ctx->method, method_proofs[i].method) == 0)
+      return ssz_is_type(&ctx->proof, eth_ssz_verification_type(method_proofs[i].proof));
+  }
+  return false;
+}
+
 bool c4_eth_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_ETHEREUM || c4_eth_get_chain_spec(ctx->chain_id) == NULL) return false;
   if (!c4_update_from_sync_data(ctx)) return true;
 
+  if (!proof_matches_method(ctx)) {
+    c4_state_add_error(&ctx->state, "the proof does not match the requested method");
+    ctx->success = false;
+    return true;
+  }
+
 #ifdef ETH_TX
   if (ssz_is_type(&ctx->proof, eth_ssz_verification_type(ETH_SSZ_VERIFY_TRANSACTION_PROOF)))
     verify_tx_proof(ctx);
-- 
2.43.0


From 02caf6183f6f280336ddbdb35d1829e36f7a6bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:19 +0000
Subject: [PATCH 017/101] fix: never write beyond a fixed buffer when reading
 hex values from json

---
 src/util/json.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 7810e71..46a9167 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -356,7 +356,7 @@ uint64_t json_as_uint64(json_t value) {
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
     int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
-    if (len == -1) return 0;
+    if (len < 0 || len > 8) return 0;
     memmove(tmp + 8 - len, tmp, len);
     memset(tmp, 0, 8 - len);
     return uint64_from_be(tmp);
@@ -379,11 +379,10 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   }
   if (value.type != JSON_TYPE_STRING) return NULL_BYTES;
 
-  buffer_grow(buffer, value.len / 2);
-  buffer->data.len = value.len;
+  buffer->data.len = (uint32_t) buffer_grow(buffer, value.len / 2); // a fixed buffer may be smaller
   int len          = hex_to_bytes(value.start + 1, value.len - 2, buffer->data);
+  buffer->data.len = len == -1 ? 0 : (uint32_t) len;
   if (len == -1) return NULL_BYTES;
-  buffer->data.len = (uint32_t) len;
   return buffer->data;
 }
 
-- 
2.43.0


From 171cd1be44200ba6fc636e32d229101b95c5bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:22 +0000
Subject: [PATCH 018/101] fix: report an error if the proof was not verified

---
 src/verifier/verify.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..a6db743 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -88,6 +88,10 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
   if (!handle_verification(ctx))
     ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
 
+  // without a success, there is no verified result.
+  if (!ctx->success && !ctx->state.error && !c4_state_get_pending_request(&ctx->state))
+    ctx->state.error = strdup("the proof could not be verified");
+
   return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
 }
 
-- 
2.43.0


From 08b2379d15b15e0505e37f49bd78ea99d49f8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:26 +0000
Subject: [PATCH 019/101] fix: never use the block data of the prover

---
 src/chains/eth/verifier/verify_block.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..3a244eb 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,8 +84,6 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
-
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
   ssz_add_uint32(&data, mask);
-- 
2.43.0


From eb9d41839712a0517f829d119df6267bb0c8cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:31 +0000
Subject: [PATCH 020/101] fix: check the length of transaction fields

---
 src/chains/eth/verifier/eth_tx.c | 6 +++---
 src/util/ssz_builder.c           | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..1b8214b 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -198,7 +198,7 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
     memcpy(address, from.data, 20);
     return true;
   }
-  rlp_decode(&raw_tx, defs.len - 4, &last_item);
+  if (rlp_decode(&raw_tx, -1, NULL) != (rlp_type_t) defs.len || rlp_decode(&raw_tx, defs.len - 4, &last_item) <= RLP_SUCCESS) RETURN_VERIFY_ERROR(ctx, "invalid tx data, missing fields!");
   buffer_append(&buf, bytes(raw_tx.data, last_item.data + last_item.len - raw_tx.data));
   uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
@@ -225,9 +225,9 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
 
   uint8_t sig[65]    = {0};
   uint8_t pubkey[64] = {0};
-  rlp_decode(&raw_tx, defs.len - 2, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 2, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid signature!");
   memcpy(sig + 32 - last_item.len, last_item.data, last_item.len);
-  rlp_decode(&raw_tx, defs.len - 1, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 1, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid signature!");
   memcpy(sig + 64 - last_item.len, last_item.data, last_item.len);
   sig[64] = (uint8_t) (v > 28 ? (v % 2 ? 27 : 28) : v);
 
diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 62bb05f..04e69ed 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -156,6 +156,7 @@ void ssz_add_bytes(ssz_builder_t* buffer, const char* name, bytes_t data) {
 }
 
 void ssz_add_uint256(ssz_builder_t* buffer, bytes_t data) {
+  if (data.len > 32) data = bytes(data.data + data.len - 32, 32); // never more than 256 bits
   buffer_grow(&buffer->fixed, buffer->fixed.data.len + 32);
   uint8_t* ptr = buffer->fixed.data.data + buffer->fixed.data.len;
   for (int i = 0; i < data.len; i++, ptr++) {
-- 
2.43.0


From 5f75ff492093e1e1562ad3fdb990890b005d5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:34 +0000
Subject: [PATCH 021/101] fix: chainId and yParity of legacy transactions

---
 src/chains/eth/verifier/eth_tx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 1b8214b..939b557 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -727,10 +727,10 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   // Calculate v_for_ssz, chain_id (legacy overwrite), and gas_price
   if (type == TX_TYPE_LEGACY) {
-    uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
-    tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
-    v_for_ssz         = rlp_v_val;
+    uint64_t rlp_v_val = bytes_as_be(rlp_v_field);
+    tx_sig_y_parity    = (rlp_v_val - 1) % 2;
+    chain_id           = rlp_v_val <= 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
+    v_for_ssz          = (uint8_t) rlp_v_val;
   }
   else if (type != TX_TYPE_DEPOSITED)
     v_for_ssz = tx_sig_y_parity;
-- 
2.43.0


From 172e4df7739244306d7a0af00e55fa364e4182fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 022/101] fix: verify the type and the logs of a receipt

---
 src/chains/eth/verifier/eth_tx.c               | 4 +++-
 src/chains/eth/verifier/verify_receipt_proof.c | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 939b557..3d88433 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -301,7 +301,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
@@ -336,6 +336,8 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
     if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&log, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index c8e0c65..8a3fe54 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -66,6 +66,7 @@ bool verify_receipt_proof(verify_ctx_t* ctx) {
   bytes32_t receipt_root  = {0};
   bytes_t   raw_receipt   = {0};
 
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "missing the receipt data!");
   if (!c4_tx_verify_tx_hash(ctx, raw_tx.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
   if (!c4_tx_verify_receipt_proof(ctx, receipt_proof, tx_index, receipt_root, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
-- 
2.43.0


From 327927e87c4aa5eed85170fda35e656073d1df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:16 +0000
Subject: [PATCH 023/101] fix: a transaction index must be within the
 transactions of the block

---
 src/chains/eth/verifier/verify_tx_proof.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9213e95..1d20ee5 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -42,6 +42,7 @@
 #define GINDEX_BLOCHASH      812
 #define GINDEX_BASEFEEPERGAS 811
 #define GINDEX_TXINDEX_G     1704984576L // gindex of the first tx
+#define MAX_TXS_PER_BLOCK    1048576     // max number of transactions in the execution payload
 
 static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block_hash, bytes_t block_number, bytes_t base_fee_per_gas, bytes_t raw, uint32_t tx_index, bytes32_t body_root) {
   uint8_t   leafes[128] = {0};                                                                                     // 4 leafes, 32 bytes each
@@ -108,6 +109,7 @@ bool verify_tx_proof(verify_ctx_t* ctx) {
   ssz_ob_t body_root        = ssz_get(&header, "bodyRoot");
   ssz_ob_t base_fee_per_gas = ssz_get(&ctx->proof, "baseFeePerGas");
 
+  if (ssz_uint32(tx_index) >= MAX_TXS_PER_BLOCK) RETURN_VERIFY_ERROR(ctx, "invalid tx index!"); // otherwise the gindex would be outside of the transactions
   if (!verify_args(ctx, raw.bytes, ssz_uint32(tx_index), block_hash.bytes.data)) return false;
   if (!verify_merkle_proof(ctx, tx_proof, block_hash.bytes, block_number.bytes, base_fee_per_gas.bytes, raw.bytes, ssz_uint32(tx_index), body_root.bytes.data)) RETURN_VERIFY_ERROR(ctx, "invalid tx proof!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
-- 
2.43.0


From 29a3be0656d3b13e85e85ec35f355c1c71691475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:19 +0000
Subject: [PATCH 024/101] fix: all logs must be verified

---
 src/chains/eth/verifier/verify_logs_proof.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..146102b 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -83,11 +83,6 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (bytes_all_zero(bytes(receipt_root, 32)))
@@ -137,6 +132,17 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
 
 bool verify_logs_proof(verify_ctx_t* ctx) {
 
+  if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) { // the logs to verify are the arguments and never the data of the prover
+    if (ctx->data.def->type == SSZ_TYPE_NONE) {
+      ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+      ctx->flags |= VERIFY_FLAG_FREE_DATA;
+      if (ctx->state.error) return false;
+    }
+    else if (!(ctx->flags & VERIFY_FLAG_FREE_DATA))
+      RETURN_VERIFY_ERROR(ctx, "data must be empty!");
+  }
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "missing the logs!");
+
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
 
-- 
2.43.0


From 75588f839d72ca8305dba255cde32cbd0ea08378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:23 +0000
Subject: [PATCH 025/101] fix: a log included in a block is not removed

---
 src/chains/eth/verifier/eth_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 3d88433..40a4a26 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -280,6 +280,7 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
   if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+  if (ssz_get_uint32(&log, "removed")) RETURN_VERIFY_ERROR(ctx, "a log of a block was not removed!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
   uint32_t logs_len = rlp_decode(&logs, -1, &logs);
@@ -338,6 +339,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
     if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
     if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&log, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
+    if (ssz_get_uint32(&log, "removed")) RETURN_VERIFY_ERROR(ctx, "a log of a block was not removed!");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
-- 
2.43.0


From ec129d0387b743fad90fc61fb3652b58b2dd10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:26 +0000
Subject: [PATCH 026/101] fix: the proven storage keys must be the requested
 ones

---
 src/chains/eth/verifier/eth_account.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 95425bb..e48cc3e 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -308,6 +308,32 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
+static bool is_storage_key(ssz_ob_t storage_proof, uint32_t index, json_t key) {
+  bytes32_t tmp     = {0};
+  bytes32_t padded  = {0};
+  buffer_t  buf     = stack_buffer(tmp);
+  ssz_ob_t  storage = ssz_at(storage_proof, index);
+  bytes_t   value   = json_as_bytes(key, &buf);
+  if (!value.data || value.len > 32) return false;
+  memcpy(padded + 32 - value.len, value.data, value.len);
+  return memcmp(ssz_get(&storage, "key").bytes.data, padded, 32) == 0;
+}
+
+// the proven storage values must be the ones requested
+static bool matches_storage_keys(verify_ctx_t* ctx, eth_account_field_t field) {
+  ssz_ob_t storage_proof = ssz_get(&ctx->proof, "storageProof");
+  json_t   keys          = json_at(ctx->args, 1);
+  uint32_t len           = ssz_len(storage_proof);
+  if (field == ETH_ACCOUNT_STORAGE_HASH) return len == 1 && is_storage_key(storage_proof, 0, keys);
+  if (field == ETH_ACCOUNT_PROOF) {
+    if (keys.type != JSON_TYPE_ARRAY || json_len(keys) != len) return false;
+    for (uint32_t i = 0; i < len; i++) {
+      if (!is_storage_key(storage_proof, i, json_at(keys, i))) return false;
+    }
+  }
+  return true;
+}
+
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
@@ -315,6 +341,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
   if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
+  if (!matches_storage_keys(ctx, field)) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
       case ETH_ACCOUNT_CODE_HASH: RETURN_VERIFY_ERROR(ctx, "no code included!");
-- 
2.43.0


From d97d699d638d3b24e438540adf83ce94af1163fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:30 +0000
Subject: [PATCH 027/101] fix: code must match the code hash of the account

---
 src/chains/eth/verifier/eth_account.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index e48cc3e..39fe1c4 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -189,8 +189,14 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->code = code.bytes;
       ac->free = false;
 
-      // store in cache
-      cache.set((char*) buf.data.data, ac->code);
+      keccak(ac->code, hash);
+      if (memcmp(hash, ac->hash, 32) != 0) { // code hash mismatch
+        eth_free_codes(ac);
+        ac     = NULL;
+        status = c4_state_add_error(&ctx->state, "code hash mismatch");
+      }
+      else // store in cache
+        cache.set((char*) buf.data.data, ac->code);
     }
     else {
       buffer_reset(&buf);
@@ -403,6 +409,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else if (field == ETH_ACCOUNT_CODE_HASH) {
+    if (data.def->type != SSZ_TYPE_LIST) RETURN_VERIFY_ERROR(ctx, "invalid data type for the code!");
     keccak(data.bytes, expected_value);
     if (memcmp(expected_value, values.data, 32)) RETURN_VERIFY_ERROR(ctx, "invalid code hash!");
   }
-- 
2.43.0


From 32d9e105cc883a4a1c858358d4ec092649a0dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 028/101] fix: the logs must match the requested filter

---
 src/chains/eth/verifier/verify_logs_proof.c | 35 +++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 146102b..da2495d 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -130,6 +130,40 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
   return false;
 }
 
+// checks a value against a filter, which can be null, a hexvalue or an array of hexvalues
+static bool matches_value(json_t filter, bytes_t value) {
+  if (filter.type == JSON_TYPE_STRING) {
+    bytes32_t tmp = {0};
+    buffer_t  buf = stack_buffer(tmp);
+    return bytes_eq(json_as_bytes(filter, &buf), value);
+  }
+  if (filter.type == JSON_TYPE_ARRAY && json_len(filter)) {
+    json_for_each_value(filter, entry) {
+      if (matches_value(entry, value)) return true;
+    }
+    return false;
+  }
+  return true;
+}
+
+// checks whether the log is one of the requested logs
+static bool matches_filter(json_t filter, ssz_ob_t log) {
+  ssz_ob_t topics       = ssz_get(&log, "topics");
+  uint64_t block_number = ssz_get_uint64(&log, "blockNumber");
+  json_t   from         = json_get(filter, "fromBlock");
+  json_t   to           = json_get(filter, "toBlock");
+  uint32_t i            = 0;
+  if (from.type == JSON_TYPE_STRING && from.start[1] == '0' && block_number < json_as_uint64(from)) return false;
+  if (to.type == JSON_TYPE_STRING && to.start[1] == '0' && block_number > json_as_uint64(to)) return false;
+  if (!matches_value(json_get(filter, "blockHash"), ssz_get(&log, "blockHash").bytes)) return false;
+  if (!matches_value(json_get(filter, "address"), ssz_get(&log, "address").bytes)) return false;
+  json_for_each_value(json_get(filter, "topics"), topic) {
+    if (topic.type != JSON_TYPE_NULL && (i >= ssz_len(topics) || !matches_value(topic, ssz_at(topics, i).bytes))) return false;
+    i++;
+  }
+  return true;
+}
+
 bool verify_logs_proof(verify_ctx_t* ctx) {
 
   if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) { // the logs to verify are the arguments and never the data of the prover
@@ -155,6 +189,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
+    if (ctx->method && strcmp(ctx->method, "eth_getLogs") == 0 && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "the log does not match the requested filter!");
   }
 
   ctx->success = true;
-- 
2.43.0


From ffa5c002aed056104d76ee0db213602fe3d684b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:21 +0000
Subject: [PATCH 029/101] fix: the code must be bytes

---
 src/chains/eth/verifier/eth_account.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 39fe1c4..48d759e 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -409,7 +409,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else if (field == ETH_ACCOUNT_CODE_HASH) {
-    if (data.def->type != SSZ_TYPE_LIST) RETURN_VERIFY_ERROR(ctx, "invalid data type for the code!");
+    if (!ssz_is_type(&data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES))) RETURN_VERIFY_ERROR(ctx, "invalid data type for the code!");
     keccak(data.bytes, expected_value);
     if (memcmp(expected_value, values.data, 32)) RETURN_VERIFY_ERROR(ctx, "invalid code hash!");
   }
-- 
2.43.0


From c81d2ba2f4d1631a58daf38697651e1f364e326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:24 +0000
Subject: [PATCH 030/101] fix: the period required by a logs proof

---
 src/chains/eth/prover/proof_logs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index 09d2bf1..f4d7b6d 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -290,7 +290,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
       if (!highest_block || block->beacon_block.slot > highest_block->beacon_block.slot) highest_block = block;
     }
     for (proof_logs_block_t* block = blocks; block; block = block->next)
-      block->block_proof.sync.required_period = highest_block->beacon_block.slot << (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
+      block->block_proof.sync.required_period = highest_block->beacon_block.slot >> (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
   }
 
   // create the merkle proofs for all the blocks
-- 
2.43.0


From 85915748f6f7ae4f444fd7438093361d1e305eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:23 +0000
Subject: [PATCH 031/101] fix: the root of a small trie is the hash of the root
 node

---
 src/chains/eth/verifier/patricia_trie.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index f5f9c3a..86759bc 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -103,7 +103,7 @@ static void node_update_hash(node_t* node, bool follow_parent, ssz_builder_t* bu
   rlp_to_list(&buf);
   node->hash_len = buf.data.len;
   if (builder) ssz_add_dynamic_list_bytes(builder, 0, buf.data);
-  if (node->hash_len >= 32) {
+  if (node->hash_len >= 32 || !node->parent) { // the root is always hashed
     keccak(buf.data, node->hash);
     node->hash_len = 32;
   }
-- 
2.43.0


From f5a8279f5a319c8d939e4dfbe9b3c1324a62f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:26 +0000
Subject: [PATCH 032/101] fix: proofs for tries with embedded nodes or a path
 leaving an extension

---
 src/chains/eth/verifier/patricia_trie.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 86759bc..92963fe 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -358,9 +358,10 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
   builder.def           = &def;
   while (root && offset <= nibbles.len) {
     // add the node
-    if (root->hash_len >= 32)
+    if (root->hash_len >= 32) { // smaller nodes are embedded in their parent
       node_update_hash(root, false, &builder);
-    len++;
+      len++;
+    }
 
     if (offset == nibbles.len) break;
     if (root->type == NODE_TYPE_BRANCH) {
@@ -373,7 +374,8 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
       nibbles_t remaining = remaining_nibbles(nibbles, offset);
       int       leaf_nibble_len;
       int       same = nibble_cmp(remaining, root->values.leaf.path, &leaf_nibble_len);
-      root           = root->values.extension.child;
+      if (same < leaf_nibble_len) break; // the path leaves the trie here
+      root = root->values.extension.child;
       offset += same;
     }
   }
-- 
2.43.0


From aab114c3337806042b1906c1531084febd7ce5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:30 +0000
Subject: [PATCH 033/101] fix: changes below a split extension must update the
 root

---
 src/chains/eth/verifier/patricia_trie.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 92963fe..02ddc8e 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -282,6 +282,7 @@ static void set_value(node_t* parent, nibbles_t nibbles, bytes_t value) {
           *old_leaf                  = *parent;                     // with the current values
           old_leaf->values.leaf.path =                              // just adjusting the path
               nibbles_to_path(remaining_nibbles(leaf_nibbles, same + 1), old_leaf->type == NODE_TYPE_LEAF);
+          if (old_leaf->type == NODE_TYPE_EXTENSION) old_leaf->values.extension.child->parent = old_leaf;
           old_idx = leaf_nibbles.data[matching];
         }
 
-- 
2.43.0


From b9779fa83f62d11d92dcdcf7e3a1bd4e15ea6f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:46 +0000
Subject: [PATCH 034/101] fix: the state proof must be for the requested block

---
 src/chains/eth/verifier/eth_account.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 48d759e..fc74801 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -277,7 +277,8 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
 
 bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
   bytes32_t body_root          = {0};
-  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
+  bool      is_call            = ssz_is_type(&ctx->proof, eth_ssz_verification_type(ETH_SSZ_VERIFY_CALL_PROOF)); // calls may have overrides after the block
+  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, is_call ? 1 : json_len(ctx->args) - 1) : (json_t) {0};
   ssz_ob_t  state_merkle_proof = ssz_get(&state_proof, "proof");
   ssz_ob_t  header             = ssz_get(&state_proof, "header");
   ssz_ob_t  block              = ssz_get(&state_proof, "block");
@@ -297,6 +298,8 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
       if (ssz_uint64(block) != json_as_uint64(block_number)) RETURN_VERIFY_ERROR(ctx, "wrong blocknumber");
     }
   }
+  else if (block_number.type == JSON_TYPE_OBJECT || block_number.type == JSON_TYPE_NUMBER)
+    RETURN_VERIFY_ERROR(ctx, "unsupported block in the request");
   else if (block.bytes.len)
     RETURN_VERIFY_ERROR(ctx, "Expected a blocknumber or blockhash as blocknumber");
 
-- 
2.43.0


From 0fbb19f3e556aae88512cdd7e285c89df9668aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:52 +0000
Subject: [PATCH 035/101] fix: json_equal_string compares the whole string

---
 src/util/json.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 46a9167..a96b923 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -406,7 +406,6 @@ char* json_new_string(json_t parent) {
 
 bool json_equal_string(json_t value, const char* str) {
   if (!str || !value.start) return false;
-  int len = strlen(str);
-  if (len < 2) return false; // Prevent underflow
-  return value.type == JSON_TYPE_STRING && value.len == len - 2 && memcmp(value.start + 1, str, value.len - 2) == 0;
+  size_t len = strlen(str);
+  return value.type == JSON_TYPE_STRING && value.len == len + 2 && memcmp(value.start + 1, str, len) == 0;
 }
-- 
2.43.0


From cf203acb7848f028d2ba80e69d83095c92e9a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:56 +0000
Subject: [PATCH 036/101] fix: only supported block tags can be proven

---
 src/chains/eth/verifier/eth_account.c  | 7 ++++++-
 src/chains/eth/verifier/eth_account.h  | 1 +
 src/chains/eth/verifier/verify_block.c | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index fc74801..012b6eb 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -275,6 +275,11 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
   return block.len == 68 ? GINDEX_BLOCHASH : GINDEX_BLOCKUMBER;
 }
 
+// the tags, which may be used instead of a blocknumber. Other tags can not be proven.
+bool eth_is_block_tag(json_t block) {
+  return json_equal_string(block, "latest") || json_equal_string(block, "safe") || json_equal_string(block, "finalized");
+}
+
 bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
   bytes32_t body_root          = {0};
   bool      is_call            = ssz_is_type(&ctx->proof, eth_ssz_verification_type(ETH_SSZ_VERIFY_CALL_PROOF)); // calls may have overrides after the block
@@ -298,7 +303,7 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
       if (ssz_uint64(block) != json_as_uint64(block_number)) RETURN_VERIFY_ERROR(ctx, "wrong blocknumber");
     }
   }
-  else if (block_number.type == JSON_TYPE_OBJECT || block_number.type == JSON_TYPE_NUMBER)
+  else if (block_number.type == JSON_TYPE_OBJECT || block_number.type == JSON_TYPE_NUMBER || (block_number.type == JSON_TYPE_STRING && !eth_is_block_tag(block_number)))
     RETURN_VERIFY_ERROR(ctx, "unsupported block in the request");
   else if (block.bytes.len)
     RETURN_VERIFY_ERROR(ctx, "Expected a blocknumber or blockhash as blocknumber");
diff --git a/src/chains/eth/verifier/eth_account.h b/src/chains/eth/verifier/eth_account.h
index 44623b9..34efa6a 100644
--- a/src/chains/eth/verifier/eth_account.h
+++ b/src/chains/eth/verifier/eth_account.h
@@ -56,6 +56,7 @@ bool                eth_get_storage_value(ssz_ob_t storage, bytes32_t value);
 void                eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value);
 c4_status_t         eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_codes, ssz_ob_t accounts);
 void                eth_free_codes(call_code_t* call_codes);
+bool                eth_is_block_tag(json_t block);
 gindex_t            eth_get_gindex_for_block(fork_id_t fork, json_t block);
 eth_account_field_t eth_account_get_field(verify_ctx_t* ctx);
 bool                eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values);
diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 3a244eb..4764852 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -118,7 +118,10 @@ void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes3
 
 static bool matches_blocknumber(verify_ctx_t* ctx, ssz_ob_t block, json_t req_block) {
   if (req_block.type != JSON_TYPE_STRING || req_block.len < 6) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
-  if (req_block.start[1] != '0' || req_block.start[2] != 'x') return true;
+  if (req_block.start[1] != '0' || req_block.start[2] != 'x') {
+    if (!eth_is_block_tag(req_block)) RETURN_VERIFY_ERROR(ctx, "unsupported block");
+    return true;
+  }
   if (req_block.len == 68) { // hash
     bytes32_t hash = {0};
     buffer_t  buf  = stack_buffer(hash);
-- 
2.43.0


From fd6090d0de935d69af66844adff3a0caaf775763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:31 +0000
Subject: [PATCH 037/101] fix: a prover could hide fields of a receipt or show
 unverified deposit fields

---
 src/chains/eth/verifier/eth_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 40a4a26..bdbeadd 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -46,6 +46,9 @@ typedef enum {
   TX_TYPE_DEPOSITED = 0x7E, // Optimism Deposited Transaction
 } tx_type_t;
 
+#define RECEIPT_VERIFIED_FIELDS 0x1DFE // blockHash, blockNumber, transactionHash, transactionIndex, type, from, to, cumulativeGasUsed, logs, logsBloom and status
+#define RECEIPT_DEPOSIT_FIELDS  0xC000 // depositNonce and depositReceiptVersion
+
 typedef struct {
   const char* name;
   uint32_t    len; // -1 : uint with minimal length, 0 : uint with dynamic length, other values are fixed lengths, -20 : optional address
@@ -298,11 +301,16 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   tx_type_t type    = 0;
   bytes_t   val     = {0};
   bytes32_t tx_hash = {0};
+  uint32_t  mask    = ssz_get_uint32(&receipt_data, "_optmask");
   keccak(tx_raw, tx_hash);
+  // the verified fields must be visible
+  if ((mask & RECEIPT_VERIFIED_FIELDS) != RECEIPT_VERIFIED_FIELDS) RETURN_VERIFY_ERROR(ctx, "invalid receipt data, missing fields!");
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
   if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  // only deposits have verified deposit fields
+  if (type != TX_TYPE_DEPOSITED && (mask & RECEIPT_DEPOSIT_FIELDS)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data, unexpected fields!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
-- 
2.43.0


From 0ba57918856e9641a6a32e7dc8843780a5b538f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:06 +0000
Subject: [PATCH 038/101] fix: the withdrawalsRoot of a block is the root of a
 patricia trie

---
 src/chains/eth/verifier/verify_block.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 4764852..14d4d08 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -83,6 +83,28 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
   return txs_builder;
 }
 
+// the withdrawals root of the block header, which is the root of a patricia trie (and not the hash_tree_root of the list)
+static void create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root) {
+  node_t*   root = NULL;
+  bytes32_t tmp  = {0};
+  buffer_t  path = stack_buffer(tmp);
+  buffer_t  rlp  = {0};
+
+  for (uint32_t i = 0; i < ssz_len(withdrawals); i++) {
+    ssz_ob_t withdrawal = ssz_at(withdrawals, i);
+    rlp.data.len        = 0;
+    rlp_add_uint64(&rlp, ssz_get_uint64(&withdrawal, "index"));
+    rlp_add_uint64(&rlp, ssz_get_uint64(&withdrawal, "validatorIndex"));
+    rlp_add_item(&rlp, ssz_get(&withdrawal, "address").bytes);
+    rlp_add_uint64(&rlp, ssz_get_uint64(&withdrawal, "amount"));
+    rlp_to_list(&rlp);
+    patricia_set_value(&root, c4_eth_create_tx_path(i, &path), rlp.data);
+  }
+  memcpy(withdrawals_root, root ? patricia_get_root(root).data : EMPTY_ROOT_HASH, 32);
+  if (root) patricia_node_free(root);
+  buffer_free(&rlp);
+}
+
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
@@ -150,7 +172,7 @@ bool verify_block_proof(verify_ctx_t* ctx) {
   ssz_verify_single_merkle_proof(proof.bytes, exec_root, EXECUTION_PAYLOAD_ROOT_GINDEX, body_root);
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
-  ssz_hash_tree_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
+  create_withdrawals_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
 
   eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL_WITHOUT_REQUESTS, execution_payload, ssz_get(&header, "parentRoot").bytes.data, exec_root, include_txs);
   if (ctx->state.error || !matches_blocknumber(ctx, execution_payload, block_number)) return false;
-- 
2.43.0


From d4e87d39fc0f82bca9566e15c6b091209d7dddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:37 +0000
Subject: [PATCH 039/101] fix: booleans were lost when converting json to ssz

---
 src/util/ssz_builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 04e69ed..75658b2 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -301,6 +301,7 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     case SSZ_TYPE_BOOLEAN: {
       // Boolean: convert JSON boolean to 0 or 1
       buffer_grow(&buf.fixed, 1);
+      buf.fixed.data.len     = 1;
       buf.fixed.data.data[0] = json_as_bool(json) ? 1 : 0;
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
-- 
2.43.0


From 72b7edb83dda9202a56fae43031098b4d40e9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:01 +0000
Subject: [PATCH 040/101] fix: the fixed part of a container must be complete

---
 src/util/ssz.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..04a2fc3 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -177,7 +177,10 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
     case SSZ_TYPE_CONTAINER: {
       // Container with mixed fixed/dynamic fields
-      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < ssz_fixed_length(ob.def)) : (ob.bytes.len != ssz_fixed_length(ob.def))) THROW_INVALID("Invalid length for container");
+      size_t fixed_part = 0;
+      for (int i = 0; i < ob.def->def.container.len; i++)
+        fixed_part += ssz_fixed_length(ob.def->def.container.elements + i);
+      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < fixed_part) : (ob.bytes.len != fixed_part)) THROW_INVALID("Invalid length for container");
       if (recursive) {
         ssz_ob_t last_ob     = {0};
         uint32_t last_offset = 0;
-- 
2.43.0


From 1d3d3f2c370751ccfe6c2585808403304dd949fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:05 +0000
Subject: [PATCH 041/101] fix: the last element of a list may be empty

---
 src/util/ssz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 04a2fc3..7d6d01a 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -143,12 +143,12 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         if (ob.bytes.len < SSZ_OFFSET_SIZE) THROW_INVALID("Invalid bytelength for list");
         uint32_t first_offset = uint32_from_le(ob.bytes.data);
         // First offset must be aligned and within bounds
-        if (first_offset >= ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
+        if (first_offset > ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
           THROW_INVALID("Invalid first offset for list");
         uint32_t offset = first_offset;
         for (int i = SSZ_OFFSET_SIZE; i < first_offset; i += SSZ_OFFSET_SIZE) {
           uint32_t next_offset = uint32_from_le(ob.bytes.data + i);
-          if (next_offset >= ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
+          if (next_offset > ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
           if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, next_offset - offset)), recursive, state)) return false;
           offset = next_offset;
         }
-- 
2.43.0


From 142e8c80c4c9047db77e21619ec170e5cec7f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:10 +0000
Subject: [PATCH 042/101] fix: a bit list must have a sentinel bit

---
 src/util/ssz.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 7d6d01a..2357c52 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -170,8 +170,9 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       // Bit vector length must match definition exactly
       RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit vector");
     case SSZ_TYPE_BIT_LIST:
-      // Bit list length can be up to max length
-      RETURN_VALID_IF(ob.bytes.len <= (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit list");
+      // Bit list must end with the sentinel bit, which comes after up to max length bits
+      if (ob.bytes.len == 0 || ob.bytes.data[ob.bytes.len - 1] == 0) THROW_INVALID("Missing sentinel bit in bit list");
+      RETURN_VALID_IF(ssz_len(ob) <= ob.def->def.vector.len, "Invalid length for bit list");
     case SSZ_TYPE_UINT:
       // Uint length must match definition
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
-- 
2.43.0


From 088bff7dae8960035b98c39f8e373784cdd3a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:14 +0000
Subject: [PATCH 043/101] fix: the length of bit vectors in bytes must be
 rounded up

---
 src/util/ssz_builder.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 75658b2..4d460ef 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -351,10 +351,10 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     }
     case SSZ_TYPE_BIT_VECTOR: {
       bytes_t bytes = json_as_bytes(json, &buf.fixed);
-      if (bytes.len > def->def.vector.len / 8)
-        buf.fixed.data.len = def->def.vector.len / 8;
-      else if (bytes.len < def->def.vector.len / 8)
-        buffer_append(&buf.fixed, bytes(NULL, def->def.vector.len / 8 - bytes.len));
+      if (bytes.len > (def->def.vector.len + 7) / 8)
+        buf.fixed.data.len = (def->def.vector.len + 7) / 8;
+      else if (bytes.len < (def->def.vector.len + 7) / 8)
+        buffer_append(&buf.fixed, bytes(NULL, (def->def.vector.len + 7) / 8 - bytes.len));
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
     case SSZ_TYPE_BIT_LIST:
-- 
2.43.0


From 13901531db0980270de48b73643814b24f4f1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:34 +0000
Subject: [PATCH 044/101] fix: the content of a bit list is the left child of
 its gindex

---
 src/util/ssz_merkle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 070c8d2..4c9a1d7 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -464,7 +464,7 @@ static void hash_tree_root(ssz_ob_t ob, uint8_t* out, merkle_ctx_t* parent) {
   calc_leafes(&ctx, ob);
   if (parent) {
     ctx.proof       = parent->proof;
-    ctx.root_gindex = ob.def->type == SSZ_TYPE_LIST ? parent->last_gindex * 2 : parent->last_gindex;
+    ctx.root_gindex = (ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST) ? parent->last_gindex * 2 : parent->last_gindex;
   }
 
   if (ctx.num_leafes == 1)
-- 
2.43.0


From 711868b35840c40689e44802b202098fff351088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:24 +0000
Subject: [PATCH 045/101] fix: witnesses of objects with a single leaf were
 missing in merkle proofs

---
 src/util/ssz_merkle.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 4c9a1d7..8416365 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -443,8 +443,11 @@ static void mix_in_length(uint8_t* root, uint32_t length, merkle_ctx_t* ctx) {
 
   if (ctx && ctx->proof) {
     int pos = gindex_indexOf(ctx->proof->witnesses, ctx->root_gindex + 1);
-    if (pos >= 0 && ctx->proof->proof->data.data)
+    if (pos >= 0) {
+      buffer_grow(ctx->proof->proof, (ctx->proof->witnesses->data.len / sizeof(gindex_t)) * 32);
+      ctx->proof->proof->data.len = ctx->proof->witnesses->data.len / sizeof(gindex_t) * 32;
       memcpy(ctx->proof->proof->data.data + pos * 32, length_bytes, 32);
+    }
   }
 }
 
@@ -467,10 +470,7 @@ static void hash_tree_root(ssz_ob_t ob, uint8_t* out, merkle_ctx_t* parent) {
     ctx.root_gindex = (ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST) ? parent->last_gindex * 2 : parent->last_gindex;
   }
 
-  if (ctx.num_leafes == 1)
-    set_leaf(ob, 0, out, NULL);
-  else
-    merkle_hash(&ctx, 0, 0, out);
+  merkle_hash(&ctx, 0, 0, out);
 
   // Mix in length for variable-length types (lists and bit lists)
   if (ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST)
-- 
2.43.0


From 3c086c894efdf2c6eefa666bb1fc75c305ce4363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:49 +0000
Subject: [PATCH 046/101] fix: the tag finalized was never recognized by the
 prover

---
 src/chains/eth/prover/beacon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3a8ddfc..3f09e74 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -37,7 +37,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   buffer_t buffer = {.allocated = -32, .data = {.data = key, .len = 0}};
   if (strncmp(block.start, "\"latest\"", 8) == 0)
     sbprintf(((char*) key) + 1, "%s", "latest");
-  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 12) == 0) {
+  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 11) == 0) {
     sbprintf((char*) key, "%s", FINALITY_KEY);
     return;
   }
@@ -56,7 +56,7 @@ static beacon_head_t* c4_beacon_cache_get_slot(prover_ctx_t* ctx, json_t block)
   if (strncmp(block.start, "\"latest\"", 8) == 0 && !cached) {
     log_warn("Slatest block not found in cache, but it is requested! This should not happen!");
   }
-  if (cached && strncmp(block.start, "\"finalized\"", 12) == 0) return cached + 1;
+  if (cached && strncmp(block.start, "\"finalized\"", 11) == 0) return cached + 1;
   return cached;
 }
 static bool c4_beacon_cache_get_blockdata(prover_ctx_t* ctx, bytes32_t block_root, beacon_block_t* beacon_block) {
@@ -380,7 +380,7 @@ static inline c4_status_t eth_get_block_roots(prover_ctx_t* ctx, json_t block, b
     return C4_SUCCESS; // latest -  we do nothing since 2 empty root_hashes are returned, which will trigger head-requests
   else if (strncmp(block.start, "\"safe\"", 6) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, true, data_root, NULL));
-  else if (strncmp(block.start, "\"finalized\"", 12) == 0)
+  else if (strncmp(block.start, "\"finalized\"", 11) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, false, data_root, NULL));
   else if (block.type == JSON_TYPE_STRING && block.len == 68) // blockhash
     TRY_ASYNC(eth_get_by_hash(ctx, block, data_root));
-- 
2.43.0


From d530be1df466e961bdc4273a6122ada1e1ea01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:52 +0000
Subject: [PATCH 047/101] fix: request the code of the latest block

---
 src/chains/eth/prover/eth_req.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 8224b07..a8d6c63 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -112,7 +112,7 @@ c4_status_t eth_get_code(prover_ctx_t* ctx, json_t address, json_t* code, uint64
   char            tmp[120];
   buffer_t        buf = stack_buffer(tmp);
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"lastest\"]", address), DEFAULT_TTL, code, &req));
+  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"latest\"]", address), DEFAULT_TTL, code, &req));
   if (req && !req->validated) {
     CHECK_JSON(*code, "bytes", "Invalid results for Code: ");
     req->validated = true;
-- 
2.43.0


From 6d6a1963c83aa1117d58a7778e7a7e1b9945d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:55 +0000
Subject: [PATCH 048/101] fix: handle missing historical summaries

---
 src/chains/eth/prover/historic_proof.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 64dfb6e..8d22aec 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -204,9 +204,9 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   bytes_t  period_idx_proof       = ssz_create_proof(summaries_ob, root, period_gidx);
   bytes_t  block_root_expected    = ssz_at(blocks_ob, block_idx).bytes;
   ssz_ob_t summary_ob             = ssz_at(summaries_ob, summary_idx);
-  bytes_t  blocks_root_in_summary = ssz_get(&summary_ob, "block_summary_root").bytes;
+  bytes_t  blocks_root_in_summary = summary_ob.def ? ssz_get(&summary_ob, "block_summary_root").bytes : NULL_BYTES;
 
-  if (memcmp(blocks_root, blocks_root_in_summary.data, 32) != 0) {
+  if (!blocks_root_in_summary.data || memcmp(blocks_root, blocks_root_in_summary.data, 32) != 0) {
     log_info("block_root_expected: 0x%b", block_root_expected);
     log_info("blocks_root1: 0x%b", bytes(blocks_root, 32));
     log_info("blocks_root_in_summary: 0x%b", blocks_root_in_summary);
-- 
2.43.0


From 9ba4e46b098eb292774b3287d0a91d7cebddab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:58 +0000
Subject: [PATCH 049/101] fix: the prover must not write files into the working
 directory

---
 src/chains/eth/prover/beacon.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3f09e74..52e1576 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -519,12 +519,6 @@ static bool convert_to_ssz(prover_ctx_t* ctx, data_request_t* data_request, ssz_
     return false;
   }
 
-  buffer_t buffer = {0};
-  bprintf(&buffer, "%z", ssz_result);
-  bytes_write(result->bytes, fopen("block_src.json", "wb"), true);
-  bytes_write(buffer.data, fopen("block_ssz.json", "wb"), true);
-  buffer_free(&buffer);
-
   safe_free(data_request->response.data);
   data_request->response = ssz_result.bytes;
   result->bytes          = ssz_result.bytes;
-- 
2.43.0


From 5fcc8dc735a75e1aec6ac494df736ba2910767da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:01 +0000
Subject: [PATCH 050/101] fix: responses must be zero-terminated before they
 are parsed as json

---
 src/util/bytes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index e21decb..25b99a8 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -439,13 +439,14 @@ static inline void buffer_add_hex_chars(buffer_t* buffer, bytes_t data) {
 }
 
 bytes_t bytes_dup(bytes_t data) {
-  bytes_t result = {.data = safe_malloc(data.len), .len = data.len};
+  bytes_t result = {.data = safe_malloc((size_t) data.len + 1), .len = data.len}; // zero-terminated, since responses are parsed as json
   if (!result.data && data.len > 0) {
     // This case should not be reached since safe_malloc exits on failure,
     // but kept for completeness in case safe_malloc behavior changes.
     return NULL_BYTES; // Indicate failure if malloc fails
   }
   memcpy(result.data, data.data, data.len);
+  result.data[data.len] = 0;
   return result;
 }
 
-- 
2.43.0


From 88834488ec2433b76602117228afaaa64001f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:04 +0000
Subject: [PATCH 051/101] fix: check the length of the light client updates

---
 src/chains/eth/prover/historic_proof.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 8d22aec..703ec57 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -309,12 +309,12 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
     uint32_t data_length_offset = SSZ_OFFSET_SIZE;
     length                      = uint64_from_le(client_updates.data + pos);
 
-    if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
+    if (length < SSZ_OFFSET_SIZE || length > client_updates.len - pos - SSZ_LENGTH_SIZE) THROW_ERROR("Invalid update data!");
 
     bytes_t   client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
     fork_id_t fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
     ssz_ob_t  update              = {.bytes = client_update_bytes, .def = eth_get_light_client_update(fork)};
-    if (!update.def) THROW_ERROR("Invalid update data!");
+    if (!update.def || !ssz_is_valid(update, true, &ctx->state)) THROW_ERROR("Invalid update data!");
 
     bytes_t prefixed = bytes(safe_malloc(update.bytes.len + 1), update.bytes.len + 1);
     memcpy(prefixed.data + 1, update.bytes.data, update.bytes.len);
-- 
2.43.0


From 70d2fb0e6a48bac14cc915e573e382a7762254da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:07 +0000
Subject: [PATCH 052/101] fix: no light client updates for clients without any
 state

---
 src/chains/eth/prover/historic_proof.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 703ec57..d34a107 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -344,7 +344,7 @@ c4_status_t c4_get_syncdata_proof(prover_ctx_t* ctx, syncdata_state_t* sync_data
     safe_free(zk_proof.signatures.data);
     return C4_SUCCESS;
   }
-  if (sync_data->checkpoint_period == 0 && sync_data->required_period <= sync_data->newest_period) return C4_SUCCESS;
+  if (sync_data->checkpoint_period == 0 && (sync_data->newest_period == 0 || sync_data->required_period <= sync_data->newest_period)) return C4_SUCCESS; // without a known period, there is nothing to start from
 
   builder->def            = C4_ETH_REQUEST_SYNCDATA_UNION + 1; // TODO find a way to better handle this in the future, so updates on ssz will not break the build.
   ssz_ob_t      bootstrap = {.def = &ssz_none};
-- 
2.43.0


From 373b2c83a298c67fd7901c9254eb57f904ede08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:10 +0000
Subject: [PATCH 053/101] fix: proofs for empty results (eth_getLogs without
 any match) lost their type

---
 src/chains/eth/prover/eth_tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/eth_tools.c b/src/chains/eth/prover/eth_tools.c
index 5aa8c44..937d756 100644
--- a/src/chains/eth/prover/eth_tools.c
+++ b/src/chains/eth/prover/eth_tools.c
@@ -30,7 +30,7 @@
 #include "version.h"
 
 static void set_data(ssz_builder_t* req, const char* name, ssz_builder_t data) {
-  if (data.fixed.data.data || data.dynamic.data.data)
+  if (data.def) // even an empty list needs its selector
     ssz_add_builders(req, name, data);
   else
     ssz_add_bytes(req, name, bytes(NULL, 1));
-- 
2.43.0


From ecd4c8d63fbab26c0c4cbf83e8cd29585ac23912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:13 +0000
Subject: [PATCH 054/101] fix: reading json into a fixed buffer must not write
 behind its end

---
 src/util/json.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index a96b923..a8f9a86 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -326,8 +326,7 @@ static void json_deescape_string(buffer_t* buffer) {
   }
 }
 json_t json_dup(json_t json) {
-  char* val       = (char*) bytes_dup(bytes(json.start, json.len + 1)).data;
-  val[json.len]   = 0;
+  char* val       = (char*) bytes_dup(bytes(json.start, json.len)).data; // zero-terminated
   json_t new_json = json;
   new_json.start  = val;
   return new_json;
@@ -337,22 +336,24 @@ char* json_as_string(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   buffer->data.len = 0;
-  buffer_grow(buffer, value.len + 1);
+  size_t  max_len = buffer_grow(buffer, value.len + 1);
+  bytes_t content = value.type == JSON_TYPE_STRING ? bytes((uint8_t*) value.start + 1, value.len - 2) : bytes((uint8_t*) value.start, value.len);
+  if (content.len >= max_len) content.len = max_len ? (uint32_t) max_len - 1 : 0; // a fixed buffer needs space for the terminating zero
   if (value.type == JSON_TYPE_STRING) {
-    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2));
+    buffer_append(buffer, content);
     buffer->data.data[buffer->data.len] = '\0';
     buffer->data.len++;
     json_deescape_string(buffer);
   }
   else {
-    buffer_append(buffer, bytes((uint8_t*) value.start, value.len));
+    buffer_append(buffer, content);
     buffer->data.data[buffer->data.len] = '\0';
   }
   return (char*) buffer->data.data;
 }
 
 uint64_t json_as_uint64(json_t value) {
-  uint8_t  tmp[20] = {0};
+  uint8_t  tmp[32] = {0};
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
     int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
@@ -372,8 +373,8 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   if (value.type == JSON_TYPE_NUMBER) {
+    if (buffer_grow(buffer, 8) < 8) return NULL_BYTES;
     buffer->data.len = 8;
-    buffer_grow(buffer, 8);
     uint64_to_be(buffer->data.data, json_as_uint64(value));
     return buffer->data;
   }
@@ -397,7 +398,7 @@ bool json_as_null(json_t value) {
 void buffer_add_json(buffer_t* buffer, json_t data) {
   buffer_grow(buffer, buffer->data.len + data.len + 1);
   buffer_append(buffer, bytes((uint8_t*) data.start, data.len));
-  buffer->data.data[buffer->data.len] = 0;
+  if (buffer->data.len < (uint32_t) abs(buffer->allocated)) buffer->data.data[buffer->data.len] = 0;
 }
 
 char* json_new_string(json_t parent) {
-- 
2.43.0


From f344b006acfd871ca2bd2e3fb98fcbcf47125260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:16 +0000
Subject: [PATCH 055/101] fix: invalid or too long hex values with an odd
 number of digits must be rejected

---
 src/util/bytes.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 25b99a8..80cb216 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -299,7 +299,11 @@ int hex_to_bytes(const char* hexstring, int len, bytes_t buffer) {
   int src_offset = (hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
 
   // Handle leading nibble for odd-length strings
-  if (dst_offset) buffer.data[0] = hexchar_to_int(hexstring[src_offset++]);
+  if (dst_offset) {
+    int nibble = hexchar_to_int(hexstring[src_offset++]);
+    if (nibble == -1 || buffer.len == 0) return -1;
+    buffer.data[0] = nibble;
+  }
 
   // Validate buffer has enough space for the conversion
   if ((hex_len - src_offset) % 2 || (buffer.len - dst_offset) < (hex_len - src_offset) / 2)
-- 
2.43.0


From 74c46dc47539c605583d0feb911bcf468dcc8a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:15 +0000
Subject: [PATCH 056/101] fix: receipts of contract creations may omit the
 field to

---
 src/chains/eth/verifier/eth_tx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index bdbeadd..49e6dc6 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -46,7 +46,8 @@ typedef enum {
   TX_TYPE_DEPOSITED = 0x7E, // Optimism Deposited Transaction
 } tx_type_t;
 
-#define RECEIPT_VERIFIED_FIELDS 0x1DFE // blockHash, blockNumber, transactionHash, transactionIndex, type, from, to, cumulativeGasUsed, logs, logsBloom and status
+#define RECEIPT_TO_FIELD        0x0080 // to (missing or null, if the transaction creates a contract)
+#define RECEIPT_VERIFIED_FIELDS 0x1D7E // blockHash, blockNumber, transactionHash, transactionIndex, type, from, cumulativeGasUsed, logs, logsBloom and status
 #define RECEIPT_DEPOSIT_FIELDS  0xC000 // depositNonce and depositReceiptVersion
 
 typedef struct {
@@ -314,6 +315,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
+  if (val.len && !(mask & RECEIPT_TO_FIELD)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data, missing fields!");
   if (block_number != ssz_get_uint64(&receipt_data, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
   if (!bytes_eq(ssz_get(&receipt_data, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&receipt_data, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
-- 
2.43.0


From ecacea7617a3afa319c7c6d561968d64f582b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 057/101] fix: the headers between the block and its signature
 were delivered in the wrong order

---
 src/chains/eth/prover/historic_proof.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index d34a107..1443966 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -91,17 +91,21 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
   for (int i = 0; i <= MAX_HISTORIC_PROOF_HEADER_DEPTH; i++) {
     if (i == MAX_HISTORIC_PROOF_HEADER_DEPTH) {
       buffer_free(&proof_headers);
+      buffer_free(&proof);
       THROW_ERROR("Max header limit reached!");
     }
 
     if (memcmp(root, src_block->data_block_root, 32) == 0) break;
-    TRY_ASYNC_CATCH(get_beacon_header(ctx, root, &header), buffer_free(&proof));
+    TRY_ASYNC_CATCH(get_beacon_header(ctx, root, &header), (buffer_free(&proof), buffer_free(&proof_headers)));
     json_get_bytes(header, "parent_root", &root_buf);
-    buffer_add_le(&proof, json_get_uint64(header, "slot"), 8);
-    buffer_add_le(&proof, json_get_uint64(header, "proposer_index"), 8);
-    buffer_append(&proof, json_get_bytes(header, "state_root", &header_buf));
-    buffer_append(&proof, json_get_bytes(header, "body_root", &header_buf));
+    buffer_reset(&proof_headers);
+    buffer_add_le(&proof_headers, json_get_uint64(header, "slot"), 8);
+    buffer_add_le(&proof_headers, json_get_uint64(header, "proposer_index"), 8);
+    buffer_append(&proof_headers, json_get_bytes(header, "state_root", &header_buf));
+    buffer_append(&proof_headers, json_get_bytes(header, "body_root", &header_buf));
+    buffer_splice(&proof, 0, 0, proof_headers.data); // we walk back, but the verifier starts with the header following the data block
   }
+  buffer_free(&proof_headers);
 
   block_proof->sync_aggregate = src_block->sync_aggregate;
   block_proof->historic_proof = proof.data.len ? bytes_dup(proof.data) : bytes(NULL, 0);
-- 
2.43.0


From b491f96590c19e18040837249bed24ccda6ac5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:24 +0000
Subject: [PATCH 058/101] fix: without finality checkpoints, safe and finalized
 were answered with the latest block

---
 src/chains/eth/prover/beacon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 52e1576..13954a9 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -342,6 +342,7 @@ static inline c4_status_t eth_get_final_hash(prover_ctx_t* ctx, bool safe, bytes
   TRY_ASYNC(get_finality_check_points(ctx, &result));
   json_get_bytes(json_get(result, "current_justified"), "root", &buf_justified);
   json_get_bytes(json_get(result, "finalized"), "root", &buf_finalized);
+  if (buf_justified.data.len != 32 || buf_finalized.data.len != 32) THROW_ERROR("Invalid finality checkpoints!");
   if (slot) {
     const chain_spec_t* chain = c4_eth_get_chain_spec(ctx->chain_id);
     json_t              cp    = json_get(result, safe ? "finalized" : "current_justified");
-- 
2.43.0


From 30c693adb3ef8e72eae02446a9242e552e2e17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:01 +0000
Subject: [PATCH 059/101] fix: json values must have the hex prefix, the length
 and the digits their type requires

---
 src/util/json_validate.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 68a3456..ec3f924 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -155,7 +155,7 @@ static const char* check_object(json_t ob, const char* def, const char* error_pr
 
 static const char* check_hex(json_t val, int len, bool isuint, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected hex string", error_prefix);
-  if (val.start[1] != '0' && val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
+  if (val.len < 4 || val.start[1] != '0' || val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
   int l = 0;
   for (int i = 3; i < val.len - 1; i++, l++) {
     if (!isxdigit((unsigned char)val.start[i])) ERROR("%sExpected hex string", error_prefix);
@@ -164,8 +164,8 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
   if (len > 0 && (l % 2 || l / 2 != len)) ERROR("%sExpected hex string with fixed size (%d) but got %d bytes", error_prefix, len, l / 2);
   if (isuint && (l == 0 || (val.start[3] == '0' && l > 1)))
     ERROR("%sno leading zeros allowed for uint", error_prefix);
-  if (isuint && l / 2 > 32) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
-  if (len < 0 && l / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
+  if (isuint && (l + 1) / 2 > 32) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
+  if (len < 0 && (l + 1) / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
   return NULL;
 }
 
@@ -177,7 +177,7 @@ static const char* check_block(json_t val, const char* error_prefix) {
 
 static const char* check_suint(json_t val, const char* error_prefix) {
   // this is a uint number in quotes as string (no hex, only 0-9+)
-  if (val.type != JSON_TYPE_STRING) ERROR("%sExpected suint", error_prefix);
+  if (val.type != JSON_TYPE_STRING || val.len < 3) ERROR("%sExpected suint", error_prefix);
   for (int i = 1; i < val.len - 1; i++) {
     if (!isdigit((unsigned char)val.start[i])) ERROR("%sExpected suint", error_prefix);
   }
@@ -194,7 +194,7 @@ const char* json_validate(json_t val, const char* def, const char* error_prefix)
   if (strncmp(def, "hex32", 5) == 0) return check_hex(val, -32, false, error_prefix);
   if (strncmp(def, "bytes", 5) == 0) return check_hex(val, 0, false, error_prefix);
   if (strncmp(def, "uint", 4) == 0) return val.type == JSON_TYPE_NUMBER ? NULL : strdup("Expected uint");
-  if (strncmp(def, "suint", 5) == 0) return val.type == JSON_TYPE_STRING ? NULL : strdup("Expected suint");
+  if (strncmp(def, "suint", 5) == 0) return check_suint(val, error_prefix ? error_prefix : "");
   if (strncmp(def, "bool", 4) == 0) return val.type == JSON_TYPE_BOOLEAN ? NULL : strdup("Expected boolean");
   if (strncmp(def, "block", 5) == 0) return check_block(val, error_prefix);
   ERROR("%sUnknown type %s", error_prefix ? error_prefix : "", def);
-- 
2.43.0


From 6664d8ceb509c68ae7992a1d656cd8da99da8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 060/101] fix: entries of the prover cache are not used after
 their ttl and not freed while in use

---
 src/prover/prover.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/prover/prover.c b/src/prover/prover.c
index 934e1f4..838a57c 100644
--- a/src/prover/prover.c
+++ b/src/prover/prover.c
@@ -137,9 +137,9 @@ const void* c4_prover_cache_get(prover_ctx_t* ctx, bytes32_t key) {
     cache_entry_t* entry = &global_cache_array.entries[i]; // Get pointer to entry in array
     if (CACHE_KEY_MATCH(entry, key_aligned)) {
 
-      // Skip invalidated entries (timestamp == 0 means invalidated)
-      if (entry->timestamp == 0) {
-        log_debug("Found matching key %b in global cache, but it was invalidated. Treating as miss.", bytes(key, 32));
+      // Skip invalidated entries (timestamp == 0 means invalidated) and entries whose ttl is over, but which have not been cleaned up yet
+      if (entry->timestamp < current_ms()) {
+        log_debug("Found matching key %b in global cache, but it was invalidated or expired. Treating as miss.", bytes(key, 32));
         continue; // Skip this entry, check next
       }
 
@@ -285,7 +285,16 @@ static cache_entry_t* find_global_cache_entry(bytes32_t key) {
   memcpy(key_aligned.bytes32, key, 32);
   for (size_t i = 0; i < global_cache_array.count; ++i) {
     cache_entry_t* entry = &global_cache_array.entries[i];
-    if (CACHE_KEY_MATCH(entry, key_aligned) && entry->timestamp > 0) return entry; // Return pointer to the entry in the array
+    if (CACHE_KEY_MATCH(entry, key_aligned) && entry->timestamp >= current_ms()) return entry; // Return pointer to the (valid) entry in the array
+  }
+  return NULL; // Not found
+}
+
+// Find the entry in the global cache array which holds this value. The entry may be invalidated or expired since it was used, so the key is not enough to identify it.
+static cache_entry_t* find_global_cache_source(const cache_entry_t* local) {
+  for (size_t i = 0; i < global_cache_array.count; ++i) {
+    cache_entry_t* entry = &global_cache_array.entries[i];
+    if (entry->value == local->value && memcmp(entry->key.bytes32, local->key.bytes32, 32) == 0) return entry;
   }
   return NULL; // Not found
 }
@@ -400,8 +409,8 @@ void c4_prover_free(prover_ctx_t* ctx) {
 
       if (current_local_entry->from_global_cache) {
         // This was copied from global, decrement the counter on the source.
-        // Re-find the global entry by key before decrementing for safety against realloc.
-        cache_entry_t* global_src = find_global_cache_entry(current_local_entry->key.bytes32);
+        // Re-find the global entry before decrementing for safety against realloc.
+        cache_entry_t* global_src = find_global_cache_source(current_local_entry);
         if (global_src && global_src->use_counter > 0) // Prevent underflow
           global_src->use_counter--;
         else
-- 
2.43.0


From d01cb08779aef480e8b998b77d138bb1adc46051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 061/101] fix: removing an entry of the tx cache lost other
 entries of its cluster, and a full table was never left

---
 src/chains/eth/prover/tx_cache.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 31faa67..7fc075e 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -116,17 +116,12 @@ static size_t table_find_index(const bytes32_t key) {
 // Backshift deletion starting from position pos
 static void table_delete_at(size_t pos) {
   size_t i = pos;
-  size_t j = (i + 1u) & (TABLE_CAPACITY - 1u);
-  while (g_table[j].used) {
-    uint64_t h    = hash_bytes32(g_table[j].key);
-    size_t   home = table_index(h);
-    // If entry is in its home bucket, stop shifting
-    if (home == j) {
-      break;
-    }
+  for (size_t j = (i + 1u) & (TABLE_CAPACITY - 1u); g_table[j].used; j = (j + 1u) & (TABLE_CAPACITY - 1u)) {
+    size_t home = table_index(hash_bytes32(g_table[j].key));
+    // an entry may only move into the gap, if the gap is not before its home bucket, otherwise it would not be found anymore.
+    if (((j - home) & (TABLE_CAPACITY - 1u)) < ((j - i) & (TABLE_CAPACITY - 1u))) continue;
     g_table[i] = g_table[j];
     i          = j;
-    j          = (j + 1u) & (TABLE_CAPACITY - 1u);
   }
   g_table[i].used = false;
 }
@@ -278,7 +273,8 @@ void c4_eth_tx_cache_reserve(uint32_t number_of_entries_to_add) {
 }
 
 void c4_eth_tx_cache_set_max_size(uint32_t max) {
-  if (max == 0) max = 1; // avoid zero which breaks invariants
+  if (max == 0) max = 1;                                   // avoid zero which breaks invariants
+  if (max > TABLE_CAPACITY - 1u) max = TABLE_CAPACITY - 1u; // probing needs at least one free bucket
   g_max_tx_cache_size = (size_t) max;
   // Ensure we do not exceed the new limit
   clean_up_cache(0);
-- 
2.43.0


From 1bbabe99b28c4c016f60d9ab4fccf471553108a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:17 +0000
Subject: [PATCH 062/101] fix: blocks of the logs cache got lost or mixed up
 after the ring buffer was full

---
 src/chains/eth/prover/logs_cache.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 00bd113..8eeaa68 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -163,11 +163,14 @@ static void bloom_add_element_buf(uint8_t bloom[256], bytes_t element) {
  */
 static block_entry_t* push_block(uint64_t block_number) {
   // block is already in the cache?
-  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number)
-    return g_cache.blocks + ((block_number - g_cache.start_number) % g_cache.blocks_count);
+  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number) {
+    block_entry_t* existing = g_cache.blocks + ((g_cache.start_idx + (block_number - g_cache.start_number)) % g_cache.blocks_count);
+    existing->events_count  = 0; // the events will be replaced
+    return existing;
+  }
 
   // is previous block in the cache? if not, we need to reset in order to have a contiguous cache
-  if (g_cache.start_number && g_cache.start_number + g_cache.blocks_count != block_number) {
+  if (g_cache.blocks_count && g_cache.start_number + g_cache.blocks_count != block_number) {
     log_warn("logs_cache: non-contiguous block detected (got %l, expected %l). Resetting cache.", block_number,
              g_cache.start_number + g_cache.blocks_count);
     reset_cache();
@@ -178,6 +181,7 @@ static block_entry_t* push_block(uint64_t block_number) {
     block_entry_t* oldest = &g_cache.blocks[g_cache.start_idx];            // current oldest block spot will be used for the new block.
     safe_free(oldest->events);                                             // clean up old events
     memset(oldest, 0, sizeof(block_entry_t));                              // clear the block entry
+    oldest->block_number = block_number;                                   // from now on it holds the new block
     g_cache.start_idx    = (g_cache.start_idx + 1) % g_cache.blocks_count; // rotate to next block
     g_cache.start_number = g_cache.blocks[g_cache.start_idx].block_number; // update the start number to the new oldest block
     return oldest;
@@ -726,6 +730,7 @@ uint64_t c4_eth_logs_cache_last_block(void) { return g_cache.start_number + g_ca
 uint32_t c4_eth_logs_cache_capacity_blocks(void) { return g_cache.blocks_count; }
 
 void c4_eth_logs_cache_enable(uint32_t max_blocks) {
+  if (g_cache.blocks_limit != max_blocks) reset_cache(); // the size of the ringbuffer changes
   g_cache.blocks_limit = max_blocks;
 }
 
-- 
2.43.0


From 543b0dc2d8c45ef327040ff82431b16e52e6a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:20 +0000
Subject: [PATCH 063/101] fix: filters with too many combinations for the bloom
 were answered by the logs cache with no logs

---
 src/chains/eth/prover/logs_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 8eeaa68..4385260 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -536,7 +536,7 @@ static void build_match_index(log_cache_state_t* st) {
   uint64_t* variants      = (uint64_t*) st->filter_blooms.data;
   for (uint64_t bn = st->from_block; bn <= st->to_block; bn++) {
     block_entry_t* e = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (bn - g_cache.start_number)) % g_cache.blocks_count);
-    if (!bloom_matches(variant_count, variants, e->logs_bloom64)) continue;
+    if (variant_count && !bloom_matches(variant_count, variants, e->logs_bloom64)) continue;
     // Confirm by scanning cached events
     block_result_t* block_res = NULL;
     for (uint32_t i = 0; i < e->events_count; i++) {
-- 
2.43.0


From 880eb039bf2c3a97ce062a7a31a5c798b5f59c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 064/101] fix: filters with a blockHash were answered by the
 logs cache with the logs of the latest block

---
 src/chains/eth/prover/logs_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 4385260..afdf7fc 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -644,6 +644,7 @@ static c4_status_t get_exec_blocknumber(prover_ctx_t* ctx, json_t block, uint64_
 c4_status_t c4_eth_logs_cache_scan(prover_ctx_t* ctx, json_t filter, json_t* out_logs, bool* served_from_cache) {
   if (served_from_cache) *served_from_cache = false;
   if (!c4_eth_logs_cache_is_enabled()) return C4_SUCCESS;
+  if (json_get(filter, "blockHash").type == JSON_TYPE_STRING) return C4_SUCCESS; // the cache only knows the blocks by their number
 
   // Resolve and persist the numeric range across async invocations
   log_cache_state_t* st = get_log_state(ctx);
-- 
2.43.0


From 326f0b5e30cc8e294e48b2ee6538bfb68684b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:27 +0000
Subject: [PATCH 065/101] fix: the logs cache returned the logs in reverse
 order

---
 src/chains/eth/prover/logs_cache.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index afdf7fc..4458ea7 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -316,20 +316,20 @@ static log_cache_state_t* get_log_state(prover_ctx_t* ctx) {
 }
 
 static inline tx_result_t* ensure_tx_result(block_result_t* b, uint32_t tx_idx) {
-  for (tx_result_t* t = b->txs; t; t = t->next)
-    if (t->tx_idx == tx_idx) return t;
+  tx_result_t** end = &b->txs;
+  for (; *end; end = &(*end)->next)
+    if ((*end)->tx_idx == tx_idx) return *end;
   tx_result_t* t = (tx_result_t*) safe_calloc(1, sizeof(tx_result_t));
   t->tx_idx      = tx_idx;
-  t->next        = b->txs;
-  b->txs         = t;
+  *end           = t; // keep the order of the transactions
   return t;
 }
 
 static inline block_result_t* add_block_result(block_result_t** head, uint64_t block_number) {
   block_result_t* b = (block_result_t*) safe_calloc(1, sizeof(block_result_t));
   b->block_number   = block_number;
-  b->next           = *head;
-  *head             = b;
+  while (*head) head = &(*head)->next; // keep the order of the blocks
+  *head = b;
   return b;
 }
 
@@ -550,8 +550,9 @@ static void build_match_index(log_cache_state_t* st) {
       // append event
       event_result_t* er = (event_result_t*) safe_calloc(1, sizeof(event_result_t));
       er->log_idx        = ev->log_index;
-      er->next           = txr->events;
-      txr->events        = er;
+      event_result_t** end = &txr->events;
+      while (*end) end = &(*end)->next; // keep the order of the logs
+      *end = er;
     }
   }
 }
-- 
2.43.0


From 7a4d2075da699983b0a6c28dd0078653f6b3dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:53 +0000
Subject: [PATCH 066/101] fix: the python client excluded the wrong server
 after an unusable response

---
 bindings/python/src/colibri/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bindings/python/src/colibri/client.py b/bindings/python/src/colibri/client.py
index 737d8fd..798c4e6 100644
--- a/bindings/python/src/colibri/client.py
+++ b/bindings/python/src/colibri/client.py
@@ -4,7 +4,7 @@ Main Colibri client implementation
 
 import asyncio
 import json
-from typing import Any, Dict, List, Optional, Union
+from typing import Any, Dict, List, Optional, Tuple, Union
 
 import aiohttp
 
@@ -392,10 +392,10 @@ class Colibri:
 
                 # Execute HTTP request
                 try:
-                    response_data = await self._execute_http_request(request, servers)
+                    response_data, node_index = await self._execute_http_request(request, servers)
                     native = _get_native()
                     if native:
-                        native.req_set_response(request.req_ptr, response_data, 0)
+                        native.req_set_response(request.req_ptr, response_data, node_index)
                 except Exception as e:
                     native = _get_native()
                     if native:
@@ -421,7 +421,7 @@ class Colibri:
         self, 
         request: DataRequest, 
         servers: List[str]
-    ) -> bytes:
+    ) -> Tuple[bytes, int]:
         """
         Execute a single HTTP request against multiple servers
         
@@ -430,7 +430,7 @@ class Colibri:
             servers: List of server URLs to try
             
         Returns:
-            Response data as bytes
+            Response data as bytes and the index of the server that sent it
             
         Raises:
             HTTPError: If all servers fail
@@ -461,7 +461,7 @@ class Colibri:
                         timeout=aiohttp.ClientTimeout(total=30)
                     ) as response:
                         if response.status == 200:
-                            return await response.read()
+                            return await response.read(), i
                         else:
                             error_text = await response.text()
                             print(f"HTTP {response.status} from {url}: {error_text}")
-- 
2.43.0


From 0682bfa4a7445cf47e7dce9bcf6595819845ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:56 +0000
Subject: [PATCH 067/101] fix: arguments with leading whitespaces crashed the
 bindings

---
 bindings/colibri.c        | 10 +++++++---
 bindings/emscripten/ems.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 901f971..59c3233 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -37,6 +37,8 @@
 typedef struct {
   verify_ctx_t ctx;
   bytes_t      proof;
+  char*        method;
+  char*        args;
   bool         initialised;
 } c4_verify_ctx_t;
 
@@ -163,7 +165,9 @@ bytes_t c4_prover_get_proof(prover_t* prover) {
 void* c4_verify_create_ctx(bytes_t proof, char* method, char* args, uint64_t chain_id, char* trusted_checkpoint) {
   c4_verify_ctx_t* ctx = calloc(1, sizeof(c4_verify_ctx_t));
   ctx->proof           = bytes_dup(proof);
-  c4_verify_init(&ctx->ctx, ctx->proof, method ? strdup(method) : NULL, args ? json_parse(strdup(args)) : ((json_t) {0}), (chain_id_t) chain_id);
+  ctx->method          = method ? strdup(method) : NULL;
+  ctx->args            = args ? strdup(args) : NULL;
+  c4_verify_init(&ctx->ctx, ctx->proof, ctx->method, ctx->args ? json_parse(ctx->args) : ((json_t) {0}), (chain_id_t) chain_id);
   if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
     bytes32_t checkpoint;
     hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
@@ -207,8 +211,8 @@ char* c4_verify_execute_json_status(void* ptr) {
 void c4_verify_free_ctx(void* ptr) {
   c4_verify_ctx_t* ctx = (c4_verify_ctx_t*) ptr;
   if (ctx->proof.data) free(ctx->proof.data);
-  if (ctx->ctx.method) free((char*) ctx->ctx.method);
-  if (ctx->ctx.args.start) free((char*) ctx->ctx.args.start);
+  if (ctx->method) free(ctx->method);
+  if (ctx->args) free(ctx->args); // not ctx->ctx.args.start, since it would not be the start of the allocated memory in case of leading whitespaces
   c4_verify_free_data(&(ctx->ctx));
   free(ctx);
 }
diff --git a/bindings/emscripten/ems.c b/bindings/emscripten/ems.c
index 91dd6d3..2ccf0d9 100644
--- a/bindings/emscripten/ems.c
+++ b/bindings/emscripten/ems.c
@@ -32,6 +32,8 @@
 
 typedef struct {
   bytes_t      proof;
+  char*        method;
+  char*        args;
   verify_ctx_t verify;
 } c4w_verify_ctx_t;
 
@@ -153,7 +155,9 @@ void* EMSCRIPTEN_KEEPALIVE c4w_create_verify_ctx(uint8_t* proof, size_t proof_le
 
   c4w_verify_ctx_t* ctx = calloc(1, sizeof(c4w_verify_ctx_t));
   ctx->proof            = bytes_dup(bytes(proof, proof_len));
-  c4_verify_init(&ctx->verify, ctx->proof, strdup(method), args ? json_parse(strdup(args)) : ((json_t) {.len = 0, .start = "[]", .type = JSON_TYPE_ARRAY}), (chain_id_t) chain_id);
+  ctx->method           = strdup(method);
+  ctx->args             = args ? strdup(args) : NULL;
+  c4_verify_init(&ctx->verify, ctx->proof, ctx->method, ctx->args ? json_parse(ctx->args) : ((json_t) {.len = 0, .start = "[]", .type = JSON_TYPE_ARRAY}), (chain_id_t) chain_id);
 
   if (witness_keys && strlen(witness_keys) > 40 && witness_keys[0] == '0' && witness_keys[1] == 'x') {
     bytes_t witness_key_bytes = bytes(safe_malloc(strlen(witness_keys) / 2), (strlen(witness_keys) - 2) / 2);
@@ -165,8 +169,8 @@ void* EMSCRIPTEN_KEEPALIVE c4w_create_verify_ctx(uint8_t* proof, size_t proof_le
 }
 void EMSCRIPTEN_KEEPALIVE c4w_free_verify_ctx(void* ptr) {
   c4w_verify_ctx_t* ctx = (c4w_verify_ctx_t*) ptr;
-  if (ctx->verify.method) free((char*) ctx->verify.method);
-  if (ctx->verify.args.len) free((char*) ctx->verify.args.start);
+  if (ctx->method) free(ctx->method);
+  if (ctx->args) free(ctx->args);
   if (ctx->proof.data) free(ctx->proof.data);
   c4_verify_free_data(&ctx->verify);
   free(ctx);
-- 
2.43.0


From fc351052ca76fe5fb7897d67d6347a2c2bc6e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:59 +0000
Subject: [PATCH 068/101] fix: a malformed trusted checkpoint was ignored or
 replaced by uninitialized memory

---
 bindings/colibri.c        | 10 ++++++----
 bindings/emscripten/ems.c | 13 ++++++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 59c3233..00782c1 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -168,10 +168,12 @@ void* c4_verify_create_ctx(bytes_t proof, char* method, char* args, uint64_t cha
   ctx->method          = method ? strdup(method) : NULL;
   ctx->args            = args ? strdup(args) : NULL;
   c4_verify_init(&ctx->ctx, ctx->proof, ctx->method, ctx->args ? json_parse(ctx->args) : ((json_t) {0}), (chain_id_t) chain_id);
-  if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
-    bytes32_t checkpoint;
-    hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
-    c4_eth_set_trusted_checkpoint(chain_id, checkpoint);
+  if (trusted_checkpoint && *trusted_checkpoint) {
+    bytes32_t checkpoint = {0};
+    if (strlen(trusted_checkpoint) == 66 && strncmp(trusted_checkpoint, "0x", 2) == 0 && hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32)) == 32)
+      c4_eth_set_trusted_checkpoint(chain_id, checkpoint);
+    else
+      c4_state_add_error(&ctx->ctx.state, "invalid trusted checkpoint");
   }
   return (void*) ctx;
 }
diff --git a/bindings/emscripten/ems.c b/bindings/emscripten/ems.c
index 2ccf0d9..705b47f 100644
--- a/bindings/emscripten/ems.c
+++ b/bindings/emscripten/ems.c
@@ -146,11 +146,6 @@ void EMSCRIPTEN_KEEPALIVE c4w_req_set_error(data_request_t* ctx, char* error, ui
 }
 
 void* EMSCRIPTEN_KEEPALIVE c4w_create_verify_ctx(uint8_t* proof, size_t proof_len, char* method, char* args, uint64_t chain_id, char* trusted_checkpoint, char* witness_keys) {
-  if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
-    bytes32_t checkpoint;
-    hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
-    c4_eth_set_trusted_checkpoint(chain_id, checkpoint);
-  }
   if (method == NULL || strlen(method) == 0) return NULL;
 
   c4w_verify_ctx_t* ctx = calloc(1, sizeof(c4w_verify_ctx_t));
@@ -159,6 +154,14 @@ void* EMSCRIPTEN_KEEPALIVE c4w_create_verify_ctx(uint8_t* proof, size_t proof_le
   ctx->args             = args ? strdup(args) : NULL;
   c4_verify_init(&ctx->verify, ctx->proof, ctx->method, ctx->args ? json_parse(ctx->args) : ((json_t) {.len = 0, .start = "[]", .type = JSON_TYPE_ARRAY}), (chain_id_t) chain_id);
 
+  if (trusted_checkpoint && *trusted_checkpoint) {
+    bytes32_t checkpoint = {0};
+    if (strlen(trusted_checkpoint) == 66 && strncmp(trusted_checkpoint, "0x", 2) == 0 && hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32)) == 32)
+      c4_eth_set_trusted_checkpoint(chain_id, checkpoint);
+    else
+      c4_state_add_error(&ctx->verify.state, "invalid trusted checkpoint");
+  }
+
   if (witness_keys && strlen(witness_keys) > 40 && witness_keys[0] == '0' && witness_keys[1] == 'x') {
     bytes_t witness_key_bytes = bytes(safe_malloc(strlen(witness_keys) / 2), (strlen(witness_keys) - 2) / 2);
     hex_to_bytes(witness_keys + 2, -1, witness_key_bytes);
-- 
2.43.0


From 7fa5280dd43b6515dab71bc78bc4b7541bb0044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:04 +0000
Subject: [PATCH 069/101] fix: the typescript client did not try the next
 server if one is not reachable

---
 bindings/emscripten/src/http.ts  | 43 ++++++++++++++++++--------------
 bindings/emscripten/src/index.ts | 23 ++++++++++-------
 2 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/bindings/emscripten/src/http.ts b/bindings/emscripten/src/http.ts
index c0a508f..c422e0d 100644
--- a/bindings/emscripten/src/http.ts
+++ b/bindings/emscripten/src/http.ts
@@ -96,27 +96,32 @@ function log(msg: string) {
 export async function fetch_rpc(urls: string[], payload: any, as_proof: boolean = false): Promise<any> {
   let last_error = 'All nodes failed';
   for (const url of urls) {
-    const response = await fetch(url, {
-      method: 'POST',
-      body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
-      headers: {
-        'Content-Type': 'application/json',
-        'Accept': as_proof ? 'application/octet-stream' : 'application/json',
-      },
-    });
-    if (response.ok) {
-      if (!as_proof) {
-        const res = await response.json();
-        if (res.error) {
-          last_error = res.error?.message || res.error;
-          continue;
+    try {
+      const response = await fetch(url, {
+        method: 'POST',
+        body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
+        headers: {
+          'Content-Type': 'application/json',
+          'Accept': as_proof ? 'application/octet-stream' : 'application/json',
+        },
+      });
+      if (response.ok) {
+        if (!as_proof) {
+          const res = await response.json();
+          if (res.error) {
+            last_error = res.error?.message || res.error;
+            continue;
+          }
+          return res.result;
         }
-        return res.result;
+        const bytes = await response.blob().then(blob => blob.arrayBuffer());
+        return new Uint8Array(bytes);
+      } else {
+        last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
       }
-      const bytes = await response.blob().then(blob => blob.arrayBuffer());
-      return new Uint8Array(bytes);
-    } else {
-      last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
+    } catch (e) {
+      // not reachable or not a valid response, so we try the next one
+      last_error = (e instanceof Error) ? e.message : String(e);
     }
   }
   throw new Error(last_error);
diff --git a/bindings/emscripten/src/index.ts b/bindings/emscripten/src/index.ts
index 5cb1988..b676b14 100644
--- a/bindings/emscripten/src/index.ts
+++ b/bindings/emscripten/src/index.ts
@@ -170,16 +170,21 @@ export default class C4Client {
   private async fetch_checkpointz() {
     let checkpoint: string | undefined = undefined
     for (const url of [...(this.config.checkpointz || []), ...(this.config.beacon_apis || []), ...(this.config.prover || [])]) {
-      const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
-        method: 'GET',
-        headers: {
-          "Content-Type": "application/json"
+      try {
+        const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
+          method: 'GET',
+          headers: {
+            "Content-Type": "application/json"
+          }
+        })
+        if (response.ok) {
+          const res = await response.json();
+          checkpoint = res?.data?.finalized?.root
+          if (checkpoint) break;
         }
-      })
-      if (response.ok) {
-        const res = await response.json();
-        checkpoint = res?.data?.finalized?.root
-        if (checkpoint) break;
+      } catch (e) {
+        // not reachable or not a valid response, so we try the next one
+        if (this.config.debug) console.error(`[C4Client] could not fetch the checkpoint from ${url}:`, e);
       }
     }
     if (!checkpoint) throw new Error('No checkpoint found');
-- 
2.43.0


From de79b46faf1e699e036c4c458f3e5a9cf74f5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 070/101] fix: strings with non-ascii characters were truncated
 when passed to the wasm module

---
 bindings/emscripten/src/wasm_shared.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/emscripten/src/wasm_shared.ts b/bindings/emscripten/src/wasm_shared.ts
index 8d8961d..c168aef 100644
--- a/bindings/emscripten/src/wasm_shared.ts
+++ b/bindings/emscripten/src/wasm_shared.ts
@@ -115,8 +115,9 @@ export async function get_default_storage(): Promise<Storage> {
 }
 
 export function as_char_ptr(str: string, c4w: C4W, free_ptrs?: number[]) {
-    const ptr = c4w._malloc(str.length + 1);
-    c4w.stringToUTF8(str, ptr, str.length + 1);
+    const max_len = str.length * 3 + 1; // up to 3 bytes per UTF-16 code unit
+    const ptr = c4w._malloc(max_len);
+    c4w.stringToUTF8(str, ptr, max_len);
     if (free_ptrs) free_ptrs.push(ptr);
     return ptr;
 }
-- 
2.43.0


From 748e823395bdbe8dfdde15074753e7664a0bb3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:13 +0000
Subject: [PATCH 071/101] fix: a trailing slash in a server url led to an
 invalid path

---
 bindings/emscripten/src/http.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/emscripten/src/http.ts b/bindings/emscripten/src/http.ts
index c422e0d..3a220e0 100644
--- a/bindings/emscripten/src/http.ts
+++ b/bindings/emscripten/src/http.ts
@@ -28,7 +28,7 @@ export type AcceptKind = 'json' | 'octet';
 function joinPath(base: string, path?: string): string {
   if (!path) return base;
   if (!path.length) return base;
-  return base + (path.startsWith('/') ? path : '/' + path);
+  return (base.endsWith('/') ? base.slice(0, -1) : base) + (path.startsWith('/') ? path : '/' + path);
 }
 
 /**
-- 
2.43.0


From f65abcc82d5a5f90d25264664097d6646d1ddf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 072/101] fix: the WarningWithFallback strategy answered
 unknown methods with undefined

---
 bindings/emscripten/src/strategy.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/emscripten/src/strategy.ts b/bindings/emscripten/src/strategy.ts
index 8ba0a95..437cd37 100644
--- a/bindings/emscripten/src/strategy.ts
+++ b/bindings/emscripten/src/strategy.ts
@@ -83,9 +83,6 @@ async function WarningStrategy(client: ColibriClient, req: RequestArguments, con
     switch (method_type) {
         case MethodType.LOCAL:
             return client.rpc(req.method, argsToArray(req.params), method_type);
-        case MethodType.UNPROOFABLE:
-        case MethodType.NOT_SUPPORTED:
-            return fetch_unverified_rpc(config, req, fetch_rpc)
         case MethodType.PROOFABLE: {
             const [verified_result, unverified_result] = await Promise.all([
                 client.rpc(req.method, argsToArray(req.params), MethodType.PROOFABLE)
@@ -101,6 +98,8 @@ async function WarningStrategy(client: ColibriClient, req: RequestArguments, con
 
             return unverified_result;
         }
+        default:
+            return fetch_unverified_rpc(config, req, fetch_rpc)
     }
 }
 
-- 
2.43.0


From a9060fc7bcf19bdf4f00e90f66b03e3e391d463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:20 +0000
Subject: [PATCH 073/101] fix: transactions sent with request() were not
 verified

---
 bindings/emscripten/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/emscripten/src/index.ts b/bindings/emscripten/src/index.ts
index b676b14..611cdfb 100644
--- a/bindings/emscripten/src/index.ts
+++ b/bindings/emscripten/src/index.ts
@@ -384,8 +384,10 @@ export default class C4Client {
     let strategy = conf?.proofStrategy || this.config.proofStrategy;
 
     // If not handled by SubscriptionManager, proceed with standard RPC call logic
+    // Transactions to be verified must not be passed on by the strategy
+    const verify_tx = method === 'eth_sendTransaction' && this.config.verifyTransactions;
     try {
-      const result = strategy
+      const result = strategy && !verify_tx
         ? await strategy(this, args, this.config, fetch_rpc)
         : await this.rpc(method, paramsArray);
       this.connectionState.processSuccessfulRequest(method, result);
-- 
2.43.0


From 4ea57d9d9fa3c4fe01f25404b7fa16de772cc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:24 +0000
Subject: [PATCH 074/101] fix: the transaction verification accepted changed
 and rejected correct transactions

---
 .../emscripten/src/transactionVerifier.ts     | 72 ++++++++++---------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/bindings/emscripten/src/transactionVerifier.ts b/bindings/emscripten/src/transactionVerifier.ts
index 5e0ac03..d91560a 100644
--- a/bindings/emscripten/src/transactionVerifier.ts
+++ b/bindings/emscripten/src/transactionVerifier.ts
@@ -99,49 +99,55 @@ export class TransactionVerifier {
             console.log('Decoded:', decoded);
         }
 
-        // Kritische Parameter vergleichen
-        const criticalFields = ['to', 'value', 'data', 'gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce'];
-
-        for (const field of criticalFields) {
-            if (original[field] !== undefined) {
-                // Normalisierung für Hex-Werte (0x-Prefix, Leading Zeros)
-                const originalValue = this.normalizeHexValue(original[field]);
-                const decodedValue = this.normalizeHexValue(decoded[field]);
-
-                if (originalValue !== decodedValue) {
-                    if (config.debug) {
-                        console.warn(`[TransactionVerifier] Transaction parameter mismatch in '${field}': original='${originalValue}', decoded='${decodedValue}'`);
-                    }
-                    return false;
-                }
-            }
-        }
-
-        // ChainId prüfen
-        if (decoded.chainId && parseInt(decoded.chainId, 16) !== parseInt(config.chainId as string)) {
+        const matches = (field: string, originalValue: any, decodedValue: any): boolean => {
+            if (originalValue === decodedValue) return true;
             if (config.debug) {
-                console.warn(`[TransactionVerifier] ChainId mismatch: expected=${config.chainId}, decoded=${parseInt(decoded.chainId, 16)}`);
+                console.warn(`[TransactionVerifier] Transaction parameter mismatch in '${field}': original='${originalValue}', decoded='${decodedValue}'`);
             }
             return false;
+        };
+
+        // to und data müssen immer übereinstimmen: ohne Angabe darf auch die signierte Transaction nichts enthalten
+        if (!matches('to', this.normalizeBytes(original.to), this.normalizeBytes(decoded.to))) return false;
+        for (const data of original.data === undefined ? [original.input] : original.input === undefined ? [original.data] : [original.data, original.input]) {
+            if (!matches('data', this.normalizeBytes(data), this.normalizeBytes(decoded.input))) return false;
         }
+        if (!matches('value', this.normalizeQuantity(original.value), this.normalizeQuantity(decoded.value))) return false;
 
-        return true;
+        // Optionale Parameter nur vergleichen, wenn sie angegeben sind
+        if (original.from && !matches('from', this.normalizeBytes(original.from), this.normalizeBytes(decoded.from))) return false;
+        for (const field of ['gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce', 'chainId']) {
+            if (original[field] !== undefined && !matches(field, this.normalizeQuantity(original[field]), this.normalizeQuantity(decoded[field]))) return false;
+        }
+
+        // Die signierte Transaction darf keine Delegationen oder Blobs enthalten, die nicht angefordert wurden
+        for (const field of ['authorizationList', 'blobVersionedHashes']) {
+            if (!matches(field, original[field]?.length || 0, decoded[field]?.length || 0)) return false;
+        }
+
+        // ChainId prüfen
+        return matches('chainId', this.normalizeQuantity(config.chainId), this.normalizeQuantity(decoded.chainId));
     }
 
     /**
-     * Normalisiert Hex-Werte für Vergleiche (entfernt führende Nullen, stellt 0x-Prefix sicher)
+     * Normalisiert Bytes und Adressen für Vergleiche (Kleinschreibung, 0x-Prefix), ohne führende Nullen zu verändern
      */
-    private static normalizeHexValue(value: any): string {
-        if (value === undefined || value === null) return '';
-        if (typeof value === 'number') return '0x' + value.toString(16);
-
-        const str = value.toString();
-        if (!str.startsWith('0x')) return '0x' + str;
+    private static normalizeBytes(value: any): string {
+        if (value === undefined || value === null) return '0x';
+        const str = value.toString().toLowerCase();
+        return str.startsWith('0x') ? str : '0x' + str;
+    }
 
-        // Führende Nullen entfernen, aber mindestens eine Ziffer behalten
-        const withoutPrefix = str.slice(2);
-        const normalized = withoutPrefix.replace(/^0+/, '') || '0';
-        return '0x' + normalized;
+    /**
+     * Normalisiert Zahlen für Vergleiche, undefined entspricht 0 und ungültige Werte stimmen mit keiner Zahl überein.
+     */
+    private static normalizeQuantity(value: any): bigint | string {
+        if (value === undefined || value === null) return 0n;
+        try {
+            return BigInt(value);
+        } catch (e) {
+            return `invalid value ${value}`;
+        }
     }
 }
 
-- 
2.43.0


From 8e5e2f96a175598fbf36af8313c32d93e22036e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:28 +0000
Subject: [PATCH 075/101] fix: decoding an invalid transaction corrupted memory

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
-- 
2.43.0


From 30ce805836ecdbd814e410fccbab8b2058e12478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:32 +0000
Subject: [PATCH 076/101] fix: the chainId of a decoded transaction was
 truncated to the id of another chain

---
 src/chains/eth/verifier/eth_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 49e6dc6..52d8db8 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -722,8 +722,12 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     rlp_tx_sig_y_parity = get_rlp_field(ctx, rlp_list_payload, defs_ptr, "yParity", RLP_ITEM);
     rlp_v_field         = get_rlp_field(ctx, rlp_list_payload, defs_ptr, "v", RLP_ITEM);
     tx_sig_y_parity     = rlp_tx_sig_y_parity.len ? rlp_tx_sig_y_parity.data[0] : 0;
-    chain_id            = (uint32_t) bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "chainId", RLP_ITEM));
+    bytes_t rlp_chain   = get_rlp_field(ctx, rlp_list_payload, defs_ptr, "chainId", RLP_ITEM);
+    chain_id            = (uint32_t) bytes_as_be(rlp_chain);
     gas_price_rlp_val   = bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "gasPrice", RLP_ITEM));
+
+    // the chainId is a uint32, so we must not truncate a bigger one to the id of a different chain
+    if (rlp_chain.len > 4 || rlp_v_field.len > 4) c4_state_add_error(&ctx->state, "chainId is not supported");
   }
 
   if (type >= TX_TYPE_EIP1559 && type != TX_TYPE_DEPOSITED) {
-- 
2.43.0


From 585074401d371afaaa0215ed7543c23dbd1c5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 077/101] fix: subscriptions and filters lost or repeated
 blocks and logs

A failing request for a block was skipped while the position still advanced to
the head (and moved back if the head was seen too low, delivering blocks again);
logs were delivered for "latest" without remembering the position if the head
was unknown, overlapping calls of eth_getFilterChanges delivered the same
changes twice, and a log subscription with a block tag ended its polling with
an exception. A poll now continues exactly where the last delivered one
stopped.
---
 .../emscripten/src/subscriptionManager.ts     | 102 ++++++++++--------
 1 file changed, 56 insertions(+), 46 deletions(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index 2e6137d..4dc6319 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -38,6 +38,8 @@ export interface Subscription {
     lastPolledBlockNumber?: bigint;
     // Only for eth_subscribe subscriptions with active polling
     timeoutId?: number;
+    // The poll currently running, so polls of the same subscription never overlap
+    polling?: Promise<any[]>;
     // internal marker, could also be derived from subscriptionMethod
     // isActivePolling: boolean; // True if managed by setInterval/setTimeout polling loop
 }
@@ -214,8 +216,14 @@ export class SubscriptionManager {
         return false;
     }
 
+    // Polls of one subscription run one after the other, since each of them continues where the previous one stopped
+    private executePollLogic(sub: Subscription, returnResults: boolean = false): Promise<any[]> {
+        const previous: Promise<any> = sub.polling ? sub.polling.catch(() => []) : Promise.resolve();
+        return sub.polling = previous.then(() => this.activeSubscriptions.has(sub.id) ? this.pollOnce(sub, returnResults) : []);
+    }
+
     // Common polling logic, can return results or emit them via eventEmitter
-    private async executePollLogic(sub: Subscription, returnResults: boolean = false): Promise<any[]> {
+    private async pollOnce(sub: Subscription, returnResults: boolean = false): Promise<any[]> {
         let results: any[] = [];
         let currentVerifiableBlockNumber: bigint | null = null;
 
@@ -225,55 +233,56 @@ export class SubscriptionManager {
         } catch (e) {
             if (this.config.debug) console.warn('[SubMan] Could not fetch eth_blockNumber for polling context:', e);
         }
+        // without a (newer) head there is nothing to deliver yet, the next poll continues at the same block
+        if (currentVerifiableBlockNumber === null) return results;
+        if (sub.lastPolledBlockNumber !== undefined && currentVerifiableBlockNumber <= sub.lastPolledBlockNumber) return results;
 
         if (sub.kind === 'newHeads' || sub.kind === 'block') { // block is for eth_newBlockFilter
-            if (currentVerifiableBlockNumber) {
-                let fromBlock = sub.lastPolledBlockNumber ? sub.lastPolledBlockNumber + 1n : currentVerifiableBlockNumber;
-                if (sub.kind === 'newHeads') { // For newHeads, we only care if the latest is newer
-                    if (!sub.lastPolledBlockNumber) sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
-                    if (currentVerifiableBlockNumber <= sub.lastPolledBlockNumber) return []; // No new head yet for eth_subscribe('newHeads')
-                }
+            if (sub.lastPolledBlockNumber === undefined && sub.kind === 'newHeads') { // For newHeads, only blocks after the first seen head are new
+                sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                return results;
+            }
 
-                for (let blockNum = fromBlock; blockNum <= currentVerifiableBlockNumber; blockNum++) {
-                    try {
-                        const block = await this.rpcCall('eth_getBlockByNumber', ['0x' + blockNum.toString(16), sub.kind === 'newHeads' /* full block for newHeads */]);
-                        if (block && this.activeSubscriptions.has(sub.id)) {
-                            if (sub.kind === 'newHeads') results.push(block);
-                            else if (sub.kind === 'block') results.push(block.hash); // eth_newBlockFilter returns block hashes
-                        }
-                    } catch (e) {
-                        if (this.config.debug) console.error(`[SubMan] Error fetching block ${blockNum} for sub/filter ${sub.id}:`, e);
-                        if (sub.kind === 'block') break; // For block filters, stop if a block in sequence fails
-                    }
-                }
-                if (results.length > 0 && sub.kind === 'newHeads' && !returnResults && this.activeSubscriptions.has(sub.id)) {
-                    // For newHeads subscription, emit each block individually or as an array?
-                    // EIP-1193 usually implies one result per message for newHeads
-                    results.forEach(blockResult => {
-                        this.eventEmitter.emit('message', {
-                            type: 'eth_subscription',
-                            data: { subscription: sub.id, result: blockResult }
-                        } as ProviderMessage);
-                    });
-                    if (this.config.debug) console.log(`[SubMan] Emitted ${results.length} newHead(s) for sub ${sub.id}`);
+            const fromBlock = sub.lastPolledBlockNumber !== undefined ? sub.lastPolledBlockNumber + 1n : currentVerifiableBlockNumber;
+            // if the first look fails, this head still is where the filter starts
+            sub.lastPolledBlockNumber = fromBlock - 1n;
+            for (let blockNum = fromBlock; blockNum <= currentVerifiableBlockNumber; blockNum++) {
+                let block: any = null;
+                try {
+                    block = await this.rpcCall('eth_getBlockByNumber', ['0x' + blockNum.toString(16), sub.kind === 'newHeads' /* full block for newHeads */]);
+                } catch (e) {
+                    if (this.config.debug) console.error(`[SubMan] Error fetching block ${blockNum} for sub/filter ${sub.id}:`, e);
                 }
-                sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                // stop if a block in the sequence is missing, the next poll will try it again
+                if (!block || !this.activeSubscriptions.has(sub.id)) break;
+                results.push(sub.kind === 'newHeads' ? block : block.hash); // eth_newBlockFilter returns block hashes
+                sub.lastPolledBlockNumber = blockNum;
+            }
+            if (results.length > 0 && sub.kind === 'newHeads' && !returnResults) {
+                // For newHeads subscription, emit each block individually or as an array?
+                // EIP-1193 usually implies one result per message for newHeads
+                results.forEach(blockResult => {
+                    if (!this.activeSubscriptions.has(sub.id)) return;
+                    this.eventEmitter.emit('message', {
+                        type: 'eth_subscription',
+                        data: { subscription: sub.id, result: blockResult }
+                    } as ProviderMessage);
+                });
+                if (this.config.debug) console.log(`[SubMan] Emitted ${results.length} newHead(s) for sub ${sub.id}`);
             }
         } else if (sub.kind === 'logs' || sub.kind === 'log') { // 'log' is for eth_newFilter(logs)
             const filterParams = { ...(sub.params || {}) };
-            if (sub.lastPolledBlockNumber) {
-                filterParams.fromBlock = '0x' + (sub.lastPolledBlockNumber + 1n).toString(16);
-            } else if (!filterParams.fromBlock && currentVerifiableBlockNumber) {
-                filterParams.fromBlock = '0x' + currentVerifiableBlockNumber.toString(16);
+            const givenBlock = /^(0x[0-9a-f]+|[0-9]+)$/i.test(String(filterParams.fromBlock)) ? BigInt(filterParams.fromBlock) : null;
+            if (sub.lastPolledBlockNumber === undefined && (givenBlock !== null || filterParams.fromBlock !== 'earliest')) {
+                // a tag (like latest) or no block means from the first seen head on, even if fetching the logs fails now
+                sub.lastPolledBlockNumber = (givenBlock !== null ? givenBlock : currentVerifiableBlockNumber) - 1n;
             }
-
-            if (currentVerifiableBlockNumber) {
-                filterParams.toBlock = '0x' + currentVerifiableBlockNumber.toString(16);
-            } else if (!filterParams.toBlock) {
-                filterParams.toBlock = 'latest';
+            if (sub.lastPolledBlockNumber !== undefined) {
+                filterParams.fromBlock = '0x' + (sub.lastPolledBlockNumber + 1n).toString(16);
             }
+            filterParams.toBlock = '0x' + currentVerifiableBlockNumber.toString(16);
 
-            if (filterParams.fromBlock && filterParams.toBlock && filterParams.toBlock !== 'latest' && BigInt(filterParams.fromBlock) > BigInt(filterParams.toBlock)) {
+            if (sub.lastPolledBlockNumber !== undefined && sub.lastPolledBlockNumber >= currentVerifiableBlockNumber) {
                 // Skip if fromBlock is ahead
             } else {
                 try {
@@ -288,8 +297,7 @@ export class SubscriptionManager {
                             if (this.config.debug) console.log(`[SubMan] Emitted ${logs.length} logs for sub ${sub.id}`);
                         }
                     }
-                    if (filterParams.toBlock !== 'latest') sub.lastPolledBlockNumber = BigInt(filterParams.toBlock);
-                    else if (currentVerifiableBlockNumber) sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                    sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
                 } catch (e) {
                     if (this.config.debug) console.error(`[SubMan] Error fetching logs for sub/filter ${sub.id}:`, e);
                 }
@@ -323,10 +331,12 @@ export class SubscriptionManager {
             console.log(`[SubMan] Polling for eth_subscribe: ${sub.id}, kind: ${sub.kind}`);
         }
 
-        await this.executePollLogic(sub, false); // false means emit results, don't return them
-
-        if (this.activeSubscriptions.has(sub.id)) {
-            this.schedulePoll(sub, this.config.pollingInterval || DEFAULT_POLLING_INTERVAL);
+        try {
+            await this.executePollLogic(sub, false); // false means emit results, don't return them
+        } finally {
+            if (this.activeSubscriptions.has(sub.id)) {
+                this.schedulePoll(sub, this.config.pollingInterval || DEFAULT_POLLING_INTERVAL);
+            }
         }
     }
 
-- 
2.43.0


From d0ea28947b79fae1034f877dec5192e25faf62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:10 +0000
Subject: [PATCH 078/101] fix: an update at the first slot of a fork was
 verified with the signing domain of the previous fork

---
 src/chains/eth/verifier/sync_committee.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 0f5f04e..d239848 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -97,8 +97,8 @@ static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update) {
   // calculate the attested blockhash
   ssz_hash_tree_root(attested_header, attested_blockhash);
 
-  // verify the signature of the old sync committee against the attested header
-  if (c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, attested_slot, previous_pubkeys_hash) != C4_SUCCESS)
+  // verify the signature of the old sync committee against the attested header (which is signed in the slot following it)
+  if (c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, attested_slot + 1, previous_pubkeys_hash) != C4_SUCCESS)
     return false;
 
   // verify nextSyncCommittee merkle proof against attested state root
-- 
2.43.0


From 5464ebc8ef3e494fc96809c3186ae2b2b2f1fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:16 +0000
Subject: [PATCH 079/101] fix: a transaction index beyond 32 bit was answered
 with the transaction at the index modulo 2^32

---
 src/chains/eth/verifier/eth_tx.c          | 5 +++++
 src/chains/eth/verifier/eth_tx.h          | 1 +
 src/chains/eth/verifier/verify_tx_proof.c | 4 ++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 52d8db8..48efb79 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -243,6 +243,11 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
   return true;
 }
 
+INTERNAL bool c4_tx_is_index(json_t value, uint32_t tx_index) {
+  if (value.type == JSON_TYPE_STRING && value.len > 20) return false; // more than 64 bits
+  return json_as_uint64(value) == tx_index;
+}
+
 INTERNAL bool c4_tx_verify_tx_hash(verify_ctx_t* ctx, bytes_t raw) {
   if (ctx->method == NULL) return true;
   if (strcmp(ctx->method, "eth_getTransactionByHash") == 0 || strcmp(ctx->method, "eth_getTransactionReceipt") == 0) {
diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index dcd63cd..37914db 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -95,6 +95,7 @@ extern "C" {
 
 bool    c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* address); // using ecrecover
 bool    c4_tx_verify_tx_hash(verify_ctx_t* ctx, bytes_t raw);
+bool    c4_tx_is_index(json_t value, uint32_t tx_index); // true if the argument of a request is the given index of a transaction
 bool    c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
 bool    c4_tx_verify_receipt_proof(verify_ctx_t* ctx, ssz_ob_t receipt_proof, uint32_t tx_index, bytes32_t receipt_root, bytes_t* receipt_raw);
 bool    c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 1d20ee5..95c7d22 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -86,13 +86,13 @@ static bool verify_args(verify_ctx_t* ctx, bytes_t raw, uint32_t tx_index, bytes
     bytes_t   req_block_hash = json_as_bytes(json_at(ctx->args, 0), &buf);
     if (req_block_hash.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
     if (memcmp(req_block_hash.data, block_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (!c4_tx_is_index(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     uint64_t req_block_num = json_as_uint64(json_at(ctx->args, 0));
     if (!req_block_num) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (req_block_num != ssz_get_uint64(&ctx->proof, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (!c4_tx_is_index(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else
     RETURN_VERIFY_ERROR(ctx, "invalid method for tx proof!");
-- 
2.43.0


From 19a637fdca446b48c206a16c76f3a7c47da713b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:38 +0000
Subject: [PATCH 080/101] fix: a block hash with a leading zero was refused as
 block of a request

---
 src/util/json_validate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index ec3f924..4bb40f2 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -172,6 +172,7 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
 static const char* check_block(json_t val, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected block number", error_prefix);
   if (strncmp("\"latest\"", val.start, 8) == 0 || strncmp("\"safe\"", val.start, 6) == 0 || strncmp("\"finalized\"", val.start, 11) == 0) return NULL;
+  if (val.len == 68) return check_hex(val, 32, false, error_prefix); // a block hash may start with zeros
   return check_hex(val, 0, true, error_prefix);
 }
 
-- 
2.43.0


From 71f93969c16c79b8545f9a138987c6da04ce26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:43 +0000
Subject: [PATCH 081/101] fix: OP-Stack proofs were accepted as answer to other
 methods than they prove, and a message without method was dereferenced

---
 src/chains/op/verifier/op_verify.c | 39 +++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify.c b/src/chains/op/verifier/op_verify.c
index 0bf4f80..69d501b 100644
--- a/src/chains/op/verifier/op_verify.c
+++ b/src/chains/op/verifier/op_verify.c
@@ -109,8 +109,45 @@ const ssz_def_t* c4_op_get_request_type(chain_type_t chain_type) {
 }
 extern bool verify_eth_local(verify_ctx_t* ctx);
 
+static const struct {
+  const char*   method;
+  op_ssz_type_t proof;
+} method_proofs[] = {
+    {"eth_call", OP_SSZ_VERIFY_CALL_PROOF},
+    {"colibri_simulateTransaction", OP_SSZ_VERIFY_CALL_PROOF},
+    {"eth_getProof", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBalance", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getCode", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getTransactionCount", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getStorageAt", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBlockByHash", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getBlockByNumber", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_blockNumber", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getLogs", OP_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_verifyLogs", OP_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_getTransactionReceipt", OP_SSZ_VERIFY_RECEIPT_PROOF},
+    {"eth_getTransactionByHash", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockHashAndIndex", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockNumberAndIndex", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+};
+
+// a proof only proves the result of the method it was made for.
+static bool proof_matches_method(verify_ctx_t* ctx) {
+  if (ctx->proof.def->type == SSZ_TYPE_NONE) return true;
+  for (int i = 0; i < sizeof(method_proofs) / sizeof(method_proofs[0]); i++) {
+    if (ctx->method && strcmp(ctx->method, method_proofs[i].method) == 0)
+      return ssz_is_type(&ctx->proof, op_ssz_verification_type(method_proofs[i].proof));
+  }
+  return false;
+}
+
 bool c4_op_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_OP) return false;
+  if (!proof_matches_method(ctx)) {
+    c4_state_add_error(&ctx->state, "the proof does not match the requested method");
+    ctx->success = false;
+    return true;
+  }
 
   // Handle local methods first (they don't need proofs)
   if (ssz_is_type(&ctx->proof, op_ssz_verification_type(OP_SSZ_VERIFY_BLOCK_PROOF)))
@@ -129,7 +166,7 @@ bool c4_op_verify(verify_ctx_t* ctx) {
   }
   else if (ssz_is_type(&ctx->proof, op_ssz_verification_type(OP_SSZ_VERIFY_ACCOUNT_PROOF)))
     op_verify_account_proof(ctx);
-  else if (c4_op_get_method_type(ctx->chain_id, ctx->method) == METHOD_LOCAL)
+  else if (ctx->method && c4_op_get_method_type(ctx->chain_id, (char*) ctx->method) == METHOD_LOCAL)
     verify_eth_local(ctx);
   else if (ctx->method == NULL && ctx->proof.def->type == SSZ_TYPE_NONE && ctx->sync_data.def->type != SSZ_TYPE_NONE && ctx->data.def->type == SSZ_TYPE_NONE)
     ctx->success = true; // if you only verify the sync data, this is ok
-- 
2.43.0


From c3ce9261c5e27456892a36dec9425711da3832c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:48 +0000
Subject: [PATCH 082/101] fix: OP-Stack blocks were accepted for another
 requested block, uncompressed payloads refused and the withdrawalsRoot was
 wrong

---
 src/chains/eth/verifier/eth_verify.h        |  2 +
 src/chains/eth/verifier/verify_block.c      |  4 +-
 src/chains/eth/verifier/verify_logs_proof.c |  4 +-
 src/chains/op/verifier/op_verify_block.c    | 71 +++++++++++++--------
 src/chains/op/verifier/op_verify_logs.c     | 18 ++++--
 5 files changed, 63 insertions(+), 36 deletions(-)

diff --git a/src/chains/eth/verifier/eth_verify.h b/src/chains/eth/verifier/eth_verify.h
index 8cae5b5..0778d98 100644
--- a/src/chains/eth/verifier/eth_verify.h
+++ b/src/chains/eth/verifier/eth_verify.h
@@ -31,6 +31,7 @@ bool verify_account_proof(verify_ctx_t* ctx);
 bool verify_tx_proof(verify_ctx_t* ctx);
 bool verify_receipt_proof(verify_ctx_t* ctx);
 bool verify_logs_proof(verify_ctx_t* ctx);
+bool eth_log_matches_filter(json_t filter, ssz_ob_t log); // checks whether the log is one of the requested logs
 bool verify_call_proof(verify_ctx_t* ctx);
 bool verify_simulate_proof(verify_ctx_t* ctx);
 bool verify_block_proof(verify_ctx_t* ctx);
@@ -43,6 +44,7 @@ bool verify_eth_local(verify_ctx_t* ctx);
 
 c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, ssz_ob_t* sync_committee_bits, ssz_ob_t* sync_committee_signature, uint64_t slot, bytes32_t pubkey_hash);
 c4_status_t c4_verify_header(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t block_proof);
+void        eth_create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root);
 void        eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs);
 bool        eth_calculate_domain(chain_id_t chain_id, uint64_t slot, bytes32_t domain);
 bool        c4_eth_verify_accounts(verify_ctx_t* ctx, ssz_ob_t accounts, bytes32_t state_root, const eth_state_overrides_t* overrides);
diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 14d4d08..11ac62d 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,7 +84,7 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 // the withdrawals root of the block header, which is the root of a patricia trie (and not the hash_tree_root of the list)
-static void create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root) {
+INTERNAL void eth_create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root) {
   node_t*   root = NULL;
   bytes32_t tmp  = {0};
   buffer_t  path = stack_buffer(tmp);
@@ -172,7 +172,7 @@ bool verify_block_proof(verify_ctx_t* ctx) {
   ssz_verify_single_merkle_proof(proof.bytes, exec_root, EXECUTION_PAYLOAD_ROOT_GINDEX, body_root);
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
-  create_withdrawals_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
+  eth_create_withdrawals_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
 
   eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL_WITHOUT_REQUESTS, execution_payload, ssz_get(&header, "parentRoot").bytes.data, exec_root, include_txs);
   if (ctx->state.error || !matches_blocknumber(ctx, execution_payload, block_number)) return false;
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index da2495d..dd8257c 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -147,7 +147,7 @@ static bool matches_value(json_t filter, bytes_t value) {
 }
 
 // checks whether the log is one of the requested logs
-static bool matches_filter(json_t filter, ssz_ob_t log) {
+INTERNAL bool eth_log_matches_filter(json_t filter, ssz_ob_t log) {
   ssz_ob_t topics       = ssz_get(&log, "topics");
   uint64_t block_number = ssz_get_uint64(&log, "blockNumber");
   json_t   from         = json_get(filter, "fromBlock");
@@ -189,7 +189,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
-    if (ctx->method && strcmp(ctx->method, "eth_getLogs") == 0 && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "the log does not match the requested filter!");
+    if (ctx->method && strcmp(ctx->method, "eth_getLogs") == 0 && !eth_log_matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "the log does not match the requested filter!");
   }
 
   ctx->success = true;
diff --git a/src/chains/op/verifier/op_verify_block.c b/src/chains/op/verifier/op_verify_block.c
index 2611bd0..909753d 100644
--- a/src/chains/op/verifier/op_verify_block.c
+++ b/src/chains/op/verifier/op_verify_block.c
@@ -42,6 +42,11 @@
 #include <stdlib.h>
 #include <string.h>
 
+#define MAX_PAYLOAD_SIZE (16 * 1024 * 1024) // decompressing stops there, since the size is claimed before anything is verified
+
+#define EXTRA_DATA_OFFSET 436 // position of the offset of the first dynamic property (extraData) in the payload
+#define ISTHMUS_FIXED_LEN 560 // length of the fixed part of the payload including the withdrawalsRoot
+
 static const ssz_def_t EXECUTION_PAYLOAD_CONTAINER = SSZ_CONTAINER("payload", DENEP_EXECUTION_PAYLOAD);
 
 static void verify_signature(bytes_t data, bytes_t signature, uint64_t chain_id, address_t address) {
@@ -55,10 +60,21 @@ static void verify_signature(bytes_t data, bytes_t signature, uint64_t chain_id,
   memcpy(address, buf + 12, 20);
 }
 
+static bool matches_block(json_t block, ssz_ob_t* execution_payload) {
+  if (block.type != JSON_TYPE_STRING) return false;
+  if (block.len < 5 || block.start[1] != '0' || block.start[2] != 'x') return eth_is_block_tag(block);
+  if (block.len == 68) { // must be blockhash
+    bytes32_t buf    = {0};
+    buffer_t  buffer = stack_buffer(buf);
+    return json_as_bytes(block, &buffer).len == 32 && memcmp(buf, ssz_get(execution_payload, "blockHash").bytes.data, 32) == 0;
+  }
+  return block.len <= 20 && json_as_uint64(block) == ssz_get_uint64(execution_payload, "blockNumber");
+}
+
 ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t block_proof, json_t* block_number, bytes32_t parent_hash) {
   const op_chain_config_t* config          = op_get_chain_config(ctx->chain_id);
   address_t                signer          = {0};
-  ssz_ob_t                 compressed_data = ssz_get(&block_proof, "payload");
+  ssz_ob_t                 payload         = ssz_get(&block_proof, "payload");
   ssz_ob_t                 signature       = ssz_get(&block_proof, "signature");
 
   if (config == NULL) {
@@ -66,11 +82,16 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
     return NULL;
   }
 
-  size_t expected_size = op_zstd_get_decompressed_size(compressed_data.bytes);
-  if (expected_size == 0) RETURN_VERIFY_ERROR(ctx, "failed to get decompressed size");
+  bool   compressed    = payload.def && payload.def->name && strcmp(payload.def->name, "compressed_zstd") == 0;
+  size_t expected_size = compressed ? op_zstd_get_decompressed_size(payload.bytes) : payload.bytes.len;
+  if (expected_size <= 32 || expected_size > MAX_PAYLOAD_SIZE) RETURN_VERIFY_ERROR(ctx, "invalid size of the payload");
 
   bytes_t decompressed_data = bytes(safe_malloc(expected_size), expected_size);
-  size_t  actual_size       = op_zstd_decompress(compressed_data.bytes, decompressed_data);
+  size_t  actual_size       = expected_size;
+  if (compressed)
+    actual_size = op_zstd_decompress(payload.bytes, decompressed_data);
+  else
+    memcpy(decompressed_data.data, payload.bytes.data, expected_size);
 
   if (actual_size != expected_size) {
     safe_free(decompressed_data.data);
@@ -95,25 +116,16 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
   execution_payload->def      = &EXECUTION_PAYLOAD_CONTAINER;
   execution_payload->bytes    = bytes_slice(decompressed_data, 32, decompressed_data.len - 32);
 
-  // check blocknumber
+  if (!ssz_is_valid(*execution_payload, true, &ctx->state)) {
+    safe_free(execution_payload);
+    return NULL; // error already set
+  }
 
-  if (block_number && block_number->len > 2 && block_number->start[1] == '0' && block_number->start[2] == 'x') {
-    bytes32_t buf    = {0};
-    buffer_t  buffer = stack_buffer(buf);
-    if (block_number->len == 68) { // must be blockhash
-      json_as_bytes(*block_number, &buffer);
-      bytes_t block_hash = ssz_get(execution_payload, "blockHash").bytes;
-      if (memcmp(buf, block_hash.data, 32)) {
-        safe_free(execution_payload);
-        c4_state_add_error(&ctx->state, "blockhash mismatch");
-        return NULL;
-      }
-    }
-    else if (json_as_uint64(*block_number) != ssz_get_uint64(execution_payload, "blockNumber")) {
-      safe_free(execution_payload);
-      c4_state_add_error(&ctx->state, "blocknumber mismatch");
-      return NULL;
-    }
+  // check blocknumber
+  if (block_number && !matches_block(*block_number, execution_payload)) {
+    safe_free(execution_payload);
+    c4_state_add_error(&ctx->state, "the block of the proof is not the requested one");
+    return NULL;
   }
 
   return execution_payload;
@@ -128,18 +140,25 @@ bool op_verify_block(verify_ctx_t* ctx) {
   bytes32_t withdrawel_root   = {0};
   ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, &parent_root);
   if (!execution_payload) return false;
+  if (ctx->data.def->type != SSZ_TYPE_NONE) {
+    safe_free(execution_payload);
+    RETURN_VERIFY_ERROR(ctx, "data must be empty!");
+  }
 
   if (is_blocknumber) {
     ctx->data       = ssz_get(execution_payload, "blockNumber");
     ctx->data.bytes = bytes_dup(ctx->data.bytes); // need to copy bytes, because payload will be deleted
-    ctx->success    = true;
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else {
-    ssz_hash_tree_root(ssz_get(execution_payload, "withdrawals"), withdrawel_root);
+    // since Isthmus the payload ends with the withdrawalsRoot, so the dynamic data start later, before it is the root of the (empty) withdrawals
+    if (uint32_from_le(execution_payload->bytes.data + EXTRA_DATA_OFFSET) >= ISTHMUS_FIXED_LEN)
+      memcpy(withdrawel_root, execution_payload->bytes.data + ISTHMUS_FIXED_LEN - 32, 32);
+    else
+      eth_create_withdrawals_root(ssz_get(execution_payload, "withdrawals"), withdrawel_root);
     eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL, *execution_payload, parent_root, withdrawel_root, include_txs);
   }
   safe_free(execution_payload);
-  ctx->success = true;
-  return true;
+  ctx->success = ctx->state.error == NULL;
+  return ctx->success;
 }
diff --git a/src/chains/op/verifier/op_verify_logs.c b/src/chains/op/verifier/op_verify_logs.c
index df3eff4..8a66af4 100644
--- a/src/chains/op/verifier/op_verify_logs.c
+++ b/src/chains/op/verifier/op_verify_logs.c
@@ -40,12 +40,6 @@
 #include <string.h>
 
 static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t receipt_root) {
-
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   bytes_t   raw_receipt  = {0};
   bytes32_t root_hash    = {0};
   uint32_t  log_len      = ssz_len(ctx->data);
@@ -118,6 +112,14 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_numbers, bytes_t block_nu
 
 bool op_verify_logs_proof(verify_ctx_t* ctx) {
 
+  if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) { // the logs to verify are the arguments and never the data of the prover
+    if (ctx->data.def->type != SSZ_TYPE_NONE) RETURN_VERIFY_ERROR(ctx, "data must be empty!");
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+    if (ctx->state.error) return false;
+  }
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "missing the logs!");
+
   uint32_t log_count     = ssz_len(ctx->data);
   uint32_t block_count   = ssz_len(ctx->proof);
   bytes_t  block_numbers = bytes(safe_malloc(block_count * 8), block_count * 8);
@@ -139,6 +141,10 @@ bool op_verify_logs_proof(verify_ctx_t* ctx) {
       c4_state_add_error(&ctx->state, "missing log proof!");
       valid = false;
     }
+    else if (ctx->method && strcmp(ctx->method, "eth_getLogs") == 0 && !eth_log_matches_filter(json_at(ctx->args, 0), log)) {
+      c4_state_add_error(&ctx->state, "the log does not match the requested filter!");
+      valid = false;
+    }
   }
 
   ctx->success = valid;
-- 
2.43.0


From e939c0b46d0a94021e3181cd8b926949da7ac3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:52 +0000
Subject: [PATCH 083/101] fix: OP-Stack transactions were accepted for another
 hash or index than requested

---
 src/chains/op/verifier/op_verify_tx.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 150edc1..564d77f 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -54,17 +54,19 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   uint32_t  tx_index          = ssz_get_uint32(&ctx->proof, "transactionIndex");
   ssz_ob_t* execution_payload = NULL;
   bytes32_t tx_hash_expected  = {0};
+  bool      check_hash        = false;
 
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (!c4_tx_is_index(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockHashAndIndex") == 0) {
     bytes32_t block_hash_expected = {0};
     buffer_t  buf                 = stack_buffer(block_hash_expected);
-    json_as_bytes(json_at(ctx->args, 0), &buf);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    json_t    hash                = json_at(ctx->args, 0);
+    if (hash.len != 68 || json_as_bytes(hash, &buf).len != 32) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (!c4_tx_is_index(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
     if (execution_payload == NULL) return false; // error already set
     bytes_t block_hash_found = ssz_get(execution_payload, "blockHash").bytes;
@@ -74,19 +76,25 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
     }
   }
   else if (strcmp(ctx->method, "eth_getTransactionByHash") == 0) {
+    json_t   hash = json_at(ctx->args, 0);
+    buffer_t buf  = stack_buffer(tx_hash_expected);
+    if (hash.len != 68 || json_as_bytes(hash, &buf).len != 32) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
+    check_hash        = true;
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
-    buffer_t buf      = stack_buffer(tx_hash_expected);
-    json_as_bytes(json_at(ctx->args, 0), &buf);
   }
   if (execution_payload == NULL) return false; // error already set
 
   // for now we only support the full execution payload
+  if (tx_index >= ssz_len(ssz_get(execution_payload, "transactions"))) {
+    safe_free(execution_payload);
+    RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+  }
   ssz_ob_t raw              = ssz_at(ssz_get(execution_payload, "transactions"), tx_index);
   ssz_ob_t block_hash       = ssz_get(execution_payload, "blockHash");
   ssz_ob_t block_number     = ssz_get(execution_payload, "blockNumber");
   ssz_ob_t base_fee_per_gas = ssz_get(execution_payload, "baseFeePerGas");
 
-  ctx->success = create_eth_tx_data(ctx, bytes_all_zero(bytes(tx_hash_expected, 32)) ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
+  ctx->success = create_eth_tx_data(ctx, check_hash ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
   safe_free(execution_payload);
   return ctx->success;
 }
\ No newline at end of file
-- 
2.43.0


From e548f92acc41b1137636164d8a743288c3438eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:56 +0000
Subject: [PATCH 084/101] fix: OP-Stack eth_getProof without storage keys wrote
 behind its buffer, receipts of another type were read as receipt

---
 src/chains/op/verifier/op_verify_account.c | 4 ++--
 src/chains/op/verifier/op_verify_receipt.c | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_account.c b/src/chains/op/verifier/op_verify_account.c
index 3cc5c5a..caf3abd 100644
--- a/src/chains/op/verifier/op_verify_account.c
+++ b/src/chains/op/verifier/op_verify_account.c
@@ -53,9 +53,9 @@ bool op_verify_account_proof(verify_ctx_t* ctx) {
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
   json_t              block_number     = json_at(ctx->args, json_len(ctx->args) - 1);
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len + 32), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len + 32), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
diff --git a/src/chains/op/verifier/op_verify_receipt.c b/src/chains/op/verifier/op_verify_receipt.c
index 440c8d7..2824fd9 100644
--- a/src/chains/op/verifier/op_verify_receipt.c
+++ b/src/chains/op/verifier/op_verify_receipt.c
@@ -57,6 +57,7 @@ bool op_verify_receipt_proof(verify_ctx_t* ctx) {
   uint32_t  tx_index          = ssz_get_uint32(&ctx->proof, "transactionIndex");
   ssz_ob_t  receipt_proof     = ssz_get(&ctx->proof, "receipt_proof");
   ssz_ob_t  block_proof       = ssz_get(&ctx->proof, "block_proof");
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "missing the receipt data!");
   ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
   if (!execution_payload) return false;
 
-- 
2.43.0


From cdbcf2c0296cb13aecc5dc47a00f1534619207f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:00 +0000
Subject: [PATCH 085/101] fix: the mint value of deposit transactions was
 shifted

---
 src/chains/eth/verifier/eth_tx.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 48efb79..9ea9d3e 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -836,15 +836,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     // Populate with actual values for deposited transactions
     ssz_add_bytes(buffer, "sourceHash", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "sourceHash", RLP_ITEM));
 
-    // Convert mint from RLP (big-endian) to SSZ (little-endian) bytes
-    bytes_t mint_rlp = get_rlp_field(ctx, rlp_list_payload, defs_ptr, "mint", RLP_ITEM);
-    // Only use as many bytes as needed, convert big-endian to little-endian
-    uint8_t mint_le[32] = {0}; // Max 32 bytes for uint256
-    int     actual_len  = mint_rlp.len > 32 ? 32 : mint_rlp.len;
-    for (int i = 0; i < actual_len; i++) {
-      mint_le[i] = mint_rlp.data[mint_rlp.len - 1 - i];
-    }
-    ssz_add_bytes(buffer, "mint", bytes(mint_le, actual_len ? actual_len : 1));
+    ssz_add_uint256(buffer, get_rlp_field(ctx, rlp_list_payload, defs_ptr, "mint", RLP_ITEM));
     ssz_add_bytes(buffer, "isSystemTx", bytes(&system_tx_true, 1));
 
     // Add depositReceiptVersion (always 1 for current Optimism version)
-- 
2.43.0


From ee478ff59586d05c2be630cc3a880cf8dcc05841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:04 +0000
Subject: [PATCH 086/101] fix: the OP-Stack prover read the selector as part of
 the compressed payload and crashed, and lost the selector of empty lists

---
 src/chains/op/prover/op_proof_account.c |  6 +++++-
 src/chains/op/prover/op_proof_block.c   |  2 ++
 src/chains/op/prover/op_proof_call.c    |  8 ++++++--
 src/chains/op/prover/op_proof_logs.c    |  4 +++-
 src/chains/op/prover/op_tools.c         | 21 ++++++++++++++++-----
 src/chains/op/prover/op_tools.h         |  2 +-
 6 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/chains/op/prover/op_proof_account.c b/src/chains/op/prover/op_proof_account.c
index 3819805..f105a56 100644
--- a/src/chains/op/prover/op_proof_account.c
+++ b/src/chains/op/prover/op_proof_account.c
@@ -120,7 +120,11 @@ c4_status_t c4_op_proof_account(prover_ctx_t* ctx) {
     CHECK_JSON(ctx->params, "[address,block]", "Invalid arguments for AccountProof: ");
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &block_proof));
   ssz_ob_t* execution_payload = op_get_execution_payload(&block_proof);
-  block_number_uint64         = ssz_get_uint64(execution_payload, "blockNumber");
+  if (!execution_payload) {
+    ssz_builder_free(&block_proof);
+    THROW_ERROR("Invalid preconf data");
+  }
+  block_number_uint64 = ssz_get_uint64(execution_payload, "blockNumber");
   safe_free(execution_payload);
   TRY_ASYNC_CATCH(eth_get_proof(ctx, address, storage_keys, &eth_proof, block_number_uint64), ssz_builder_free(&block_proof));
   TRY_ASYNC_CATCH(create_eth_account_proof(ctx, eth_proof, address, block_number, block_proof), ssz_builder_free(&block_proof));
diff --git a/src/chains/op/prover/op_proof_block.c b/src/chains/op/prover/op_proof_block.c
index 90527fd..76b36f5 100644
--- a/src/chains/op/prover/op_proof_block.c
+++ b/src/chains/op/prover/op_proof_block.c
@@ -41,6 +41,7 @@ c4_status_t c4_op_create_block_proof(prover_ctx_t* ctx, json_t block_number, ssz
   buffer_t buf2         = stack_buffer(path);
   bytes_t  preconf_data = {0};
 
+  if (block_number.type != JSON_TYPE_STRING) THROW_ERROR("Invalid block number");
   if ((ctx->flags & C4_PROVER_FLAG_UNSTABLE_LATEST) == 0 && block_number.start[1] == 'l')
     bprintf(&buf2, "preconf/pre_latest");
   else
@@ -48,6 +49,7 @@ c4_status_t c4_op_create_block_proof(prover_ctx_t* ctx, json_t block_number, ssz
 
   TRY_ASYNC(c4_send_internal_request(ctx, (char*) buf2.data.data, NULL, 0, &preconf_data)); // get the raw-data
   if (!preconf_data.len) THROW_ERROR("No preconf data found, currently only supports preconfs");
+  if (preconf_data.len <= 65) THROW_ERROR("Invalid preconf data");
   // Extract payload and signature
   bytes_t payload   = bytes_slice(preconf_data, 0, preconf_data.len - 65);
   bytes_t signature = bytes_slice(preconf_data, preconf_data.len - 65, 65);
diff --git a/src/chains/op/prover/op_proof_call.c b/src/chains/op/prover/op_proof_call.c
index 21e5a8f..44ba2f3 100644
--- a/src/chains/op/prover/op_proof_call.c
+++ b/src/chains/op/prover/op_proof_call.c
@@ -78,8 +78,12 @@ c4_status_t c4_op_proof_call(prover_ctx_t* ctx) {
   // get the latest block proof
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &proof.block_proof));
   proof.execution_payload = op_get_execution_payload(&proof.block_proof);
-  proof.target_block      = ssz_get_uint64(proof.execution_payload, "blockNumber");
-  proof.miner             = ssz_get(proof.execution_payload, "feeRecipient").bytes;
+  if (!proof.execution_payload) {
+    free_proof(&proof);
+    THROW_ERROR("Invalid preconf data");
+  }
+  proof.target_block = ssz_get_uint64(proof.execution_payload, "blockNumber");
+  proof.miner        = ssz_get(proof.execution_payload, "feeRecipient").bytes;
 
   TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
   // TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
diff --git a/src/chains/op/prover/op_proof_logs.c b/src/chains/op/prover/op_proof_logs.c
index 60af86c..b8f777e 100644
--- a/src/chains/op/prover/op_proof_logs.c
+++ b/src/chains/op/prover/op_proof_logs.c
@@ -143,7 +143,8 @@ static uint8_t* get_cache_key(proof_logs_block_t* block) {
   if (bytes_all_zero(bytes(block->cache_key, 32))) {
     if (!block->block_proof.def) return NULL;
     ssz_ob_t* execution_payload = get_execution_payload(block);
-    ssz_ob_t  receipt_root      = ssz_get(execution_payload, "receiptsRoot");
+    if (!execution_payload) return NULL;
+    ssz_ob_t receipt_root = ssz_get(execution_payload, "receiptsRoot");
     memcpy(block->cache_key, receipt_root.bytes.data, 32);
   }
   return block->cache_key;
@@ -157,6 +158,7 @@ static c4_status_t get_receipts(prover_ctx_t* ctx, proof_logs_block_t* blocks) {
     buffer_reset(&buf);
     json_t block_number = json_parse(bprintf(&buf, "\"0x%lx\"", block->block_number));
     TRY_ADD_ASYNC(status, c4_op_create_block_proof(ctx, block_number, &block->block_proof));
+    if (block->block_proof.def && !get_execution_payload(block)) THROW_ERROR("Invalid preconf data");
 #ifdef PROVER_CACHE
     // we get the merkle tree from the cache if available now so we can use it later in the worker thread
     if (status == C4_SUCCESS && get_cache_key(block) && c4_prover_cache_get(ctx, block->cache_key))
diff --git a/src/chains/op/prover/op_tools.c b/src/chains/op/prover/op_tools.c
index 6ee4b16..c44e2ec 100644
--- a/src/chains/op/prover/op_tools.c
+++ b/src/chains/op/prover/op_tools.c
@@ -6,10 +6,12 @@
 #include "op_zstd.h"
 #include "ssz.h"
 #include "version.h"
+#define MAX_PAYLOAD_SIZE (16 * 1024 * 1024)
+
 static const ssz_def_t EXECUTION_PAYLOAD_CONTAINER = SSZ_CONTAINER("payload", DENEP_EXECUTION_PAYLOAD);
 
 static void set_data(ssz_builder_t* req, const char* name, ssz_builder_t data) {
-  if (data.fixed.data.data || data.dynamic.data.data)
+  if (data.def) // even an empty list needs its selector
     ssz_add_builders(req, name, data);
   else
     ssz_add_bytes(req, name, bytes(NULL, 1));
@@ -33,12 +35,21 @@ bytes_t op_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_bui
 }
 
 ssz_ob_t* op_get_execution_payload(ssz_builder_t* block_proof) {
-  if (!block_proof || !block_proof->dynamic.data.data) return NULL;
-  size_t  len     = op_zstd_get_decompressed_size(block_proof->dynamic.data);
+  if (!block_proof || block_proof->dynamic.data.len < 2) return NULL;
+  bytes_t compressed = bytes_slice(block_proof->dynamic.data, 1, block_proof->dynamic.data.len - 1); // the payload is a union, so it starts with the selector
+  size_t  len        = op_zstd_get_decompressed_size(compressed);
+  if (len <= 32 || len > MAX_PAYLOAD_SIZE) return NULL;
   bytes_t payload = bytes(safe_malloc(len), len);
-  op_zstd_decompress(block_proof->dynamic.data, payload);
-  ssz_ob_t* ob = (ssz_ob_t*) (void*) payload.data;
+  if (op_zstd_decompress(compressed, payload) != len) {
+    safe_free(payload.data);
+    return NULL;
+  }
+  ssz_ob_t* ob = (ssz_ob_t*) (void*) payload.data; // replaces the parent beacon root, which is not needed
   ob->bytes    = bytes_slice(payload, 32, len - 32);
   ob->def      = &EXECUTION_PAYLOAD_CONTAINER;
+  if (!ssz_is_valid(*ob, true, NULL)) {
+    safe_free(payload.data);
+    return NULL;
+  }
   return ob;
 }
diff --git a/src/chains/op/prover/op_tools.h b/src/chains/op/prover/op_tools.h
index 1f7496e..1912a61 100644
--- a/src/chains/op/prover/op_tools.h
+++ b/src/chains/op/prover/op_tools.h
@@ -35,7 +35,7 @@ extern "C" {
 #include "ssz.h"
 
 bytes_t op_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_builder_t proof, ssz_builder_t sync_data);
-// creates the executionpayload from the block_proof. Caller must free the ssz_ob_t! with safe_free(execution_payload).
+// creates the executionpayload from the block_proof. Caller must free the ssz_ob_t! with safe_free(execution_payload). Returns NULL if there is no valid payload.
 ssz_ob_t* op_get_execution_payload(ssz_builder_t* block_proof);
 #ifdef __cplusplus
 }
-- 
2.43.0


From b253fcca25d9928cb5c2dc81b776d7083deb2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:18 +0000
Subject: [PATCH 087/101] fix: storage written by a reverted inner call was
 kept

---
 src/chains/eth/verifier/call_ctx.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 5a61e69..f6a7775 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -174,21 +174,18 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
 }
 
 static void set_changed_storage(evmone_context_t* ctx, const address_t addr, const bytes32_t key, const bytes32_t value, bool* account_created, bool* storage_created) {
-  changed_storage_t* storage = get_changed_storage(ctx, addr, key);
-  if (storage) {
-    memcpy(storage->value, value, 32);
-    *account_created = false;
-    *storage_created = false;
-  }
-  else {
-    changed_account_t* account = create_changed_account(ctx, addr, account_created);
-    *storage_created           = true;
-    changed_storage_t* storage = safe_calloc(1, sizeof(changed_storage_t));
+  // always write to the entry of this context, since the one of the parent must survive, if this call reverts
+  changed_account_t* account = create_changed_account(ctx, addr, account_created);
+  changed_storage_t* storage = account->storage;
+  while (storage && memcmp(storage->key, key, 32) != 0) storage = storage->next;
+  *storage_created = storage == NULL;
+  if (!storage) {
+    storage = safe_calloc(1, sizeof(changed_storage_t));
     memcpy(storage->key, key, 32);
-    memcpy(storage->value, value, 32);
     storage->next    = account->storage;
     account->storage = storage;
   }
+  memcpy(storage->value, value, 32);
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-- 
2.43.0


From d3d805adf05e68aa8b319085974ee9253e93ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:32 +0000
Subject: [PATCH 088/101] fix: inner calls shared the events of the caller:
 freed twice, kept after a revert and in reverse order

---
 src/chains/eth/verifier/call_ctx.h    | 17 +++++++----------
 src/chains/eth/verifier/call_evmone.c | 21 ++++++++++++++-------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index f6a7775..9d3b20c 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -259,9 +259,10 @@ static emitted_log_t* add_emitted_log(evmone_context_t* ctx, const evmc_address*
     }
   }
 
-  // Add to linked list
-  log->next = ctx->logs;
-  ctx->logs = log;
+  // Add to the end of the linked list
+  emitted_log_t** last = &ctx->logs;
+  while (*last) last = &(*last)->next;
+  *last = log;
 
   return log;
 }
@@ -283,13 +284,9 @@ static void context_apply(evmone_context_t* ctx) {
 
   // Transfer logs to parent if parent is capturing events
   if (ctx->parent->capture_events && ctx->logs) {
-    emitted_log_t* log = ctx->logs;
-    while (log) {
-      emitted_log_t* next = log->next;
-      log->next           = ctx->parent->logs;
-      ctx->parent->logs   = log;
-      log                 = next;
-    }
+    emitted_log_t** last = &ctx->parent->logs;
+    while (*last) last = &(*last)->next;
+    *last     = ctx->logs;
     ctx->logs = NULL; // Prevent double-free
   }
 }
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 9587eb8..db472b4 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -71,6 +71,16 @@ static void add_evm_result(evmone_context_t* ctx, struct evmone_result* result)
   ctx->results              = new_result;
 }
 
+static void free_evm_results(evmone_context_t* ctx) {
+  while (ctx->results) {
+    evm_res_ptr_t* res  = (evm_res_ptr_t*) ctx->results;
+    evm_res_ptr_t* next = res->next;
+    evmone_release_result(&res->result);
+    safe_free(res);
+    ctx->results = next;
+  }
+}
+
 // Debug function to print address as hex
 static void debug_print_address(const char* prefix, const evmc_address* addr) {
   if (!EVM_DEBUG) return;
@@ -283,6 +293,8 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   evmone_context_t child = *ctx;
   child.parent           = ctx;
   child.changed_accounts = NULL;
+  child.results          = NULL;
+  child.logs             = NULL;
 
   // Execute the code (now using fetched code if needed)
   evmone_result exec_result = evmone_execute(
@@ -311,6 +323,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   }
   EVM_LOG("========/child call complete ====");
 
+  free_evm_results(&child);
   context_free(&child);
 
   *result = exec_result;
@@ -619,13 +632,7 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
   evmone_release_result(&result);
   evmone_destroy_executor(executor);
   buffer_free(&buffer);
-  while (context.results) {
-    evm_res_ptr_t* res  = (evm_res_ptr_t*) context.results;
-    evm_res_ptr_t* next = res->next;
-    evmone_release_result(&res->result);
-    safe_free(res);
-    context.results = next;
-  }
+  free_evm_results(&context);
   context_free(&context);
   EVM_LOG("=== EVM call verification complete ===");
 
-- 
2.43.0


From 6016b5bb45f71077593878fdf56b94c57ff0cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:45 +0000
Subject: [PATCH 089/101] fix: contracts whose code was not part of the proof,
 or not repeated after an override, were executed as if they had no code

---
 src/chains/eth/verifier/call_ctx.h    | 21 +++++++++++----------
 src/chains/eth/verifier/call_evmone.c | 10 +++++++---
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 9d3b20c..847e04f 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -53,6 +53,8 @@ typedef struct changed_account {
   struct changed_account* next;
   changed_storage_t*      storage;
   bool                    full_state_override;
+  bool                    has_balance; // the balance replaces the one of the proven account
+  bool                    has_code;    // the code replaces the one of the proven account
   bool                    deleted;
   bool                    free_code;
 } changed_account_t;
@@ -146,7 +148,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   }
   changed_account_t* parent_acc  = ctx->parent ? get_changed_account(ctx->parent, address) : NULL;
   *created                       = parent_acc == NULL;
-  ssz_ob_t           old_account = get_src_account(ctx, address, true);
   changed_account_t* acc         = safe_calloc(1, sizeof(changed_account_t));
   memcpy(acc->address, address, 20);
   acc->next             = ctx->changed_accounts;
@@ -155,6 +156,8 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   if (parent_acc) {
     memcpy(acc->balance, parent_acc->balance, 32);
     acc->code                       = parent_acc->code;
+    acc->has_balance                = parent_acc->has_balance;
+    acc->has_code                   = parent_acc->has_code;
     acc->full_state_override         = parent_acc->full_state_override;
     changed_storage_t** storage_ptr = &acc->storage;
     for (changed_storage_t* s = parent_acc->storage; s != NULL; s = s->next) {
@@ -165,11 +168,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
       storage_ptr          = &(*storage_ptr)->next;
     }
   }
-  else if (old_account.def) {
-    ssz_ob_t code = ssz_get(&old_account, "code");
-    if (code.def && code.def->type == SSZ_TYPE_LIST && code.bytes.len > 0) acc->code = code.bytes;
-    eth_get_account_value(old_account, ETH_ACCOUNT_BALANCE, acc->balance);
-  }
   return acc;
 }
 
@@ -189,7 +187,7 @@ static void set_changed_storage(evmone_context_t* ctx, const address_t addr, con
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-  if (changed_account) return changed_account->code;
+  if (changed_account && changed_account->has_code) return changed_account->code;
   ssz_ob_t account = get_src_account(ctx, address, false);
   if (!account.def) return NULL_BYTES;
   bytes32_t code_hash = {0};
@@ -201,8 +199,9 @@ static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
 
   ssz_ob_t code = ssz_get(&account, "code");
   if (code.def && code.def->type == SSZ_TYPE_LIST) return code.bytes;
+  if (!ctx->ctx->state.error && !bytes_all_zero(bytes(code_hash, 32)) && memcmp(code_hash, EMPTY_HASH, 32) != 0)
+    ctx->ctx->state.error = bprintf(NULL, "Missing code for account 0x%x", bytes(address, 20));
   return NULL_BYTES;
-  //  return account.def ? ssz_get(&account, "code").bytes : NULL_BYTES;
 }
 
 static void changed_account_free(changed_account_t* acc) {
@@ -274,8 +273,10 @@ static void context_apply(evmone_context_t* ctx) {
   for (changed_account_t* acc = ctx->changed_accounts; acc; acc = acc->next) {
     changed_account_t* parent_acc = create_changed_account(ctx->parent, acc->address, &created);
     memcpy(parent_acc->balance, acc->balance, 32);
-    parent_acc->code      = acc->code;
-    parent_acc->free_code = acc->free_code;
+    parent_acc->code        = acc->code;
+    parent_acc->free_code   = acc->free_code;
+    parent_acc->has_balance = acc->has_balance;
+    parent_acc->has_code    = acc->has_code;
     parent_acc->full_state_override = acc->full_state_override;
 
     for (changed_storage_t* s = acc->storage; s; s = s->next)
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index db472b4..09caaeb 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -173,7 +173,7 @@ static evmc_bytes32 host_get_balance(void* context, const evmc_address* addr) {
 
   evmc_bytes32       result = {0};
   changed_account_t* acc    = get_changed_account(ctx, addr->bytes);
-  if (acc)
+  if (acc && acc->has_balance)
     memcpy(result.bytes, acc->balance, 32);
   else {
     ssz_ob_t account = get_src_account(ctx, addr->bytes, false);
@@ -393,12 +393,16 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
   for (const eth_account_override_t* a = overrides->accounts; a; a = a->next) {
     bool               created = false;
     changed_account_t* acc     = create_changed_account(context, a->address, &created);
-    if (a->has_balance) memcpy(acc->balance, a->balance, 32);
+    if (a->has_balance) {
+      memcpy(acc->balance, a->balance, 32);
+      acc->has_balance = true;
+    }
     if (a->has_code) {
+      acc->has_code  = true;
       acc->code      = a->code;
       acc->free_code = false;
     }
-    if (a->storage) {
+    if (a->full_state || a->storage) {
       acc->full_state_override = a->full_state;
       for (const eth_storage_override_t* s = a->storage; s; s = s->next) {
         bool tmp = false;
-- 
2.43.0


From 349eedf0712ed4ecf6ad09abe6a1791923f2c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 090/101] fix: EXTCODECOPY beyond the code read out of bounds,
 EXTCODEHASH and the existence of missing accounts were wrong

---
 src/chains/eth/verifier/call_evmone.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 09caaeb..86e6c13 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -98,9 +98,11 @@ static bool host_account_exists(void* context, const evmc_address* addr) {
   evmone_context_t* ctx = (evmone_context_t*) context;
   debug_print_address("account_exists for", addr);
   changed_account_t* ac = get_changed_account(ctx, addr->bytes);
-  if (ac) return ac->deleted;
-  bool exists = get_src_account(ctx, addr->bytes, false).def != NULL;
-  // TODO existance check over the values of the account!
+  if (ac) return !ac->deleted;
+  ssz_ob_t  account   = get_src_account(ctx, addr->bytes, false);
+  bytes32_t code_hash = {0}; // stays zero, if the proof shows that there is no such account
+  if (account.def) eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, code_hash);
+  bool exists = !bytes_all_zero(bytes(code_hash, 32));
   EVM_LOG("account_exists result: %s", exists ? "true" : "false");
   return exists;
 }
@@ -200,7 +202,13 @@ static evmc_bytes32 host_get_code_hash(void* context, const evmc_address* addr)
   debug_print_address("get_code_hash for", addr);
 
   evmc_bytes32 result = {0};
-  keccak(get_code(ctx, addr->bytes), result.bytes);
+  changed_account_t* ac = get_changed_account(ctx, addr->bytes);
+  if (ac && ac->has_code)
+    keccak(ac->code, result.bytes);
+  else {
+    ssz_ob_t account = get_src_account(ctx, addr->bytes, false);
+    if (account.def) eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, result.bytes); // zero for accounts that do not exist
+  }
 
   debug_print_bytes32("get_code_hash result", &result);
   return result;
@@ -213,9 +221,9 @@ static size_t host_copy_code(void* context, const evmc_address* addr, size_t cod
   EVM_LOG("copy_code offset: %zu, buffer size: %zu", code_offset, buffer_size);
 
   bytes_t code      = get_code(ctx, addr->bytes);
-  size_t  copy_size = code.len - code_offset;
+  size_t  copy_size = code_offset < code.len ? code.len - code_offset : 0;
   if (buffer_size < copy_size) copy_size = buffer_size;
-  if (code.data) memcpy(buffer_data, code.data + code_offset, copy_size);
+  if (copy_size) memcpy(buffer_data, code.data + code_offset, copy_size);
 
   EVM_LOG("copy_code result: copied %zu bytes", copy_size);
   return copy_size;
-- 
2.43.0


From b0e0bb199af1a210e2a468abb999bff9ebd2798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:10 +0000
Subject: [PATCH 091/101] fix: contract calls that return nothing were rejected

---
 src/chains/eth/verifier/verify_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 043c047..2445ee7 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -94,13 +94,13 @@ bool verify_call_proof(verify_ctx_t* ctx) {
 #else
   c4_status_t call_status = c4_state_add_error(&ctx->state, "no EVM is enabled, build with -DEVMONE=1");
 #endif
-  if (call_result.data && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
+  if (call_status == C4_SUCCESS && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
     ctx->data = (ssz_ob_t) {.bytes = call_result, .def = eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)};
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
     match = true;
   }
   else {
-    match = call_result.data && bytes_eq(call_result, ctx->data.bytes);
+    match = bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
-- 
2.43.0


From bf260e266d988ba267d20d4fa3c7f5bba57c3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:17 +0000
Subject: [PATCH 092/101] fix: OP-Stack calls were not bound to the requested
 block

---
 src/chains/op/verifier/op_verify_call.c     | 3 ++-
 src/chains/op/verifier/op_verify_simulate.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index ab34d99..c0d543a 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -87,7 +87,8 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
     eth_state_overrides_free(&overrides);
     RETURN_VERIFY_ERROR(ctx, "Failed to verify accounts");
   }
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  json_t    block_number      = json_at(ctx->args, 1);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) return false;
   match = memcmp(state_root, ssz_get(execution_payload, "stateRoot").bytes.data, 32) == 0;
   safe_free(execution_payload);
diff --git a/src/chains/op/verifier/op_verify_simulate.c b/src/chains/op/verifier/op_verify_simulate.c
index e8d00a7..3d4b7f4 100644
--- a/src/chains/op/verifier/op_verify_simulate.c
+++ b/src/chains/op/verifier/op_verify_simulate.c
@@ -79,7 +79,8 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
   }
 
   // Extract and verify execution payload (OP Stack specific)
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  json_t    block_number      = json_at(ctx->args, 1);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) {
     safe_free(call_result.data);
     free_emitted_logs(logs);
-- 
2.43.0


From a8fb1d1f40c4078ea529826e783b9831296512d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:30 +0000
Subject: [PATCH 093/101] fix: OP-Stack contract calls that return nothing were
 rejected

---
 src/chains/op/verifier/op_verify_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index c0d543a..bb877a3 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -65,13 +65,13 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
 #else
   c4_status_t call_status = c4_state_add_error(&ctx->state, "no EVM is enabled, build with -DEVMONE=1");
 #endif
-  if (call_result.data && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
+  if (call_status == C4_SUCCESS && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
     ctx->data = (ssz_ob_t) {.bytes = call_result, .def = eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)};
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
     match = true;
   }
   else {
-    match = call_result.data && bytes_eq(call_result, ctx->data.bytes);
+    match = bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
-- 
2.43.0


From ef3df276db7df125b81a534b33414c1301ce03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 094/101] fix: send the whole filter of eth_getLogs to the node
 (it was cut off after 1000 bytes)

---
 src/chains/eth/prover/eth_req.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index a8d6c63..af60725 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -75,10 +75,9 @@ c4_status_t eth_getBlockReceipts(prover_ctx_t* ctx, json_t block, json_t* receip
 }
 
 c4_status_t eth_get_logs(prover_ctx_t* ctx, json_t params, json_t* logs) {
-  uint8_t         tmp[1000];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0}; // a filter may have any length
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*logs, "[" JSON_LOG_FIELDS "]", "Invalid results for Logs: ");
     req->validated = true;
-- 
2.43.0


From 0a6800c95ae0e6a1f442a893e5d26c4471cd237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 095/101] fix: read the access list of an eth_call with state
 overrides as access list, even if the prover is not configured to use access
 lists

---
 src/chains/eth/prover/proof_call.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index cfae54a..e3ea925 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -269,10 +269,8 @@ c4_status_t c4_proof_call(prover_ctx_t* ctx) {
 
   TRACE_START(ctx, "fetch access list and eth_getProof");
   // If state overrides are provided, we must use eth_createAccessList so the upstream can account for overrides.
-  if (has_overrides)
-    TRY_ADD_ASYNC(status, eth_create_access_list(ctx, tx, &trace, target_block, state_overrides));
-  else
-    TRY_ADD_ASYNC(status, ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST ? eth_create_access_list(ctx, tx, &trace, target_block, (json_t) {0}) : eth_debug_trace_call(ctx, tx, &trace, target_block));
+  if (has_overrides) ctx->flags |= C4_PROVER_FLAG_USE_ACCESSLIST;
+  TRY_ADD_ASYNC(status, ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST ? eth_create_access_list(ctx, tx, &trace, target_block, state_overrides) : eth_debug_trace_call(ctx, tx, &trace, target_block));
   TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, &historic_proof, &block));
   TRY_ASYNC_CATCH(status, c4_free_block_proof(&historic_proof); eth_state_overrides_free(&overrides_parsed));
   TRY_ASYNC_CATCH(
-- 
2.43.0


From db1f245ddb005318fe45deb62ba7724c088d71d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 096/101] fix: prove calls on OP-Stack chains if access lists
 are used or state overrides are given (no account was proven)

---
 src/chains/op/prover/op_proof_call.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/chains/op/prover/op_proof_call.c b/src/chains/op/prover/op_proof_call.c
index 44ba2f3..bbda420 100644
--- a/src/chains/op/prover/op_proof_call.c
+++ b/src/chains/op/prover/op_proof_call.c
@@ -31,6 +31,7 @@
 #include "op_types.h"
 #include "prover.h"
 #include "ssz.h"
+#include "state_overrides.h"
 #include "version.h"
 #include <inttypes.h> // Include this header for PRIu64 and PRIx64
 #include <stdlib.h>
@@ -70,10 +71,15 @@ static void free_proof(op_call_proof_t* proof) {
 }
 
 c4_status_t c4_op_proof_call(prover_ctx_t* ctx) {
-  json_t          tx           = json_at(ctx->params, 0);
-  json_t          block_number = json_at(ctx->params, 1);
-  c4_status_t     status       = C4_SUCCESS;
-  op_call_proof_t proof        = {0};
+  json_t                tx               = json_at(ctx->params, 0);
+  json_t                block_number     = json_at(ctx->params, 1);
+  json_t                state_overrides  = json_at(ctx->params, 2);
+  c4_status_t           status           = C4_SUCCESS;
+  op_call_proof_t       proof            = {0};
+  eth_state_overrides_t overrides_parsed = {0};
+  bool                  has_overrides    = state_overrides.type == JSON_TYPE_OBJECT;
+
+  CHECK_JSON(ctx->params, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
 
   // get the latest block proof
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &proof.block_proof));
@@ -85,11 +91,19 @@ c4_status_t c4_op_proof_call(prover_ctx_t* ctx) {
   proof.target_block = ssz_get_uint64(proof.execution_payload, "blockNumber");
   proof.miner        = ssz_get(proof.execution_payload, "feeRecipient").bytes;
 
-  TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
-  // TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
-  TRY_ASYNC_CATCH(c4_get_eth_proofs(ctx, tx, proof.trace, proof.target_block, &proof.accounts, proof.miner.data, NULL), free_proof(&proof));
+  // the trace must have the format c4_get_eth_proofs expects. With state overrides only the access list takes them into account.
+  if (has_overrides) ctx->flags |= C4_PROVER_FLAG_USE_ACCESSLIST;
+  if (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST)
+    TRY_ASYNC_CATCH(eth_create_access_list(ctx, tx, &proof.trace, proof.target_block, state_overrides), free_proof(&proof));
+  else
+    TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
+  if (has_overrides) TRY_ASYNC_CATCH(eth_parse_state_overrides_state(&ctx->state, state_overrides, &overrides_parsed), free_proof(&proof));
+  TRY_ASYNC_CATCH(c4_get_eth_proofs(ctx, tx, proof.trace, proof.target_block, &proof.accounts, proof.miner.data, has_overrides ? &overrides_parsed : NULL),
+                  free_proof(&proof);
+                  eth_state_overrides_free(&overrides_parsed));
 
   status = create_eth_call_proof(ctx, &proof);
+  eth_state_overrides_free(&overrides_parsed);
   free_proof(&proof);
   return status;
 }
-- 
2.43.0


From 9eb8ae075b46084d7b0f5b07d90dfcc01c3a074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 097/101] fix: prove the called account of an eth_call even if
 the node does not list it in the access list

---
 src/chains/eth/prover/proof_call.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index e3ea925..1f7b0ad 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -213,8 +213,16 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
   int         accounts_len = 0;
 
   if (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST) {
-    json_t access_list = json_get(trace, "accessList");
-    accounts_len       = json_len(access_list);
+    json_t    access_list = json_get(trace, "accessList");
+    json_t    to          = json_get(tx, "to");
+    address_t to_address  = {0};
+    bool      has_to      = false;
+    json_to_bytes(to, bytes(to_address, 20));
+    // nodes leave out the called account, if its storage is not accessed, but its code is always needed.
+    json_for_each_value(access_list, values) {
+      if (json_to_bytes(json_get(values, "address"), bytes(address, 20)) == 20 && memcmp(address, to_address, 20) == 0) has_to = true;
+    }
+    accounts_len = json_len(access_list) + (has_to ? 0 : 1);
     json_for_each_value(access_list, values) {
       buffer_t buf  = stack_buffer(address);
       json_t   addr = json_get(values, "address");
@@ -222,6 +230,10 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
       json_as_bytes(addr, &buf);
       TRY_ADD_ASYNC(status, handle_access_list(ctx, json_get(values, "storageKeys"), account, (json_t) {0}, accounts_len, block_number, address, builder, overrides));
     }
+    if (!has_to) {
+      account = bytes(to.start + 1, to.len - 2);
+      TRY_ADD_ASYNC(status, handle_access_list(ctx, (json_t) {.type = JSON_TYPE_NOT_FOUND}, account, (json_t) {0}, accounts_len, block_number, to_address, builder, overrides));
+    }
   }
   else {
     json_for_each_property(trace, values, account) {
-- 
2.43.0


From 4790742d7ccc342d7631486bdc7588ca604fbb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:00 +0000
Subject: [PATCH 098/101] fix: the attesting indices of a Deneb attester
 slashing are 64 bit numbers (blocks with one could not be proven)

---
 src/chains/eth/ssz/beacon_denep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 899e10f..6a441e2 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -116,7 +116,7 @@ static const ssz_def_t ATTESTATION_DATA[] = {
 
 // an index attestation is a list of attesting indices, a data and a signature
 static const ssz_def_t INDEX_ATTESTATION[] = {
-    SSZ_LIST("attestingIndices", ssz_uint8, 2048), // the list of attesting indices
+    SSZ_LIST("attestingIndices", ssz_uint64_def, 2048), // the list of attesting indices
     SSZ_CONTAINER("data", ATTESTATION_DATA),       // the data of the attestation
     SSZ_BYTE_VECTOR("signature", 96)               // the BLS signature of the attestation
 };
-- 
2.43.0


From 5d00c8e1e66b1971adcb0afd993a2879f3eeccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:00 +0000
Subject: [PATCH 099/101] fix: use the names of the beacon API for the parts of
 slashings, so blocks delivered as JSON can be read

---
 src/chains/eth/ssz/beacon_denep.c   | 8 ++++----
 src/chains/eth/ssz/beacon_electra.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 6a441e2..6270105 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -129,14 +129,14 @@ static const ssz_def_t SIGNED_BEACON_BLOCKHEADER[] = {
 
 // a proposer slashing is a list of two signed beacon block headers
 static const ssz_def_t PROPOSER_SLASHING[] = {
-    SSZ_CONTAINER("signedHeader1", SIGNED_BEACON_BLOCKHEADER),
-    SSZ_CONTAINER("signedHeader2", SIGNED_BEACON_BLOCKHEADER),
+    SSZ_CONTAINER("signed_header_1", SIGNED_BEACON_BLOCKHEADER),
+    SSZ_CONTAINER("signed_header_2", SIGNED_BEACON_BLOCKHEADER),
 };
 
 // an attester slashing is a list of two index attestations
 static const ssz_def_t ATTESTER_SLASHING[] = {
-    SSZ_CONTAINER("signedHeader1", INDEX_ATTESTATION),
-    SSZ_CONTAINER("signedHeader2", INDEX_ATTESTATION),
+    SSZ_CONTAINER("attestation_1", INDEX_ATTESTATION),
+    SSZ_CONTAINER("attestation_2", INDEX_ATTESTATION),
 };
 
 // the eth1 data is a deposit root, a deposit count and a block hash
diff --git a/src/chains/eth/ssz/beacon_electra.c b/src/chains/eth/ssz/beacon_electra.c
index f09f551..e5468e9 100644
--- a/src/chains/eth/ssz/beacon_electra.c
+++ b/src/chains/eth/ssz/beacon_electra.c
@@ -109,14 +109,14 @@ static const ssz_def_t SIGNED_BEACON_BLOCKHEADER[] = {
 
 // a proposer slashing is a list of two signed beacon block headers
 static const ssz_def_t PROPOSER_SLASHING[] = {
-    SSZ_CONTAINER("signedHeader1", SIGNED_BEACON_BLOCKHEADER),
-    SSZ_CONTAINER("signedHeader2", SIGNED_BEACON_BLOCKHEADER),
+    SSZ_CONTAINER("signed_header_1", SIGNED_BEACON_BLOCKHEADER),
+    SSZ_CONTAINER("signed_header_2", SIGNED_BEACON_BLOCKHEADER),
 };
 
 // an attester slashing is a list of two index attestations
 static const ssz_def_t ATTESTER_SLASHING[] = {
-    SSZ_CONTAINER("signedHeader1", INDEX_ATTESTATION), // Kept original C-style field name, type INDEX_ATTESTATION is updated
-    SSZ_CONTAINER("signedHeader2", INDEX_ATTESTATION), // Kept original C-style field name, type INDEX_ATTESTATION is updated
+    SSZ_CONTAINER("attestation_1", INDEX_ATTESTATION), // type INDEX_ATTESTATION is updated
+    SSZ_CONTAINER("attestation_2", INDEX_ATTESTATION), // type INDEX_ATTESTATION is updated
 };
 
 // the eth1 data is a deposit root, a deposit count and a block hash
-- 
2.43.0


From 259dc267180a05284b2e135085af73762d1994ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:00 +0000
Subject: [PATCH 100/101] fix: read decimal strings for uint256 in
 ssz_from_json, as the beacon API delivers them (baseFeePerGas)

---
 src/util/ssz_builder.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 4d460ef..c6a06bc 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -289,6 +289,17 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
       }
       else {
         memset(buf.fixed.data.data, 0, def->def.uint.len);
+        if (json.type == JSON_TYPE_STRING && json.len > 2 && !(json.len > 3 && json.start[1] == '0' && json.start[2] == 'x')) {
+          // the beacon api encodes them as decimals
+          for (size_t n = 1; n + 1 < json.len && json.start[n] >= '0' && json.start[n] <= '9'; n++) {
+            uint32_t carry = (uint32_t) (json.start[n] - '0');
+            for (int i = 0; i < def->def.uint.len; i++, carry >>= 8) {
+              carry += (uint32_t) buf.fixed.data.data[i] * 10;
+              buf.fixed.data.data[i] = (uint8_t) (carry & 0xff);
+            }
+          }
+          return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
+        }
         bytes_t bytes = json_as_bytes(json, &buf.dynamic);
         if (bytes.len > def->def.uint.len) bytes.len = def->def.uint.len;
         // switch order
-- 
2.43.0


From 3d61d22fa57d0ac107f4f6b7d99e3daa043bd01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:09 +0000
Subject: [PATCH 101/101] fix: the block cache of the prover mixed up block N
 and block N*256

---
 src/chains/eth/prover/beacon.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 13954a9..fcf38d5 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -43,7 +43,10 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   }
   else if (block.start[1] == '0' && block.start[2] == 'x') {
     json_as_bytes(block, &buffer);
-    if (block.len < 68) memmove(key + 1, key, buffer.data.len);
+    if (block.len < 68) { // numbers are aligned to the right, so N and N*256 have different keys
+      memmove(key + 32 - buffer.data.len, key, buffer.data.len);
+      memset(key, 0, 32 - buffer.data.len);
+    }
   }
   else
     memcpy(key + 1, block.start, block.len > 31 ? 31 : block.len);
@@ -144,7 +147,7 @@ void c4_beacon_cache_update_blockdata(prover_ctx_t* ctx, beacon_block_t* beacon_
   for (int i = 0; i < 8; i++)
     block_number_data[7 - i] = block_number_src[i];
   bytes_t block_number = bytes_remove_leading_zeros(bytes(block_number_data, 8));
-  memcpy(key + 1, block_number.data, block_number.len);
+  memcpy(key + 32 - block_number.len, block_number.data, block_number.len);
   c4_prover_cache_set(ctx, key, bytes_dup(slot_data).data, slot_data.len, ttl, free); // keep it for 1 day
 
   // cache the transactions in the tx cache.
-- 
2.43.0

