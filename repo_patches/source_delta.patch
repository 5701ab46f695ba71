From af29ccb45c9f252173a609ca804fd7c279582524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 1/6] fix: full-range and power-of-two ranges in
 random_u8_with_range

The range size was computed in u8, so (0, 255) overflowed (a panic, or a
division by zero without overflow checks), and a threshold of 256 was
truncated to 0.
---
 sdk/src/rnd.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..2a4f776 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,17 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
-    let threshold = (256 / range * range) as u8;
+    let range = (max_value - min_value) as u16 + 1;
+    let threshold = 256 / range * range;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
-        if b < threshold {
-            return min_value + (b % range as u8);
+        if (b as u16) < threshold {
+            return min_value + (b as u16 % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From f54d57f491ec69eff82c8d87aac3378a218d09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 2/6] fix: request_randomness must only write to an initialized
 queue

The queue discriminator was not checked, so the oracle registry, or a queue
account that is only partly allocated, could be passed and written over.
---
 program/src/request_randomness.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..5d336f5 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -67,9 +67,8 @@ pub fn process_request_randomness(
     {
         // Borrow queue account data and load QueueAccount view
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        if data.len() < 8 {
-            return Err(ProgramError::InvalidAccountData);
-        }
+        // Only an initialized queue can take requests
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From 76f83a8a8814fd32240511e2778c3d4a2e23ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 3/6] fix: purge_expired_requests must only write to an
 initialized queue

Purging a queue account that is only partly allocated wrote its cursor, so
that the account was no longer zeroed and could never be initialized.
---
 program/src/purge_expired_requests.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index f49182e..9928e40 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -32,6 +32,8 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
 
     // Borrow queue data and scan/remove expired items using QueueAccount view
     let mut acc_data = oracle_queue_info.try_borrow_mut_data()?;
+    // Only an initialized queue can be purged
+    Queue::try_from_bytes(&acc_data)?;
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-- 
2.43.0


From 40317b1390ffc0110a2c186ca2f4ce12eb71a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 4/6] fix: closing a partly allocated queue must not un-count
 an open queue

open_queue is incremented when a queue is initialized, but was decremented
also for queue accounts that never were, so that an oracle with an open queue
could reach zero and be removed.
---
 program/src/close_oracle_queue.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..d243f24 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -56,19 +56,23 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
         )?;
 
     // Ensure the queue has no pending items before closing.
-    {
+    let initialized = {
         // Borrow data and load QueueAccount view to check emptiness
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
+        let initialized = Queue::try_from_bytes(&data).is_ok();
         let queue_data = &mut data[8..];
         let queue_acc = QueueAccount::load(queue_data)?;
         if !queue_acc.is_empty() {
             return Err(EphemeralVrfError::QueueNotEmpty.into());
         }
-    }
+        initialized
+    };
 
-    // Decrement oracle's open queue count
+    // Decrement oracle's open queue count (a partly allocated queue was never counted)
     let mut oracle_data_mut = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
-    oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    if initialized {
+        oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    }
 
     close_account(oracle_queue_info, oracle_info)?;
 
-- 
2.43.0


From 35ac6981acaca175e42c0d2b277add21d4491bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 5/6] fix: identical requests in one slot must not share an id

The insertion index hint is the queue length, which goes down when another
request is fulfilled or purged, so an identical request later in the same slot
got the id of one that was still pending.
---
 program/src/request_randomness.rs | 33 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 5d336f5..e3038ae 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -73,17 +73,28 @@ pub fn process_request_randomness(
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
 
-        // Compute a combined hash that includes a logical insertion index hint
-        let idx = queue_acc.len() as u32;
-        let combined_hash = hashv(&[
-            &args.caller_seed,
-            &slot.to_le_bytes(),
-            &slothash,
-            &args.callback_discriminator,
-            &args.callback_program_id.to_bytes(),
-            &time.to_le_bytes(),
-            &idx.to_le_bytes(),
-        ]);
+        // Compute a combined hash that includes a logical insertion index hint. The hint is
+        // advanced past ids that are still pending: after a removal, an identical request in
+        // the same slot would otherwise get the same id.
+        let mut idx = queue_acc.len() as u32;
+        let combined_hash = loop {
+            let combined_hash = hashv(&[
+                &args.caller_seed,
+                &slot.to_le_bytes(),
+                &slothash,
+                &args.callback_discriminator,
+                &args.callback_program_id.to_bytes(),
+                &time.to_le_bytes(),
+                &idx.to_le_bytes(),
+            ]);
+            if queue_acc
+                .find_item_by_id(&combined_hash.to_bytes())
+                .is_none()
+            {
+                break combined_hash;
+            }
+            idx = idx.wrapping_add(1);
+        };
 
         // Log to simplify gathering all the information needed to recreate the combined_hash.
         msg!("Idx: {}", idx);
-- 
2.43.0


From a8058de0d5cac40b0db3ba4b98faca9e1569f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 6/6] fix: refuse discriminators whose length does not fit the
 queue entry

add_item stored the discriminator length truncated to 16 bits, so an entry
with a longer discriminator was recorded with a wrong length and the entries
after it became unreadable.
---
 api/src/state/queue.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/src/state/queue.rs b/api/src/state/queue.rs
index e83eb51..f70adf9 100644
--- a/api/src/state/queue.rs
+++ b/api/src/state/queue.rs
@@ -233,8 +233,9 @@ impl<'a> QueueAccount<'a> {
         metas: &[CompactAccountMeta],
         args: &[u8],
     ) -> Result<usize, ProgramError> {
-        // Enforce upper bounds on metas and args lengths to prevent oversized QueueItems
-        if metas.len() > 20 || args.len() > 512 {
+        // Enforce upper bounds on metas and args lengths to prevent oversized QueueItems;
+        // the discriminator length is stored as u16
+        if metas.len() > 20 || args.len() > 512 || discriminator.len() > u16::MAX as usize {
             return Err(ProgramError::from(EphemeralVrfError::ArgumentSizeTooLarge));
         }
 
-- 
2.43.0

