From 9f94dc7e1108d4e6ad385c88d7031dff5971aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 01/57] fix: keep the block boundary when replacing content
 before an empty last block

---
 crates/common/src/database/rope_helpers.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7f715c4..d15b1e5 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -837,17 +837,18 @@ pub fn rope_remove_block(store: &Store, block_id: EntityId) {
 pub fn rope_replace_block_content(store: &Store, block_id: EntityId, new_text: &str) {
     let (block_byte_start, content_bytes) = {
         let offsets = store.block_offsets.read().unwrap();
-        let Some((start, end)) = offsets.range_of_block(block_id) else {
+        let Some((start, end, has_successor)) =
+            offsets.range_with_successor(OffsetMarker::Block(block_id))
+        else {
             return;
         };
-        let total = offsets.total_bytes();
-        // `range_of` extends to the next entry's `byte_start` (or to
+        // `end` extends to the next entry's `byte_start` (or to
         // `total_bytes`). If there's a following entry, the byte at
         // `end - 1` is the inter-block boundary `\n` that belongs to
         // the boundary between this block and the next, not to this
-        // block's content.
-        let has_trailing_boundary = end < total;
-        let content_bytes = if has_trailing_boundary {
+        // block's content. An empty last block starts at `total_bytes`,
+        // so `end < total_bytes` would miss it.
+        let content_bytes = if has_successor && end > start {
             end - start - 1
         } else {
             end - start
-- 
2.43.0


From 2ad2aa471973543260ef96813d6a80d377fe7fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 02/57] fix: count only inserted characters when a fragment
 splits a block

---
 .../src/use_cases/insert_fragment_uc.rs               | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index c2d7ec0..ee07f69 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -999,8 +999,10 @@ fn insert_mixed_fragment(
     // post-head-update content (same id as updated_current), so use the
     // pre-mutation char length captured at the top of the function.
     let head_delta = block_char_length(&updated_current, &store) - original_current_char_length;
+    // The text after the insertion point leaves the head but comes back in
+    // the tail block, so it is not part of the net change.
     let mut total_new_chars: i64 = if merge_first || overwrite_head {
-        head_delta
+        head_delta + text_after.chars().count() as i64 + right_image_count
     } else {
         0
     };
@@ -1810,8 +1812,10 @@ fn execute_insert_fragment(
         // Track (created_block_id, plain_text) for the rope mirror.
         let mut middle_block_payload: Vec<(EntityId, String)> = Vec::new();
         let head_delta = updated_current_char_length - original_current_char_length;
+        // The text after the insertion point leaves the head but comes back
+        // in the tail block, so it is not part of the net change.
         let mut total_new_chars: i64 = if merge_first || overwrite_head {
-            head_delta
+            head_delta + text_after_chars + right_image_count
         } else {
             0
         };
@@ -2267,7 +2271,8 @@ fn execute_insert_fragment(
                 uow.update_block_multi(&blocks_to_update)?;
             }
 
-            let char_delta = block_text_len - original_current_char_length;
+            // The original text moved to the tail block unchanged.
+            let char_delta = block_text_len;
             let mut updated_doc = document.clone();
             updated_doc.block_count += blocks_added;
             updated_doc.character_count += char_delta;
-- 
2.43.0


From 018d48359c642879660640c21f387ad6525bec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 03/57] fix: mirror the block created by insert_list into the
 rope

---
 .../src/use_cases/insert_list_uc.rs            | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 5a7d74d..f2f8274 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -3,7 +3,9 @@ use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_split_block,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -97,7 +99,7 @@ fn execute_insert_list(
     blocks.sort_by_key(|b| b.document_position);
 
     // Find block at position to determine insert index
-    let (_current_block, block_idx, _offset) =
+    let (current_block, block_idx, _offset) =
         find_block_at_position(&blocks, position, &uow.store())?;
 
     let now = chrono::Utc::now();
@@ -116,12 +118,8 @@ fn execute_insert_list(
 
     // Create a new empty block with the list reference
     let store = uow.store();
-    let new_block_position = if !blocks.is_empty() {
-        let current = &blocks[block_idx];
-        current.document_position + block_char_length(current, &store) + 1
-    } else {
-        0
-    };
+    let new_block_position =
+        current_block.document_position + block_char_length(&current_block, &store) + 1;
 
     let new_block = Block {
         id: 0,
@@ -135,6 +133,10 @@ fn execute_insert_list(
     let insert_index = (block_idx + 1) as i32;
     let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
 
+    // Mirror the new empty block into the rope, right after the current one.
+    let current_byte_len = block_content_via_store(&current_block, &store).len() as u32;
+    rope_split_block(&store, current_block.id, current_byte_len, created_block.id);
+
     // Update frame's child_order
     let mut updated_frame = frame.clone();
     let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
-- 
2.43.0


From 71e09686efba7eefa523d747f270c15f2e9749f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 04/57] fix: read block positions from the rope instead of the
 stale stored field

---
 crates/common/src/database/rope_helpers.rs    | 19 ++++++++++++++
 .../src/direct_access/block/block_table.rs    | 25 ++++++++++++++-----
 .../src/use_cases/insert_table_uc.rs          |  6 ++---
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index d15b1e5..592c9d8 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -105,6 +105,25 @@ pub fn rope_positions_match_flow(store: &Store) -> bool {
     indexed_block_count == total_block_count
 }
 
+/// Overwrite `document_position` (which the per-keystroke path leaves
+/// stale in the stored blocks) with the rope-derived value, when
+/// [`rope_positions_match_flow`]. Otherwise the stored field is the
+/// maintained one and stays.
+pub fn refresh_document_positions<'b>(blocks: impl Iterator<Item = &'b mut Block>, store: &Store) {
+    if !rope_positions_match_flow(store) {
+        return;
+    }
+    let offsets = store.block_offsets.read().unwrap();
+    let rope = store.rope.read().unwrap();
+    for block in blocks {
+        if let Some((byte_start, _)) = offsets.range_of_block(block.id)
+            && let Ok(position) = rope.try_byte_to_char(byte_start as usize)
+        {
+            block.document_position = position as i64;
+        }
+    }
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/common/src/direct_access/block/block_table.rs b/crates/common/src/direct_access/block/block_table.rs
index 9c0233b..2e666d6 100644
--- a/crates/common/src/direct_access/block/block_table.rs
+++ b/crates/common/src/direct_access/block/block_table.rs
@@ -4,6 +4,7 @@
 // step are gone.
 
 use crate::database::Store;
+use crate::database::rope_helpers::refresh_document_positions;
 use crate::entities::Block;
 use crate::error::RepositoryError;
 use crate::types::EntityId;
@@ -69,12 +70,18 @@ impl<'a> BlockTable for BlockHashMapTable<'a> {
     }
 
     fn get(&self, id: &EntityId) -> Result<Option<Block>, RepositoryError> {
-        Ok(self.store.blocks.read().unwrap().get(id).cloned())
+        let mut block = self.store.blocks.read().unwrap().get(id).cloned();
+        refresh_document_positions(block.iter_mut(), self.store);
+        Ok(block)
     }
 
     fn get_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>, RepositoryError> {
-        let map = self.store.blocks.read().unwrap();
-        Ok(ids.iter().map(|id| map.get(id).cloned()).collect())
+        let mut blocks: Vec<Option<Block>> = {
+            let map = self.store.blocks.read().unwrap();
+            ids.iter().map(|id| map.get(id).cloned()).collect()
+        };
+        refresh_document_positions(blocks.iter_mut().flatten(), self.store);
+        Ok(blocks)
     }
 
     fn get_all(&self) -> Result<Vec<Block>, RepositoryError> {
@@ -333,12 +340,18 @@ impl<'a> BlockHashMapTableRO<'a> {
 
 impl<'a> BlockTableRO for BlockHashMapTableRO<'a> {
     fn get(&self, id: &EntityId) -> Result<Option<Block>, RepositoryError> {
-        Ok(self.store.blocks.read().unwrap().get(id).cloned())
+        let mut block = self.store.blocks.read().unwrap().get(id).cloned();
+        refresh_document_positions(block.iter_mut(), self.store);
+        Ok(block)
     }
 
     fn get_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>, RepositoryError> {
-        let map = self.store.blocks.read().unwrap();
-        Ok(ids.iter().map(|id| map.get(id).cloned()).collect())
+        let mut blocks: Vec<Option<Block>> = {
+            let map = self.store.blocks.read().unwrap();
+            ids.iter().map(|id| map.get(id).cloned()).collect()
+        };
+        refresh_document_positions(blocks.iter_mut().flatten(), self.store);
+        Ok(blocks)
     }
 
     fn get_all(&self) -> Result<Vec<Block>, RepositoryError> {
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 7c93ca3..63955d5 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -109,9 +109,9 @@ fn execute_insert_table(
             let blocks_opt = uow.get_block_multi(&ids)?;
             let mut updates: Vec<Block> = Vec::new();
             for ((_, fresh_pos), maybe_b) in catchup.into_iter().zip(blocks_opt) {
-                if let Some(b) = maybe_b
-                    && b.document_position != fresh_pos
-                {
+                // Unconditional: reads already hand out the derived
+                // position, it is the stored one that may be stale.
+                if let Some(b) = maybe_b {
                     let mut ub = b;
                     ub.document_position = fresh_pos;
                     ub.updated_at = chrono::Utc::now();
-- 
2.43.0


From 6892e6aa9a4113c778b0631d0065b094bfe3daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:33 +0000
Subject: [PATCH 05/57] fix: resolve an Operation handle when the operation
 fails or is cancelled

---
 crates/common/src/long_operation.rs | 16 ++++++++++++++
 crates/public_api/src/operation.rs  | 33 ++++++++++++++++++++++++-----
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index e763ebd..59f4496 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -161,6 +161,7 @@ trait OperationHandleTrait: Send {
     fn get_progress(&self) -> OperationProgress;
     fn cancel(&self);
     fn is_finished(&self) -> bool;
+    fn is_settled(&self) -> bool;
 }
 
 /// Lock a mutex, recovering from poisoning by returning the inner value.
@@ -205,6 +206,10 @@ impl OperationHandleTrait for OperationHandle {
             OperationStatus::Completed | OperationStatus::Cancelled | OperationStatus::Failed(_)
         )
     }
+
+    fn is_settled(&self) -> bool {
+        self._join_handle.is_finished()
+    }
 }
 
 // Manager for long operations
@@ -394,6 +399,17 @@ impl LongOperationManager {
         operations.get(id).map(|handle| handle.is_finished())
     }
 
+    /// Final status of an operation whose thread has ended. A cancelled
+    /// operation counts as finished at once, while its thread may still be
+    /// rolling back; `None` until that is over.
+    pub fn get_settled_status(&self, id: &str) -> Option<OperationStatus> {
+        let operations = lock_or_recover(&self.operations);
+        operations
+            .get(id)
+            .filter(|handle| handle.is_settled())
+            .map(|handle| handle.get_status())
+    }
+
     /// Remove finished operations from memory
     pub fn cleanup_finished_operations(&self) {
         let mut operations = lock_or_recover(&self.operations);
diff --git a/crates/public_api/src/operation.rs b/crates/public_api/src/operation.rs
index 31770be..bea7e20 100644
--- a/crates/public_api/src/operation.rs
+++ b/crates/public_api/src/operation.rs
@@ -3,9 +3,10 @@
 use std::thread;
 use std::time::Duration;
 
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 
 use frontend::AppContext;
+use frontend::common::long_operation::OperationStatus;
 
 /// Function that polls the long-operation manager for a result.
 type ResultFn<T> = Box<dyn Fn(&AppContext, &str) -> Option<Result<T>> + Send>;
@@ -72,7 +73,29 @@ impl<T> Operation<T> {
 
     /// Returns `true` if the operation has finished (success or failure).
     pub fn is_done(&self) -> bool {
-        (self.result_fn)(&self.state.ctx, &self.id).is_some()
+        self.poll().is_some()
+    }
+
+    /// The outcome, once there is one: the stored result, or an error when
+    /// the operation ended without storing any.
+    fn poll(&self) -> Option<Result<T>> {
+        // Status before result: a completed operation stores its result
+        // before its thread ends.
+        let status = self
+            .state
+            .ctx
+            .long_operation_manager
+            .lock()
+            .unwrap_or_else(|e| e.into_inner())
+            .get_settled_status(&self.id);
+        if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            return Some(result);
+        }
+        Some(Err(match status? {
+            OperationStatus::Cancelled => anyhow!("Operation was cancelled"),
+            OperationStatus::Failed(error) => anyhow!(error),
+            _ => anyhow!("Operation ended without a result"),
+        }))
     }
 
     /// Cancel the operation. No-op if already finished.
@@ -86,7 +109,7 @@ impl<T> Operation<T> {
     /// the typed result. Consumes the handle.
     pub fn wait(self) -> Result<T> {
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return result;
             }
             thread::sleep(Duration::from_millis(50));
@@ -98,7 +121,7 @@ impl<T> Operation<T> {
     pub fn wait_timeout(self, timeout: Duration) -> Option<Result<T>> {
         let deadline = std::time::Instant::now() + timeout;
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return Some(result);
             }
             if std::time::Instant::now() >= deadline {
@@ -112,7 +135,7 @@ impl<T> Operation<T> {
     /// Non-blocking: returns the result if the operation has completed,
     /// `None` if still running. Can be called repeatedly.
     pub fn try_result(&mut self) -> Option<Result<T>> {
-        (self.result_fn)(&self.state.ctx, &self.id)
+        self.poll()
     }
 }
 
-- 
2.43.0


From 9b17b7385a702f2d4baa101e3ef67083270ef718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:32 +0000
Subject: [PATCH 06/57] fix: announce the end of a long operation exactly once,
 when it has ended

---
 crates/common/src/long_operation.rs | 30 +++++++++++++----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index 59f4496..c7f4364 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -193,9 +193,9 @@ impl OperationHandleTrait for OperationHandle {
     }
 
     fn cancel(&self) {
-        self.cancel_flag.store(true, Ordering::Relaxed);
         let mut status = lock_or_recover(&self.status);
         if matches!(*status, OperationStatus::Running) {
+            self.cancel_flag.store(true, Ordering::Relaxed);
             *status = OperationStatus::Cancelled;
         }
     }
@@ -303,10 +303,11 @@ impl LongOperationManager {
 
             let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
 
-            let final_status = if cancel_flag_clone.load(Ordering::Relaxed) {
-                OperationStatus::Cancelled
-            } else {
-                match &operation_result {
+            let final_status = {
+                // Under the status lock, so that a concurrent cancel comes
+                // either before this or too late.
+                let mut status = lock_or_recover(&status_clone);
+                *status = match &operation_result {
                     Ok(result) => {
                         // Store the result
                         if let Ok(serialized) = serde_json::to_string(result) {
@@ -315,8 +316,12 @@ impl LongOperationManager {
                         }
                         OperationStatus::Completed
                     }
+                    Err(_) if cancel_flag_clone.load(Ordering::Relaxed) => {
+                        OperationStatus::Cancelled
+                    }
                     Err(e) => OperationStatus::Failed(e.to_string()),
-                }
+                };
+                status.clone()
             };
 
             // Emit final status event
@@ -345,8 +350,6 @@ impl LongOperationManager {
                     data: Some(data),
                 });
             }
-
-            *lock_or_recover(&status_clone) = final_status;
         });
 
         let handle = OperationHandle {
@@ -377,16 +380,9 @@ impl LongOperationManager {
     pub fn cancel_operation(&self, id: &str) -> bool {
         let operations = lock_or_recover(&self.operations);
         if let Some(handle) = operations.get(id) {
+            // The operation's thread emits the cancelled event once it has
+            // stopped, so that every operation is announced finished once.
             handle.cancel();
-            // Emit cancelled event immediately
-            if let Some(event_hub) = &self.event_hub {
-                let payload = serde_json::json!({"id": id}).to_string();
-                event_hub.send_event(Event {
-                    origin: Origin::LongOperation(LongOperationEvent::Cancelled),
-                    ids: vec![],
-                    data: Some(payload),
-                });
-            }
             true
         } else {
             false
-- 
2.43.0


From c4c623d0a31b497c4556caf336d204187b7101a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:44 +0000
Subject: [PATCH 07/57] fix: clear history and derived state when set_markdown
 or set_html replaces the document

---
 crates/public_api/src/document.rs | 16 +++++----
 crates/public_api/src/inner.rs    | 55 ++++++++++++++++++++++++++++---
 2 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fdd02d..393019a 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -106,9 +106,11 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::DocumentReset);
-                        inner.check_block_count_changed();
-                        inner.reset_cached_child_order();
+                        if inner.finish_import(&op_id) {
+                            inner.queue_event(DocumentEvent::DocumentReset);
+                            inner.check_block_count_changed();
+                            inner.reset_cached_child_order();
+                        }
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: true,
@@ -126,6 +128,7 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
+                        inner.pending_imports.retain(|id| *id != op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
@@ -142,6 +145,7 @@ impl TextDocument {
                     if let Some(inner) = weak.upgrade() {
                         let (op_id, error) = parse_failed_data(&event.data);
                         let mut inner = inner.lock();
+                        inner.pending_imports.retain(|id| *id != op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
@@ -187,7 +191,7 @@ impl TextDocument {
     /// Export the entire document as plain text.
     pub fn to_plain_text(&self) -> Result<String> {
         let mut inner = self.inner.lock();
-        Ok(inner.plain_text()?.to_string())
+        inner.plain_text()
     }
 
     /// Replace the entire document with Markdown. Clears undo history.
@@ -195,11 +199,11 @@ impl TextDocument {
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_markdown(&self, markdown: &str) -> Result<Operation<MarkdownImportResult>> {
         let mut inner = self.inner.lock();
-        inner.invalidate_text_cache();
         let dto = frontend::document_io::ImportMarkdownDto {
             markdown_text: markdown.into(),
         };
         let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+        inner.begin_import(&op_id);
         Ok(Operation::new(
             op_id,
             &inner.ctx,
@@ -228,11 +232,11 @@ impl TextDocument {
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_html(&self, html: &str) -> Result<Operation<HtmlImportResult>> {
         let mut inner = self.inner.lock();
-        inner.invalidate_text_cache();
         let dto = frontend::document_io::ImportHtmlDto {
             html_text: html.into(),
         };
         let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+        inner.begin_import(&op_id);
         Ok(Operation::new(
             op_id,
             &inner.ctx,
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index ead96b9..f749e8a 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -87,6 +87,9 @@ pub(crate) struct TextDocumentInner {
     // on any edit or document reset. Avoids O(blocks) reconstruction per search.
     pub plain_text_cache: Option<String>,
 
+    // Ids of the Markdown/HTML imports whose completion has not been handled.
+    pub pending_imports: Vec<String>,
+
     // Last known block count, used to detect changes and emit BlockCountChanged.
     pub last_block_count: usize,
 
@@ -217,6 +220,41 @@ impl TextDocumentInner {
         self.plain_text_cache = None;
     }
 
+    /// Record the start of an import that will replace the document.
+    pub fn begin_import(&mut self, op_id: &str) {
+        self.invalidate_text_cache();
+        frontend::commands::undo_redo_commands::clear_stack(&self.ctx, self.stack_id);
+        self.pending_imports.push(op_id.to_string());
+        self.queue_event(crate::DocumentEvent::UndoRedoChanged {
+            can_undo: false,
+            can_redo: false,
+        });
+    }
+
+    /// Refresh what is derived from the replaced content. Returns `false`
+    /// if `op_id` is not an import.
+    pub fn finish_import(&mut self, op_id: &str) -> bool {
+        let Some(index) = self.pending_imports.iter().position(|id| id == op_id) else {
+            return false;
+        };
+        self.pending_imports.remove(index);
+        self.invalidate_text_cache();
+        self.rehighlight_all();
+        true
+    }
+
+    /// Whether an import may still replace the document.
+    fn import_running(&self) -> bool {
+        let manager = self
+            .ctx
+            .long_operation_manager
+            .lock()
+            .unwrap_or_else(|e| e.into_inner());
+        self.pending_imports
+            .iter()
+            .any(|id| manager.get_settled_status(id).is_none())
+    }
+
     /// Check the current block count and queue a `BlockCountChanged` event if it changed.
     pub fn check_block_count_changed(&mut self) {
         let doc = frontend::commands::document_commands::get_document(&self.ctx, &self.document_id);
@@ -308,12 +346,18 @@ impl TextDocumentInner {
     }
 
     /// Get or lazily build the cached plain text.
-    pub fn plain_text(&mut self) -> Result<&str> {
-        if self.plain_text_cache.is_none() {
-            let dto = frontend::commands::document_io_commands::export_plain_text(&self.ctx)?;
-            self.plain_text_cache = Some(dto.plain_text);
+    pub fn plain_text(&mut self) -> Result<String> {
+        if let Some(text) = &self.plain_text_cache {
+            return Ok(text.clone());
+        }
+        // An import replaces the content without taking the document lock.
+        let cacheable = !self.import_running();
+        let text =
+            frontend::commands::document_io_commands::export_plain_text(&self.ctx)?.plain_text;
+        if cacheable {
+            self.plain_text_cache = Some(text.clone());
         }
-        Ok(self.plain_text_cache.as_deref().unwrap())
+        Ok(text)
     }
 
     /// Initialize the document: create Root → Document → Frame → Block.
@@ -388,6 +432,7 @@ impl TextDocumentInner {
             poll_cursor: 0,
             resource_cache: HashMap::new(),
             plain_text_cache: None,
+            pending_imports: Vec::new(),
             last_block_count: 1, // new document starts with one block
             last_child_order: vec![block.id as i64],
             highlight: None,
-- 
2.43.0


From 113344f49bb675fc7b2f2fb27efd0e910caf357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 08/57] fix: count only the characters really deleted when a
 cursor lies beyond the end

---
 crates/document_editing/src/use_cases/delete_text_uc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 57fa641..d63d15e 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -594,6 +594,10 @@ fn execute_delete(
 
     let (end_block, end_block_idx, end_offset) =
         find_block_at_position(&blocks, end, &uow.store())?;
+    // A stale cursor can lie beyond the end of the document: only count the
+    // characters which are really there.
+    let start = start.min(start_block.document_position + start_offset);
+    let end = end.min(end_block.document_position + end_offset);
     let delete_len = end - start;
 
     if start_block_idx == end_block_idx {
-- 
2.43.0


From 57a1105ede13ea1bd9cd3567ef05ff19da16cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 09/57] fix: adjust cursors where insert_list really inserts
 its block

---
 crates/public_api/src/cursor.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8d7be8e..f0ffbe0 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1696,16 +1696,10 @@ impl TextCursor {
             };
             let result =
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            self.finish_edit_ext(
-                &mut inner,
-                edit_pos,
-                removed,
-                to_usize(result.new_position),
-                1,
-                false,
-            )
+            // The list item goes after the current block and the selection is
+            // kept: the edit is one block separator, just before the new item.
+            let new_pos = to_usize(result.new_position);
+            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, false)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From 996ff79d0637f3768a7a566fec0ab109001884f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 10/57] fix: keep the replaced selection when later typing
 merges into the insertion

---
 crates/document_editing/src/use_cases/insert_text_uc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index da5cfed..f622c28 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -642,8 +642,9 @@ impl UndoRedoCommand for InsertTextUseCase {
         };
 
         if let (Some(self_dto), Some(other_dto)) = (&mut self.last_dto, &other_cmd.last_dto) {
+            // Keep the anchor: when this insertion replaced a selection, redo
+            // has to replace it again.
             self_dto.text.push_str(&other_dto.text);
-            self_dto.anchor = self_dto.position;
         }
         if let Some(other_result) = &other_cmd.last_result {
             self.last_result = Some(other_result.clone());
-- 
2.43.0


From 5df551a7e6c5fdd99c86f0190bb1e8c3b7638bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:24 +0000
Subject: [PATCH 11/57] fix: look resources up again after undo and redo

---
 crates/public_api/src/document.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 393019a..ca6a3f2 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -781,14 +781,13 @@ impl TextDocument {
             inner.resource_cache.remove(name);
         }
 
-        // Slow path: linear scan, then populate cache for the match.
+        // Slow path: linear scan, then populate cache for the match. When a
+        // name was added several times, the latest one wins.
         let all = resource_commands::get_all_resource(&inner.ctx)?;
-        for r in &all {
-            if r.name == name {
-                inner.resource_cache.insert(name.to_string(), r.id);
-                let bytes = BASE64.decode(&r.data_base64)?;
-                return Ok(Some(bytes));
-            }
+        if let Some(r) = all.iter().filter(|r| r.name == name).max_by_key(|r| r.id) {
+            inner.resource_cache.insert(name.to_string(), r.id);
+            let bytes = BASE64.decode(&r.data_base64)?;
+            return Ok(Some(bytes));
         }
         Ok(None)
     }
@@ -802,6 +801,8 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            // The step may have removed or restored resources.
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
@@ -823,6 +824,8 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            // The step may have removed or restored resources.
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
-- 
2.43.0


From 2d8517999f3428f2813ec8eb383c79a45a98a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:12 +0000
Subject: [PATCH 12/57] fix: read the cursor position under the document lock
 in editing calls

---
 crates/public_api/src/cursor.rs | 377 ++++++++++++++++----------------
 1 file changed, 189 insertions(+), 188 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index f0ffbe0..51cccd7 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -166,13 +166,13 @@ impl TextCursor {
 
     /// Get the selected text. Returns empty string if no selection.
     pub fn selected_text(&self) -> Result<String> {
+        let inner = self.doc.lock();
         let (pos, anchor) = self.read_cursor();
         if pos == anchor {
             return Ok(String::new());
         }
         let start = pos.min(anchor);
         let len = pos.max(anchor) - start;
-        let inner = self.doc.lock();
         let dto = frontend::document_inspection::GetTextAtPositionDto {
             position: to_i64(start),
             length: to_i64(len),
@@ -389,17 +389,16 @@ impl TextCursor {
 
     /// Insert plain text at the cursor. Replaces selection if any.
     pub fn insert_text(&self, text: &str) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
-        // Try direct insert first (handles same-block selection and no-selection cases)
-        let dto = frontend::document_editing::InsertTextDto {
-            position: to_i64(pos),
-            anchor: to_i64(anchor),
-            text: text.into(),
-        };
-
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+
+            // Try direct insert first (handles same-block selection and no-selection cases)
+            let dto = frontend::document_editing::InsertTextDto {
+                position: to_i64(pos),
+                anchor: to_i64(anchor),
+                text: text.into(),
+            };
             let result = match document_editing_commands::insert_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -455,8 +454,6 @@ impl TextCursor {
 
     /// Insert text with a specific character format. Replaces selection if any.
     pub fn insert_formatted_text(&self, text: &str, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
         let make_dto = |p: usize, a: usize| frontend::document_editing::InsertFormattedTextDto {
             position: to_i64(p),
             anchor: to_i64(a),
@@ -471,6 +468,7 @@ impl TextCursor {
 
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let result = match document_editing_commands::insert_formatted_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -521,9 +519,9 @@ impl TextCursor {
 
     /// Insert a block break (new paragraph). Replaces selection if any.
     pub fn insert_block(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let (insert_pos, removed) = if pos != anchor {
                 // Selection active: delete first, then split (Word convention)
@@ -584,9 +582,9 @@ impl TextCursor {
 
     /// Insert a document fragment at the cursor. Replaces selection if any.
     pub fn insert_fragment(&self, fragment: &DocumentFragment) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let (insert_pos, removed) = if pos != anchor {
                 undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
@@ -685,9 +683,9 @@ impl TextCursor {
 
     /// Insert an image at the cursor. Replaces selection if any.
     pub fn insert_image(&self, name: &str, width: u32, height: u32) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let (insert_pos, removed) = if pos != anchor {
                 undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
@@ -738,9 +736,9 @@ impl TextCursor {
 
     /// Insert a new frame at the cursor.
     pub fn insert_frame(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertFrameDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -771,9 +769,9 @@ impl TextCursor {
     /// The cursor moves into the first cell of the table.
     /// Returns a handle to the created table.
     pub fn insert_table(&self, rows: usize, columns: usize) -> Result<TextTable> {
-        let (pos, anchor) = self.read_cursor();
         let (table_id, queued) = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertTableDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1555,57 +1553,64 @@ impl TextCursor {
 
     /// Delete the character after the cursor (Delete key).
     pub fn delete_char(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-        let (del_pos, del_anchor) = if pos != anchor {
-            (pos, anchor)
-        } else {
-            // No-op at end of document (symmetric with delete_previous_char at start)
-            let end = {
-                let inner = self.doc.lock();
-                document_inspection_commands::get_document_stats(&inner.ctx)
+        let queued = {
+            let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+            let (del_pos, del_anchor) = if pos != anchor {
+                (pos, anchor)
+            } else {
+                // No-op at end of document (symmetric with delete_previous_char at start)
+                let end = document_inspection_commands::get_document_stats(&inner.ctx)
                     .map(|s| max_cursor_position(&s))
-                    .unwrap_or(0)
+                    .unwrap_or(0);
+                if pos >= end {
+                    return Ok(());
+                }
+                // Delete the whole grapheme cluster after the cursor so a
+                // single Delete on `👋🏻` or `e\u{0301}` removes the
+                // user-perceived character, not just its first scalar.
+                let to = next_grapheme_boundary(&inner, pos);
+                if to == pos {
+                    return Ok(());
+                }
+                (pos, to)
             };
-            if pos >= end {
-                return Ok(());
-            }
-            // Delete the whole grapheme cluster after the cursor so a
-            // single Delete on `👋🏻` or `e\u{0301}` removes the
-            // user-perceived character, not just its first scalar.
-            let to = self.next_grapheme_boundary(pos);
-            if to == pos {
-                return Ok(());
-            }
-            (pos, to)
+            self.do_delete(&mut inner, del_pos, del_anchor)?
         };
-        self.do_delete(del_pos, del_anchor)
+        crate::inner::dispatch_queued_events(queued);
+        Ok(())
     }
 
     /// Delete the character before the cursor (Backspace key).
     pub fn delete_previous_char(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-        let (del_pos, del_anchor) = if pos != anchor {
-            (pos, anchor)
-        } else if pos > 0 {
-            let from = self.prev_grapheme_boundary(pos);
-            if from == pos {
+        let queued = {
+            let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+            let (del_pos, del_anchor) = if pos != anchor {
+                (pos, anchor)
+            } else if pos > 0 {
+                let from = prev_grapheme_boundary(&inner, pos);
+                if from == pos {
+                    return Ok(());
+                }
+                (from, pos)
+            } else {
                 return Ok(());
-            }
-            (from, pos)
-        } else {
-            return Ok(());
+            };
+            self.do_delete(&mut inner, del_pos, del_anchor)?
         };
-        self.do_delete(del_pos, del_anchor)
+        crate::inner::dispatch_queued_events(queued);
+        Ok(())
     }
 
     /// Delete the selected text. Returns the deleted text. No-op if no selection.
     pub fn remove_selected_text(&self) -> Result<String> {
-        let (pos, anchor) = self.read_cursor();
-        if pos == anchor {
-            return Ok(String::new());
-        }
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+            if pos == anchor {
+                return Ok(String::new());
+            }
             let dto = frontend::document_editing::DeleteTextDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1661,9 +1666,9 @@ impl TextCursor {
 
     /// Turn the block(s) in the selection into a list.
     pub fn create_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::CreateListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1686,9 +1691,9 @@ impl TextCursor {
 
     /// Insert a new list item at the cursor position.
     pub fn insert_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1901,9 +1906,9 @@ impl TextCursor {
 
     /// Set the character format for the selection.
     pub fn set_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_text_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1922,9 +1927,9 @@ impl TextCursor {
 
     /// Merge a character format into the selection.
     pub fn merge_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_merge_dto(pos, anchor);
             document_formatting_commands::merge_text_format(
                 &inner.ctx,
@@ -1947,9 +1952,9 @@ impl TextCursor {
 
     /// Set the block format for the current block (or all blocks in selection).
     pub fn set_block_format(&self, format: &BlockFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_block_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1968,9 +1973,9 @@ impl TextCursor {
 
     /// Set the frame format.
     pub fn set_frame_format(&self, frame_id: usize, format: &FrameFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor, frame_id);
             document_formatting_commands::set_frame_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -2021,39 +2026,39 @@ impl TextCursor {
         inner.take_queued_events()
     }
 
-    fn do_delete(&self, pos: usize, anchor: usize) -> Result<()> {
-        let queued = {
-            let mut inner = self.doc.lock();
-            let dto = frontend::document_editing::DeleteTextDto {
-                position: to_i64(pos),
-                anchor: to_i64(anchor),
-            };
-            let result =
-                document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            let new_pos = to_usize(result.new_position);
-            inner.adjust_cursors(edit_pos, removed, 0);
-            {
-                let mut d = self.data.lock();
-                d.position = new_pos;
-                d.anchor = new_pos;
-            }
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_affected(edit_pos);
-            inner.queue_event(DocumentEvent::ContentsChanged {
-                position: edit_pos,
-                chars_removed: removed,
-                chars_added: 0,
-                blocks_affected: 1,
-            });
-            inner.check_block_count_changed();
-            inner.check_flow_changed();
-            self.queue_undo_redo_event(&mut inner)
+    fn do_delete(
+        &self,
+        inner: &mut TextDocumentInner,
+        pos: usize,
+        anchor: usize,
+    ) -> Result<QueuedEvents> {
+        let dto = frontend::document_editing::DeleteTextDto {
+            position: to_i64(pos),
+            anchor: to_i64(anchor),
         };
-        crate::inner::dispatch_queued_events(queued);
-        Ok(())
+        let result =
+            document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &dto)?;
+        let edit_pos = pos.min(anchor);
+        let removed = pos.max(anchor) - edit_pos;
+        let new_pos = to_usize(result.new_position);
+        inner.adjust_cursors(edit_pos, removed, 0);
+        {
+            let mut d = self.data.lock();
+            d.position = new_pos;
+            d.anchor = new_pos;
+        }
+        inner.modified = true;
+        inner.invalidate_text_cache();
+        inner.rehighlight_affected(edit_pos);
+        inner.queue_event(DocumentEvent::ContentsChanged {
+            position: edit_pos,
+            chars_removed: removed,
+            chars_added: 0,
+            blocks_affected: 1,
+        });
+        inner.check_block_count_changed();
+        inner.check_flow_changed();
+        Ok(self.queue_undo_redo_event(inner))
     }
 
     /// Resolve a MoveOperation to a concrete position.
@@ -2071,7 +2076,7 @@ impl TextCursor {
             MoveOperation::NextCharacter | MoveOperation::Right => {
                 let mut cur = pos;
                 for _ in 0..n {
-                    let next = self.next_grapheme_boundary(cur);
+                    let next = next_grapheme_boundary(&self.doc.lock(), cur);
                     if next == cur {
                         break;
                     }
@@ -2082,7 +2087,7 @@ impl TextCursor {
             MoveOperation::PreviousCharacter | MoveOperation::Left => {
                 let mut cur = pos;
                 for _ in 0..n {
-                    let prev = self.prev_grapheme_boundary(cur);
+                    let prev = prev_grapheme_boundary(&self.doc.lock(), cur);
                     if prev == cur {
                         break;
                     }
@@ -2291,101 +2296,6 @@ impl TextCursor {
         block_start + acc
     }
 
-    /// Return the cursor position after advancing one extended grapheme
-    /// cluster from `pos`. A grapheme cluster is what a user perceives
-    /// as a single character — decomposed accents (`e` + `U+0301`),
-    /// skin-tone emoji, ZWJ sequences, and regional-indicator flags
-    /// are all single clusters even though they contain multiple
-    /// Unicode scalars.
-    ///
-    /// Block separators (the single scalar between blocks in the
-    /// cursor-position space) are treated as their own unit: advancing
-    /// from the end of a block goes to the start of the next block
-    /// (one scalar forward) without touching the grapheme path.
-    /// Returns `pos` unchanged when already at the document end.
-    fn next_grapheme_boundary(&self, pos: usize) -> usize {
-        let inner = self.doc.lock();
-        let end = document_inspection_commands::get_document_stats(&inner.ctx)
-            .map(|s| max_cursor_position(&s))
-            .unwrap_or(pos);
-        if pos >= end {
-            return pos;
-        }
-        let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info =
-            match document_inspection_commands::get_block_at_position(&inner.ctx, &block_dto) {
-                Ok(info) => info,
-                Err(_) => return pos + 1,
-            };
-        let block_start = to_usize(block_info.block_start);
-        let block_length = to_usize(block_info.block_length);
-        let offset_in_block = pos.saturating_sub(block_start);
-        if offset_in_block >= block_length {
-            // At block end — advance across the separator into the
-            // next block.
-            return (pos + 1).min(end);
-        }
-        let text_dto = frontend::document_inspection::GetTextAtPositionDto {
-            position: to_i64(pos),
-            length: to_i64(block_length - offset_in_block),
-        };
-        let text = match document_inspection_commands::get_text_at_position(&inner.ctx, &text_dto) {
-            Ok(r) => r.text,
-            Err(_) => return pos + 1,
-        };
-        drop(inner);
-        match text.graphemes(true).next() {
-            Some(g) if !g.is_empty() => (pos + g.chars().count()).min(end),
-            _ => (pos + 1).min(end),
-        }
-    }
-
-    /// Return the cursor position before the extended grapheme cluster
-    /// that ends at `pos`. Counterpart to [`Self::next_grapheme_boundary`].
-    /// Crosses block separators one scalar at a time.
-    fn prev_grapheme_boundary(&self, pos: usize) -> usize {
-        if pos == 0 {
-            return 0;
-        }
-        let inner = self.doc.lock();
-        let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos.saturating_sub(1)),
-        };
-        let block_info =
-            match document_inspection_commands::get_block_at_position(&inner.ctx, &block_dto) {
-                Ok(info) => info,
-                Err(_) => return pos - 1,
-            };
-        let block_start = to_usize(block_info.block_start);
-        let block_length = to_usize(block_info.block_length);
-        let block_end = block_start + block_length;
-        // If `pos` sits past the block text (on a separator), step back
-        // one scalar rather than running grapheme analysis across a
-        // boundary.
-        if pos > block_end {
-            return pos - 1;
-        }
-        if block_length == 0 || pos <= block_start {
-            return pos.saturating_sub(1);
-        }
-        let scan_len = pos - block_start;
-        let text_dto = frontend::document_inspection::GetTextAtPositionDto {
-            position: to_i64(block_start),
-            length: to_i64(scan_len),
-        };
-        let text = match document_inspection_commands::get_text_at_position(&inner.ctx, &text_dto) {
-            Ok(r) => r.text,
-            Err(_) => return pos - 1,
-        };
-        drop(inner);
-        match text.graphemes(true).next_back() {
-            Some(g) if !g.is_empty() => pos - g.chars().count(),
-            _ => pos - 1,
-        }
-    }
-
     /// Find the word boundaries around `pos`. Returns (start, end).
     /// Uses Unicode word segmentation for correct handling of non-ASCII text.
     ///
@@ -2447,3 +2357,94 @@ impl TextCursor {
         (pos, pos)
     }
 }
+
+/// Return the cursor position after advancing one extended grapheme
+/// cluster from `pos`. A grapheme cluster is what a user perceives
+/// as a single character — decomposed accents (`e` + `U+0301`),
+/// skin-tone emoji, ZWJ sequences, and regional-indicator flags
+/// are all single clusters even though they contain multiple
+/// Unicode scalars.
+///
+/// Block separators (the single scalar between blocks in the
+/// cursor-position space) are treated as their own unit: advancing
+/// from the end of a block goes to the start of the next block
+/// (one scalar forward) without touching the grapheme path.
+/// Returns `pos` unchanged when already at the document end.
+fn next_grapheme_boundary(inner: &TextDocumentInner, pos: usize) -> usize {
+    let end = document_inspection_commands::get_document_stats(&inner.ctx)
+        .map(|s| max_cursor_position(&s))
+        .unwrap_or(pos);
+    if pos >= end {
+        return pos;
+    }
+    let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
+        position: to_i64(pos),
+    };
+    let block_info =
+        match document_inspection_commands::get_block_at_position(&inner.ctx, &block_dto) {
+            Ok(info) => info,
+            Err(_) => return pos + 1,
+        };
+    let block_start = to_usize(block_info.block_start);
+    let block_length = to_usize(block_info.block_length);
+    let offset_in_block = pos.saturating_sub(block_start);
+    if offset_in_block >= block_length {
+        // At block end — advance across the separator into the
+        // next block.
+        return (pos + 1).min(end);
+    }
+    let text_dto = frontend::document_inspection::GetTextAtPositionDto {
+        position: to_i64(pos),
+        length: to_i64(block_length - offset_in_block),
+    };
+    let text = match document_inspection_commands::get_text_at_position(&inner.ctx, &text_dto) {
+        Ok(r) => r.text,
+        Err(_) => return pos + 1,
+    };
+    match text.graphemes(true).next() {
+        Some(g) if !g.is_empty() => (pos + g.chars().count()).min(end),
+        _ => (pos + 1).min(end),
+    }
+}
+
+/// Return the cursor position before the extended grapheme cluster
+/// that ends at `pos`. Counterpart to [`next_grapheme_boundary`].
+/// Crosses block separators one scalar at a time.
+fn prev_grapheme_boundary(inner: &TextDocumentInner, pos: usize) -> usize {
+    if pos == 0 {
+        return 0;
+    }
+    let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
+        position: to_i64(pos.saturating_sub(1)),
+    };
+    let block_info =
+        match document_inspection_commands::get_block_at_position(&inner.ctx, &block_dto) {
+            Ok(info) => info,
+            Err(_) => return pos - 1,
+        };
+    let block_start = to_usize(block_info.block_start);
+    let block_length = to_usize(block_info.block_length);
+    let block_end = block_start + block_length;
+    // If `pos` sits past the block text (on a separator), step back
+    // one scalar rather than running grapheme analysis across a
+    // boundary.
+    if pos > block_end {
+        return pos - 1;
+    }
+    if block_length == 0 || pos <= block_start {
+        return pos.saturating_sub(1);
+    }
+    let scan_len = pos - block_start;
+    let text_dto = frontend::document_inspection::GetTextAtPositionDto {
+        position: to_i64(block_start),
+        length: to_i64(scan_len),
+    };
+    let text = match document_inspection_commands::get_text_at_position(&inner.ctx, &text_dto) {
+        Ok(r) => r.text,
+        Err(_) => return pos - 1,
+    };
+    match text.graphemes(true).next_back() {
+        Some(g) if !g.is_empty() => pos - g.chars().count(),
+        _ => pos - 1,
+    }
+}
-- 
2.43.0


From d43f868a0ef2bdedade23f479797d94de4b2107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:50 +0000
Subject: [PATCH 13/57] fix: put the cursor after a block inserted into the
 middle of another

---
 crates/document_editing/src/use_cases/insert_fragment_uc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index ee07f69..bbfae82 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -2299,8 +2299,10 @@ fn execute_insert_fragment(
                 left_images.clone(),
             );
 
+            // The rope still holds the unsplit block; the head is what is
+            // before the insertion point.
             let mut running_position =
-                current_block.document_position + block_char_length(&updated_current, &store) + 1;
+                current_block.document_position + text_before_chars + left_image_count + 1;
 
             let list_id = if let Some(ref frag_list) = frag_block.list {
                 let list = frag_list.to_entity();
-- 
2.43.0


From 76aa2ad34228480abb2c5efc6b9ff113450cf078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:50 +0000
Subject: [PATCH 14/57] fix: shift the other cursors past the separator a
 fragment inserts

---
 crates/public_api/src/cursor.rs | 39 ++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 51cccd7..72aabce 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -39,6 +39,13 @@ fn max_cursor_position(stats: &frontend::document_inspection::DocumentStatsDto)
     }
 }
 
+/// The largest valid cursor position of the document.
+fn document_end(inner: &TextDocumentInner) -> usize {
+    document_inspection_commands::get_document_stats(&inner.ctx)
+        .map(|s| max_cursor_position(&s))
+        .unwrap_or(0)
+}
+
 /// A cursor into a [`TextDocument`](crate::TextDocument).
 ///
 /// Multiple cursors can coexist on the same document (like Qt's `QTextCursor`).
@@ -112,6 +119,30 @@ impl TextCursor {
         // 0 chars rather than overflowing; the cursor still moves to
         // `new_pos` below.
         let added = new_pos.saturating_sub(edit_pos);
+        self.finish_edit_added(
+            inner,
+            edit_pos,
+            removed,
+            added,
+            new_pos,
+            blocks_affected,
+            flow_may_change,
+        )
+    }
+
+    /// As [`Self::finish_edit_ext`], for an insertion that reaches beyond the
+    /// new cursor position.
+    #[allow(clippy::too_many_arguments)]
+    fn finish_edit_added(
+        &self,
+        inner: &mut TextDocumentInner,
+        edit_pos: usize,
+        removed: usize,
+        added: usize,
+        new_pos: usize,
+        blocks_affected: usize,
+        flow_may_change: bool,
+    ) -> QueuedEvents {
         inner.adjust_cursors(edit_pos, removed, added);
         {
             let mut d = self.data.lock();
@@ -610,20 +641,26 @@ impl TextCursor {
                 anchor: to_i64(insert_pos),
                 fragment_data: fragment.raw_data().into(),
             };
+            let end_before = document_end(&inner);
             let result =
                 document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)?;
+            // The cursor stops at the end of the inserted text, which may be
+            // followed by an inserted block separator.
+            let added = document_end(&inner).saturating_sub(end_before);
 
             if pos != anchor {
                 undo_redo_commands::end_composite(&inner.ctx);
             }
 
             let edit_pos = pos.min(anchor);
-            self.finish_edit(
+            self.finish_edit_added(
                 &mut inner,
                 edit_pos,
                 removed,
+                added,
                 to_usize(result.new_position),
                 to_usize(result.blocks_added),
+                true,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From 34b78a6a6fefd142fea4813699fb995e12e6cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:16 +0000
Subject: [PATCH 15/57] fix: count the block a new document starts with

---
 crates/public_api/src/inner.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index f749e8a..a6b0511 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -415,6 +415,15 @@ impl TextDocumentInner {
         frame_update.child_order = vec![block.id as i64];
         frame_commands::update_frame(&ctx, Some(stack_id), &frame_update)?;
 
+        // Count the initial block: the generic CRUD commands don't maintain
+        // the document's cached counts.
+        let mut doc_update: frontend::document::dtos::UpdateDocumentDto =
+            document_commands::get_document(&ctx, &doc.id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?
+                .into();
+        doc_update.block_count = 1;
+        document_commands::update_document(&ctx, Some(stack_id), &doc_update)?;
+
         // Clear undo stack — initialization shouldn't be undoable
         undo_redo_commands::clear_stack(&ctx, stack_id);
 
-- 
2.43.0


From b697834bece77986eda694dcc2f6433c39b441ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 16/57] fix: announce the blocks removed or added by an
 insertion

---
 crates/public_api/src/cursor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 72aabce..11070fc 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -476,7 +476,8 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 to_usize(result.blocks_affected),
-                false,
+                // Replacing a selection may remove blocks.
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -541,7 +542,8 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                // Replacing a selection may remove blocks.
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -764,7 +766,8 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                // Replacing a selection may remove blocks.
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -1741,7 +1744,7 @@ impl TextCursor {
             // The list item goes after the current block and the selection is
             // kept: the edit is one block separator, just before the new item.
             let new_pos = to_usize(result.new_position);
-            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, false)
+            self.finish_edit(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From 1a1a262cf99be04f822c7a4beb3f16272288cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 17/57] fix: announce undo availability wherever it changes

---
 crates/public_api/src/cursor.rs   |  12 ++--
 crates/public_api/src/document.rs | 112 ++++++++++++++++++------------
 crates/public_api/src/inner.rs    |   8 +++
 3 files changed, 81 insertions(+), 51 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 11070fc..36ce368 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2042,8 +2042,12 @@ impl TextCursor {
 
     /// End the current edit block.
     pub fn end_edit_block(&self) {
-        let inner = self.doc.lock();
-        undo_redo_commands::end_composite(&inner.ctx);
+        let queued = {
+            let mut inner = self.doc.lock();
+            undo_redo_commands::end_composite(&inner.ctx);
+            self.queue_undo_redo_event(&mut inner)
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     /// Alias for [`begin_edit_block`](Self::begin_edit_block).
@@ -2060,9 +2064,7 @@ impl TextCursor {
 
     /// Queue an `UndoRedoChanged` event and return all queued events for dispatch.
     fn queue_undo_redo_event(&self, inner: &mut TextDocumentInner) -> QueuedEvents {
-        let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
-        let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
-        inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
+        inner.queue_undo_redo_changed();
         inner.take_queued_events()
     }
 
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index ca6a3f2..49de0d1 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -724,10 +724,9 @@ impl TextDocument {
                 });
                 inner.check_block_count_changed();
                 inner.check_flow_changed();
-                let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
-                let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
-                inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
             }
+            // Even a replacement without a match enters the history.
+            inner.queue_undo_redo_changed();
             (count, inner.take_queued_events())
         };
         crate::inner::dispatch_queued_events(queued);
@@ -744,24 +743,29 @@ impl TextDocument {
         mime_type: &str,
         data: &[u8],
     ) -> Result<()> {
-        let mut inner = self.inner.lock();
-        let dto = frontend::resource::dtos::CreateResourceDto {
-            created_at: Default::default(),
-            updated_at: Default::default(),
-            resource_type,
-            name: name.into(),
-            url: String::new(),
-            mime_type: mime_type.into(),
-            data_base64: BASE64.encode(data),
+        let queued = {
+            let mut inner = self.inner.lock();
+            let dto = frontend::resource::dtos::CreateResourceDto {
+                created_at: Default::default(),
+                updated_at: Default::default(),
+                resource_type,
+                name: name.into(),
+                url: String::new(),
+                mime_type: mime_type.into(),
+                data_base64: BASE64.encode(data),
+            };
+            let created = resource_commands::create_resource(
+                &inner.ctx,
+                Some(inner.stack_id),
+                &dto,
+                inner.document_id,
+                -1,
+            )?;
+            inner.resource_cache.insert(name.to_string(), created.id);
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
         };
-        let created = resource_commands::create_resource(
-            &inner.ctx,
-            Some(inner.stack_id),
-            &dto,
-            inner.document_id,
-            -1,
-        )?;
-        inner.resource_cache.insert(name.to_string(), created.id);
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -808,9 +812,7 @@ impl TextDocument {
             emit_undo_redo_change_events(&mut inner, &before);
             inner.check_block_count_changed();
             inner.check_flow_changed();
-            let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
-            let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
-            inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
+            inner.queue_undo_redo_changed();
             inner.take_queued_events()
         };
         crate::inner::dispatch_queued_events(queued);
@@ -831,9 +833,7 @@ impl TextDocument {
             emit_undo_redo_change_events(&mut inner, &before);
             inner.check_block_count_changed();
             inner.check_flow_changed();
-            let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
-            let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
-            inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
+            inner.queue_undo_redo_changed();
             inner.take_queued_events()
         };
         crate::inner::dispatch_queued_events(queued);
@@ -854,8 +854,13 @@ impl TextDocument {
 
     /// Clear all undo/redo history.
     pub fn clear_undo_redo(&self) {
-        let inner = self.inner.lock();
-        undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+        let queued = {
+            let mut inner = self.inner.lock();
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     // ── Modified state ───────────────────────────────────────
@@ -892,12 +897,17 @@ impl TextDocument {
 
     /// Set the document title.
     pub fn set_title(&self, title: &str) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.title = title.into();
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.title = title.into();
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -913,12 +923,17 @@ impl TextDocument {
 
     /// Set the text direction.
     pub fn set_text_direction(&self, direction: TextDirection) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.text_direction = direction;
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.text_direction = direction;
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -934,12 +949,17 @@ impl TextDocument {
 
     /// Set the default wrap mode.
     pub fn set_default_wrap_mode(&self, mode: WrapMode) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.default_wrap_mode = mode;
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.default_wrap_mode = mode;
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index a6b0511..171cd4c 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -255,6 +255,14 @@ impl TextDocumentInner {
             .any(|id| manager.get_settled_status(id).is_none())
     }
 
+    /// Queue an `UndoRedoChanged` event carrying the current availability.
+    pub fn queue_undo_redo_changed(&mut self) {
+        use frontend::commands::undo_redo_commands;
+        let can_undo = undo_redo_commands::can_undo(&self.ctx, Some(self.stack_id));
+        let can_redo = undo_redo_commands::can_redo(&self.ctx, Some(self.stack_id));
+        self.queue_event(crate::DocumentEvent::UndoRedoChanged { can_undo, can_redo });
+    }
+
     /// Check the current block count and queue a `BlockCountChanged` event if it changed.
     pub fn check_block_count_changed(&mut self) {
         let doc = frontend::commands::document_commands::get_document(&self.ctx, &self.document_id);
-- 
2.43.0


From cc3a577ec240cacbc3f761e16c362660ae02d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:49 +0000
Subject: [PATCH 18/57] fix: announce what undo and redo really change

---
 crates/public_api/src/document.rs | 49 ++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 49de0d1..7445f28 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1054,6 +1054,8 @@ struct UndoBlockState {
     text_length: i64,
     plain_text: String,
     format: BlockFormat,
+    list: Option<u64>,
+    format_runs: Vec<common::format_runs::FormatRun>,
 }
 
 /// Capture the state of all blocks, sorted by document_position.
@@ -1066,6 +1068,14 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
         .into_iter()
         .map(|b| {
             let format = BlockFormat::from(&b);
+            let list = b.list;
+            let format_runs = store
+                .format_runs
+                .read()
+                .unwrap()
+                .get(&b.id)
+                .cloned()
+                .unwrap_or_default();
             let entity: common::entities::Block = b.clone().into();
             let plain_text =
                 common::database::rope_helpers::block_content_via_store(&entity, store);
@@ -1076,6 +1086,8 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
                 text_length,
                 plain_text,
                 format,
+                list,
+                format_runs,
             }
         })
         .collect();
@@ -1140,14 +1152,17 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     let mut new_end: usize = 0;
     let mut blocks_affected: usize = 0;
 
-    let mut format_only_changes: Vec<(usize, usize)> = Vec::new(); // (position, length)
+    // (position, length, kind)
+    let mut format_only_changes: Vec<(usize, usize, FormatChangeKind)> = Vec::new();
 
     // Check blocks present in both before and after.
     for after_state in &after {
         if let Some(before_state) = before_map.get(&after_state.id) {
             let text_changed = before_state.plain_text != after_state.plain_text
                 || before_state.text_length != after_state.text_length;
-            let format_changed = before_state.format != after_state.format;
+            let format_changed =
+                before_state.format != after_state.format || before_state.list != after_state.list;
+            let runs_changed = before_state.format_runs != after_state.format_runs;
 
             if text_changed {
                 content_changed = true;
@@ -1159,10 +1174,15 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
                         + before_state.text_length.max(0) as usize,
                 );
                 new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
-            } else if format_changed {
+            } else if format_changed || runs_changed {
                 let pos = after_state.position.max(0) as usize;
                 let len = after_state.text_length.max(0) as usize;
-                format_only_changes.push((pos, len));
+                let kind = if format_changed {
+                    FormatChangeKind::Block
+                } else {
+                    FormatChangeKind::Character
+                };
+                format_only_changes.push((pos, len, kind));
             }
         } else {
             // Block exists in after but not in before — new block from undo/redo.
@@ -1186,10 +1206,6 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     if content_changed {
-        let position = earliest_pos.unwrap_or(0);
-        let chars_removed = old_end.saturating_sub(position);
-        let chars_added = new_end.saturating_sub(position);
-
         // Use a precise text-level diff for cursor adjustment so cursors land
         // at the actual edit point rather than the end of the affected block.
         let before_text = build_doc_text(before);
@@ -1200,6 +1216,19 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             inner.adjust_cursors(edit_offset, precise_removed, precise_added);
         }
 
+        // Announce the region of the affected blocks, widened to cover the
+        // text difference: blocks that appear or disappear take a separator
+        // with them, and leave the two ends at different distances from the
+        // end of the document.
+        let before_len = before_text.chars().count();
+        let after_len = after_text.chars().count();
+        let position = earliest_pos.unwrap_or(0).min(edit_offset);
+        let untouched_after = before_len
+            .saturating_sub(old_end.max(edit_offset + precise_removed))
+            .min(after_len.saturating_sub(new_end.max(edit_offset + precise_added)));
+        let chars_removed = before_len.saturating_sub(untouched_after + position);
+        let chars_added = after_len.saturating_sub(untouched_after + position);
+
         inner.queue_event(DocumentEvent::ContentsChanged {
             position,
             chars_removed,
@@ -1209,11 +1238,11 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     // Emit FormatChanged for blocks where only formatting changed (not content).
-    for (position, length) in format_only_changes {
+    for (position, length, kind) in format_only_changes {
         inner.queue_event(DocumentEvent::FormatChanged {
             position,
             length,
-            kind: FormatChangeKind::Block,
+            kind,
         });
     }
 }
-- 
2.43.0


From 3dfbbfaaa78cb9cb90fe37884c41ede950bf1778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 19/57] fix: announce list formats changed by undo and redo

---
 crates/public_api/src/document.rs | 50 +++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 7445f28..880e46e 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -11,8 +11,8 @@ use base64::engine::general_purpose::STANDARD as BASE64;
 use crate::{ResourceType, TextDirection, WrapMode};
 use frontend::commands::{
     block_commands, document_commands, document_inspection_commands, document_io_commands,
-    document_search_commands, frame_commands, resource_commands, table_cell_commands,
-    table_commands, undo_redo_commands,
+    document_search_commands, frame_commands, list_commands, resource_commands,
+    table_cell_commands, table_commands, undo_redo_commands,
 };
 
 use crate::convert::{self, to_i64, to_usize};
@@ -21,7 +21,7 @@ use crate::events::{self, DocumentEvent, Subscription};
 use crate::flow::FormatChangeKind;
 use crate::inner::TextDocumentInner;
 use crate::operation::{DocxExportResult, HtmlImportResult, MarkdownImportResult, Operation};
-use crate::{BlockFormat, BlockInfo, DocumentStats, FindMatch, FindOptions};
+use crate::{BlockFormat, BlockInfo, DocumentStats, FindMatch, FindOptions, ListFormat};
 
 /// A rich text document.
 ///
@@ -803,13 +803,14 @@ impl TextDocument {
         let queued = {
             let mut inner = self.inner.lock();
             let before = capture_block_state(&inner);
+            let lists_before = capture_list_formats(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             // The step may have removed or restored resources.
             inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
-            emit_undo_redo_change_events(&mut inner, &before);
+            emit_undo_redo_change_events(&mut inner, &before, &lists_before);
             inner.check_block_count_changed();
             inner.check_flow_changed();
             inner.queue_undo_redo_changed();
@@ -824,13 +825,14 @@ impl TextDocument {
         let queued = {
             let mut inner = self.inner.lock();
             let before = capture_block_state(&inner);
+            let lists_before = capture_list_formats(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             // The step may have removed or restored resources.
             inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
-            emit_undo_redo_change_events(&mut inner, &before);
+            emit_undo_redo_change_events(&mut inner, &before, &lists_before);
             inner.check_block_count_changed();
             inner.check_flow_changed();
             inner.queue_undo_redo_changed();
@@ -1095,6 +1097,25 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
     states
 }
 
+/// The format of every list, by list id.
+type ListFormats = std::collections::HashMap<u64, ListFormat>;
+
+fn capture_list_formats(inner: &TextDocumentInner) -> ListFormats {
+    list_commands::get_all_list(&inner.ctx)
+        .unwrap_or_default()
+        .into_iter()
+        .map(|l| {
+            let format = ListFormat {
+                style: Some(l.style),
+                indent: Some(l.indent as u8),
+                prefix: Some(l.prefix),
+                suffix: Some(l.suffix),
+            };
+            (l.id, format)
+        })
+        .collect()
+}
+
 /// Build the full document text from sorted block states (joined with newlines).
 fn build_doc_text(states: &[UndoBlockState]) -> String {
     states
@@ -1136,7 +1157,11 @@ fn compute_text_edit(before: &str, after: &str) -> (usize, usize, usize) {
 
 /// Compare block state before and after undo/redo and emit
 /// ContentsChanged / FormatChanged events for affected regions.
-fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlockState]) {
+fn emit_undo_redo_change_events(
+    inner: &mut TextDocumentInner,
+    before: &[UndoBlockState],
+    lists_before: &ListFormats,
+) {
     let after = capture_block_state(inner);
 
     // Build a map of block id → state for the "before" set.
@@ -1245,6 +1270,19 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
             kind,
         });
     }
+
+    let lists_changed = capture_list_formats(inner).iter().any(|(id, format)| {
+        lists_before
+            .get(id)
+            .is_some_and(|old_format| old_format != format)
+    });
+    if lists_changed {
+        inner.queue_event(DocumentEvent::FormatChanged {
+            position: 0,
+            length: 0,
+            kind: FormatChangeKind::List,
+        });
+    }
 }
 
 // ── Flow helpers ──────────────────────────────────────────────
-- 
2.43.0


From 77e9857e8e327507013a316e17f70db173b76038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 20/57] fix: remove the old document's lists and tables on
 import

---
 .../src/units_of_work/import_html_uow.rs      |  2 ++
 .../src/units_of_work/import_markdown_uow.rs  |  2 ++
 .../units_of_work/import_plain_text_uow.rs    |  2 ++
 .../src/use_cases/import_html_uc.rs           | 20 ++++++++++++++++++-
 .../src/use_cases/import_markdown_uc.rs       | 20 ++++++++++++++++++-
 .../src/use_cases/import_plain_text_uc.rs     | 18 +++++++++++++++++
 6 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/units_of_work/import_html_uow.rs b/crates/document_io/src/units_of_work/import_html_uow.rs
index 461a766..4e7bedc 100644
--- a/crates/document_io/src/units_of_work/import_html_uow.rs
+++ b/crates/document_io/src/units_of_work/import_html_uow.rs
@@ -99,6 +99,8 @@ impl CommandUnitOfWork for ImportHtmlUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
diff --git a/crates/document_io/src/units_of_work/import_markdown_uow.rs b/crates/document_io/src/units_of_work/import_markdown_uow.rs
index 2f8ccc6..dfb145b 100644
--- a/crates/document_io/src/units_of_work/import_markdown_uow.rs
+++ b/crates/document_io/src/units_of_work/import_markdown_uow.rs
@@ -104,6 +104,8 @@ impl CommandUnitOfWork for ImportMarkdownUnitOfWork {
 )]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
diff --git a/crates/document_io/src/units_of_work/import_plain_text_uow.rs b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
index ee2abd4..f908742 100644
--- a/crates/document_io/src/units_of_work/import_plain_text_uow.rs
+++ b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
@@ -96,6 +96,8 @@ impl CommandUnitOfWork for ImportPlainTextUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "List", action = "Remove")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
 impl ImportPlainTextUnitOfWorkTrait for ImportPlainTextUnitOfWork {}
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 1e6d724..76c2c8e 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -32,6 +32,8 @@ pub trait ImportHtmlUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
@@ -96,7 +98,7 @@ impl LongOperation for ImportHtmlUseCase {
             .first()
             .ok_or_else(|| anyhow!("Root has no associated Document"))?;
 
-        // Step 2: Remove existing frames
+        // Step 2: Remove existing frames, lists and tables
         let frame_ids = uow.get_document_relationship(
             &doc_id,
             &common::direct_access::document::DocumentRelationshipField::Frames,
@@ -105,6 +107,22 @@ impl LongOperation for ImportHtmlUseCase {
             uow.remove_frame(frame_id)?;
         }
 
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
+
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
+
         if cancel_flag.load(Ordering::Relaxed) {
             uow.rollback()?;
             return Err(anyhow!("Operation was cancelled"));
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index cb6e719..41ea9f9 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -33,6 +33,8 @@ pub trait ImportMarkdownUnitOfWorkFactoryTrait: Send + Sync {
 )]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
@@ -83,7 +85,7 @@ fn import_parsed_elements(
         .first()
         .ok_or_else(|| anyhow!("Root has no associated Document"))?;
 
-    // Step 2: Remove existing frames
+    // Step 2: Remove existing frames, lists and tables
     let frame_ids = uow.get_document_relationship(
         &doc_id,
         &common::direct_access::document::DocumentRelationshipField::Frames,
@@ -92,6 +94,22 @@ fn import_parsed_elements(
         uow.remove_frame(frame_id)?;
     }
 
+    let list_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Lists,
+    )?;
+    for list_id in &list_ids {
+        uow.remove_list(list_id)?;
+    }
+
+    let table_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Tables,
+    )?;
+    for table_id in &table_ids {
+        uow.remove_table(table_id)?;
+    }
+
     if cancel_flag.load(Ordering::Relaxed) {
         return Err(anyhow!("Operation was cancelled"));
     }
diff --git a/crates/document_io/src/use_cases/import_plain_text_uc.rs b/crates/document_io/src/use_cases/import_plain_text_uc.rs
index 168e6c4..c6b0416 100644
--- a/crates/document_io/src/use_cases/import_plain_text_uc.rs
+++ b/crates/document_io/src/use_cases/import_plain_text_uc.rs
@@ -20,6 +20,8 @@ pub trait ImportPlainTextUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "List", action = "Remove")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
 pub trait ImportPlainTextUnitOfWorkTrait: CommandUnitOfWork {}
@@ -57,6 +59,22 @@ impl ImportPlainTextUseCase {
             uow.remove_frame(frame_id)?;
         }
 
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
+
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
+
         let new_frame = Frame::default();
         let created_frame = uow.create_frame(&new_frame, doc_id, -1)?;
 
-- 
2.43.0


From bd066dcb86acd21fffde2d6a8978f989e658abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 21/57] fix: build imported content aside and publish it at
 once

Importing Markdown or HTML rebuilt the live store on the operation's thread
without the document lock, so anything done to the document meanwhile
(edits, reads, exports, another import) saw or corrupted a half built
document. Imports now work on a private copy which replaces the content
under the document lock; DOCX export reads a copy taken when it starts.
---
 crates/common/src/database/db_context.rs      |  8 +++
 crates/common/src/database/rope_store.rs      | 71 ++++++++++++++++++-
 .../src/units_of_work/export_docx_uow.rs      |  3 +-
 .../src/units_of_work/import_html_uow.rs      | 20 ++++--
 .../src/units_of_work/import_markdown_uow.rs  | 15 +++-
 crates/public_api/src/document.rs             | 24 ++++---
 crates/public_api/src/inner.rs                | 46 ++++--------
 7 files changed, 137 insertions(+), 50 deletions(-)

diff --git a/crates/common/src/database/db_context.rs b/crates/common/src/database/db_context.rs
index a54a5c1..a858942 100644
--- a/crates/common/src/database/db_context.rs
+++ b/crates/common/src/database/db_context.rs
@@ -16,6 +16,14 @@ impl DbContext {
         })
     }
 
+    /// A private copy of the current content. Long operations work on one,
+    /// so that they neither see nor disturb what happens meanwhile.
+    pub fn fork(&self) -> Self {
+        DbContext {
+            store: Arc::new(self.store.fork()),
+        }
+    }
+
     pub fn get_store(&self) -> &Arc<Store> {
         &self.store
     }
diff --git a/crates/common/src/database/rope_store.rs b/crates/common/src/database/rope_store.rs
index 06d642e..86389db 100644
--- a/crates/common/src/database/rope_store.rs
+++ b/crates/common/src/database/rope_store.rs
@@ -15,7 +15,7 @@ use crate::types::EntityId;
 use im::HashMap;
 use ropey::Rope;
 use std::collections::HashMap as StdHashMap;
-use std::sync::RwLock;
+use std::sync::{Arc, RwLock};
 
 // ─────────────────────────────────────────────────────────────────────────────
 // The Store
@@ -50,6 +50,20 @@ pub struct RopeStore {
     // ── Savepoints (in-memory, transaction-scoped) ────────────────────
     savepoints: RwLock<StdHashMap<u64, RopeStoreSnapshot>>,
     next_savepoint_id: RwLock<u64>,
+
+    // ── Replacement of the whole content by a long operation ──────────
+    content_publisher: RwLock<Option<ContentPublisher>>,
+}
+
+/// Runs the given replacement of the content at a moment when nobody else is
+/// using the store.
+#[derive(Clone)]
+struct ContentPublisher(Arc<dyn Fn(&dyn Fn()) + Send + Sync>);
+
+impl std::fmt::Debug for ContentPublisher {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.write_str("ContentPublisher")
+    }
 }
 
 impl RopeStore {
@@ -114,6 +128,61 @@ impl RopeStore {
         // counters intentionally not restored
     }
 
+    /// A separate store with the same content.
+    pub fn fork(&self) -> Self {
+        let fork = Self::default();
+        fork.restore(&self.snapshot());
+        fork
+    }
+
+    /// Let `publisher` decide when the result of a long operation replaces
+    /// the content. It must call the function it is given exactly once.
+    pub fn set_content_publisher<F>(&self, publisher: F)
+    where
+        F: Fn(&dyn Fn()) + Send + Sync + 'static,
+    {
+        *self.content_publisher.write().unwrap() = Some(ContentPublisher(Arc::new(publisher)));
+    }
+
+    /// Replace the content by that of `fork`, all at once.
+    pub fn publish_content(&self, fork: &RopeStore) {
+        let publisher = self.content_publisher.read().unwrap().clone();
+        let replace = || self.replace_content(fork.snapshot());
+        match publisher {
+            Some(publisher) => (publisher.0)(&replace),
+            None => replace(),
+        }
+    }
+
+    /// Take over the text and its structure. The document's properties and
+    /// resources, which are no part of its content, stay.
+    fn replace_content(&self, snap: RopeStoreSnapshot) {
+        *self.rope.write().unwrap() = snap.rope;
+        *self.frames.write().unwrap() = snap.frames;
+        *self.blocks.write().unwrap() = snap.blocks;
+        *self.lists.write().unwrap() = snap.lists;
+        *self.tables.write().unwrap() = snap.tables;
+        *self.table_cells.write().unwrap() = snap.table_cells;
+        *self.format_runs.write().unwrap() = snap.format_runs;
+        *self.block_images.write().unwrap() = snap.block_images;
+        *self.block_offsets.write().unwrap() = snap.block_offsets;
+        let mut documents = self.documents.write().unwrap();
+        for (id, imported) in snap.documents {
+            if let Some(document) = documents.get_mut(&id) {
+                document.frames = imported.frames;
+                document.lists = imported.lists;
+                document.tables = imported.tables;
+                document.character_count = imported.character_count;
+                document.block_count = imported.block_count;
+            }
+        }
+        let mut counters = self.counters.write().unwrap();
+        for (name, next) in snap.counters {
+            let counter = counters.entry(name).or_insert(next);
+            *counter = next.max(*counter);
+        }
+    }
+
     pub fn create_savepoint(&self) -> u64 {
         let snap = self.snapshot();
         let mut id_counter = self.next_savepoint_id.write().unwrap();
diff --git a/crates/document_io/src/units_of_work/export_docx_uow.rs b/crates/document_io/src/units_of_work/export_docx_uow.rs
index 75d9d65..d865d3b 100644
--- a/crates/document_io/src/units_of_work/export_docx_uow.rs
+++ b/crates/document_io/src/units_of_work/export_docx_uow.rs
@@ -66,7 +66,8 @@ pub struct ExportDocxUnitOfWorkFactory {
 impl ExportDocxUnitOfWorkFactory {
     pub fn new(db_context: &DbContext) -> Self {
         ExportDocxUnitOfWorkFactory {
-            context: db_context.clone(),
+            // The document as it is now, whatever happens during the export.
+            context: db_context.fork(),
         }
     }
 }
diff --git a/crates/document_io/src/units_of_work/import_html_uow.rs b/crates/document_io/src/units_of_work/import_html_uow.rs
index 4e7bedc..43565fd 100644
--- a/crates/document_io/src/units_of_work/import_html_uow.rs
+++ b/crates/document_io/src/units_of_work/import_html_uow.rs
@@ -17,16 +17,19 @@ use std::sync::Arc;
 use std::sync::Mutex;
 
 pub struct ImportHtmlUnitOfWork {
+    /// Private copy of `target` in which the new content is built.
     context: DbContext,
+    target: DbContext,
     transaction: Mutex<Option<Transaction>>,
     event_hub: Arc<EventHub>,
     event_buffer: Mutex<EventBuffer>,
 }
 
 impl ImportHtmlUnitOfWork {
-    pub fn new(db_context: &DbContext, event_hub: &Arc<EventHub>) -> Self {
+    pub fn new(context: &DbContext, target: &DbContext, event_hub: &Arc<EventHub>) -> Self {
         ImportHtmlUnitOfWork {
-            context: db_context.clone(),
+            context: context.clone(),
+            target: target.clone(),
             transaction: Mutex::new(None),
             event_hub: event_hub.clone(),
             event_buffer: Mutex::new(EventBuffer::new()),
@@ -46,6 +49,9 @@ impl CommandUnitOfWork for ImportHtmlUnitOfWork {
         let mut transaction = self.transaction.lock().unwrap();
         transaction.take().unwrap().commit()?;
         drop(transaction); // release lock before flushing events
+        self.target
+            .get_store()
+            .publish_content(self.context.get_store());
         for event in self.event_buffer.lock().unwrap().flush() {
             self.event_hub.send_event(event);
         }
@@ -111,13 +117,15 @@ impl ImportHtmlUnitOfWorkTrait for ImportHtmlUnitOfWork {}
 
 pub struct ImportHtmlUnitOfWorkFactory {
     context: DbContext,
+    target: DbContext,
     event_hub: Arc<EventHub>,
 }
 
 impl ImportHtmlUnitOfWorkFactory {
     pub fn new(db_context: &DbContext, event_hub: &Arc<EventHub>) -> Self {
         ImportHtmlUnitOfWorkFactory {
-            context: db_context.clone(),
+            context: db_context.fork(),
+            target: db_context.clone(),
             event_hub: event_hub.clone(),
         }
     }
@@ -125,6 +133,10 @@ impl ImportHtmlUnitOfWorkFactory {
 
 impl ImportHtmlUnitOfWorkFactoryTrait for ImportHtmlUnitOfWorkFactory {
     fn create(&self) -> Box<dyn ImportHtmlUnitOfWorkTrait> {
-        Box::new(ImportHtmlUnitOfWork::new(&self.context, &self.event_hub))
+        Box::new(ImportHtmlUnitOfWork::new(
+            &self.context,
+            &self.target,
+            &self.event_hub,
+        ))
     }
 }
diff --git a/crates/document_io/src/units_of_work/import_markdown_uow.rs b/crates/document_io/src/units_of_work/import_markdown_uow.rs
index dfb145b..faae8cb 100644
--- a/crates/document_io/src/units_of_work/import_markdown_uow.rs
+++ b/crates/document_io/src/units_of_work/import_markdown_uow.rs
@@ -17,16 +17,19 @@ use std::sync::Arc;
 use std::sync::Mutex;
 
 pub struct ImportMarkdownUnitOfWork {
+    /// Private copy of `target` in which the new content is built.
     context: DbContext,
+    target: DbContext,
     transaction: Mutex<Option<Transaction>>,
     event_hub: Arc<EventHub>,
     event_buffer: Mutex<EventBuffer>,
 }
 
 impl ImportMarkdownUnitOfWork {
-    pub fn new(db_context: &DbContext, event_hub: &Arc<EventHub>) -> Self {
+    pub fn new(context: &DbContext, target: &DbContext, event_hub: &Arc<EventHub>) -> Self {
         ImportMarkdownUnitOfWork {
-            context: db_context.clone(),
+            context: context.clone(),
+            target: target.clone(),
             transaction: Mutex::new(None),
             event_hub: event_hub.clone(),
             event_buffer: Mutex::new(EventBuffer::new()),
@@ -46,6 +49,9 @@ impl CommandUnitOfWork for ImportMarkdownUnitOfWork {
         let mut transaction = self.transaction.lock().unwrap();
         transaction.take().unwrap().commit()?;
         drop(transaction); // release lock before flushing events
+        self.target
+            .get_store()
+            .publish_content(self.context.get_store());
         for event in self.event_buffer.lock().unwrap().flush() {
             self.event_hub.send_event(event);
         }
@@ -115,13 +121,15 @@ impl ImportMarkdownUnitOfWorkTrait for ImportMarkdownUnitOfWork {}
 
 pub struct ImportMarkdownUnitOfWorkFactory {
     context: DbContext,
+    target: DbContext,
     event_hub: Arc<EventHub>,
 }
 
 impl ImportMarkdownUnitOfWorkFactory {
     pub fn new(db_context: &DbContext, event_hub: &Arc<EventHub>) -> Self {
         ImportMarkdownUnitOfWorkFactory {
-            context: db_context.clone(),
+            context: db_context.fork(),
+            target: db_context.clone(),
             event_hub: event_hub.clone(),
         }
     }
@@ -131,6 +139,7 @@ impl ImportMarkdownUnitOfWorkFactoryTrait for ImportMarkdownUnitOfWorkFactory {
     fn create(&self) -> Box<dyn ImportMarkdownUnitOfWorkTrait> {
         Box::new(ImportMarkdownUnitOfWork::new(
             &self.context,
+            &self.target,
             &self.event_hub,
         ))
     }
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 880e46e..22d876d 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -69,10 +69,23 @@ impl TextDocument {
 
         // Bridge backend long-operation events to public DocumentEvent.
         Self::subscribe_long_operation_events(&inner);
+        Self::publish_imports_under_lock(&inner);
 
         Ok(Self { inner })
     }
 
+    /// Have imports, which run on threads of their own, replace the content
+    /// while nobody else is using the document.
+    fn publish_imports_under_lock(inner: &Arc<Mutex<TextDocumentInner>>) {
+        let weak = Arc::downgrade(inner);
+        let locked = inner.lock();
+        let store = locked.ctx.db_context.get_store();
+        store.set_content_publisher(move |replace| match weak.upgrade() {
+            Some(inner) => inner.lock().publish_import(replace),
+            None => replace(),
+        });
+    }
+
     /// Subscribe to backend long-operation events and bridge them to DocumentEvent.
     fn subscribe_long_operation_events(inner: &Arc<Mutex<TextDocumentInner>>) {
         use frontend::common::event::{LongOperationEvent as LOE, Origin};
@@ -106,11 +119,6 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
-                        if inner.finish_import(&op_id) {
-                            inner.queue_event(DocumentEvent::DocumentReset);
-                            inner.check_block_count_changed();
-                            inner.reset_cached_child_order();
-                        }
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: true,
@@ -128,7 +136,6 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
-                        inner.pending_imports.retain(|id| *id != op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
@@ -145,7 +152,6 @@ impl TextDocument {
                     if let Some(inner) = weak.upgrade() {
                         let (op_id, error) = parse_failed_data(&event.data);
                         let mut inner = inner.lock();
-                        inner.pending_imports.retain(|id| *id != op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: false,
@@ -203,7 +209,7 @@ impl TextDocument {
             markdown_text: markdown.into(),
         };
         let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
-        inner.begin_import(&op_id);
+        inner.begin_import();
         Ok(Operation::new(
             op_id,
             &inner.ctx,
@@ -236,7 +242,7 @@ impl TextDocument {
             html_text: html.into(),
         };
         let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
-        inner.begin_import(&op_id);
+        inner.begin_import();
         Ok(Operation::new(
             op_id,
             &inner.ctx,
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 171cd4c..32421a7 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -87,9 +87,6 @@ pub(crate) struct TextDocumentInner {
     // on any edit or document reset. Avoids O(blocks) reconstruction per search.
     pub plain_text_cache: Option<String>,
 
-    // Ids of the Markdown/HTML imports whose completion has not been handled.
-    pub pending_imports: Vec<String>,
-
     // Last known block count, used to detect changes and emit BlockCountChanged.
     pub last_block_count: usize,
 
@@ -221,38 +218,28 @@ impl TextDocumentInner {
     }
 
     /// Record the start of an import that will replace the document.
-    pub fn begin_import(&mut self, op_id: &str) {
-        self.invalidate_text_cache();
+    pub fn begin_import(&mut self) {
         frontend::commands::undo_redo_commands::clear_stack(&self.ctx, self.stack_id);
-        self.pending_imports.push(op_id.to_string());
         self.queue_event(crate::DocumentEvent::UndoRedoChanged {
             can_undo: false,
             can_redo: false,
         });
     }
 
-    /// Refresh what is derived from the replaced content. Returns `false`
-    /// if `op_id` is not an import.
-    pub fn finish_import(&mut self, op_id: &str) -> bool {
-        let Some(index) = self.pending_imports.iter().position(|id| id == op_id) else {
-            return false;
-        };
-        self.pending_imports.remove(index);
+    /// Replace the content by what an import produced and refresh what is
+    /// derived from it.
+    pub fn publish_import(&mut self, replace: &dyn Fn()) {
+        replace();
+        frontend::commands::undo_redo_commands::clear_stack(&self.ctx, self.stack_id);
         self.invalidate_text_cache();
         self.rehighlight_all();
-        true
-    }
-
-    /// Whether an import may still replace the document.
-    fn import_running(&self) -> bool {
-        let manager = self
-            .ctx
-            .long_operation_manager
-            .lock()
-            .unwrap_or_else(|e| e.into_inner());
-        self.pending_imports
-            .iter()
-            .any(|id| manager.get_settled_status(id).is_none())
+        self.queue_event(crate::DocumentEvent::DocumentReset);
+        self.check_block_count_changed();
+        self.reset_cached_child_order();
+        self.queue_event(crate::DocumentEvent::UndoRedoChanged {
+            can_undo: false,
+            can_redo: false,
+        });
     }
 
     /// Queue an `UndoRedoChanged` event carrying the current availability.
@@ -358,13 +345,9 @@ impl TextDocumentInner {
         if let Some(text) = &self.plain_text_cache {
             return Ok(text.clone());
         }
-        // An import replaces the content without taking the document lock.
-        let cacheable = !self.import_running();
         let text =
             frontend::commands::document_io_commands::export_plain_text(&self.ctx)?.plain_text;
-        if cacheable {
-            self.plain_text_cache = Some(text.clone());
-        }
+        self.plain_text_cache = Some(text.clone());
         Ok(text)
     }
 
@@ -449,7 +432,6 @@ impl TextDocumentInner {
             poll_cursor: 0,
             resource_cache: HashMap::new(),
             plain_text_cache: None,
-            pending_imports: Vec::new(),
             last_block_count: 1, // new document starts with one block
             last_child_order: vec![block.id as i64],
             highlight: None,
-- 
2.43.0


From 32f662c7c781e3966d4837d245c4d242147d946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 22/57] fix: announce the end of an operation which panics or
 cannot start

---
 crates/common/src/long_operation.rs | 81 +++++++++++++++++------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index c7f4364..12ac1ae 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -111,8 +111,9 @@
 // as changes will be lost.
 
 use crate::event::{Event, EventHub, LongOperationEvent, Origin};
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 use std::collections::HashMap;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::sync::{
     Arc, Mutex,
     atomic::{AtomicBool, Ordering},
@@ -175,12 +176,42 @@ fn lock_or_recover<T>(mutex: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
         .unwrap_or_else(|poisoned| poisoned.into_inner())
 }
 
+/// Emit the event which announces how an operation ended.
+fn announce_end(event_hub: &Option<Arc<EventHub>>, id: &str, status: &OperationStatus) {
+    if let Some(event_hub) = event_hub {
+        let (event, data) = match status {
+            OperationStatus::Completed => (
+                LongOperationEvent::Completed,
+                serde_json::json!({"id": id}).to_string(),
+            ),
+            OperationStatus::Cancelled => (
+                LongOperationEvent::Cancelled,
+                serde_json::json!({"id": id}).to_string(),
+            ),
+            OperationStatus::Failed(err) => (
+                LongOperationEvent::Failed,
+                serde_json::json!({"id": id, "error": err}).to_string(),
+            ),
+            OperationStatus::Running => (
+                LongOperationEvent::Progress,
+                serde_json::json!({"id": id}).to_string(),
+            ),
+        };
+        event_hub.send_event(Event {
+            origin: Origin::LongOperation(event),
+            ids: vec![],
+            data: Some(data),
+        });
+    }
+}
+
 // Concrete handle implementation
 struct OperationHandle {
     status: Arc<Mutex<OperationStatus>>,
     progress: Arc<Mutex<OperationProgress>>,
     cancel_flag: Arc<AtomicBool>,
-    _join_handle: thread::JoinHandle<()>,
+    // `None` if no thread could be started.
+    _join_handle: Option<thread::JoinHandle<()>>,
 }
 
 impl OperationHandleTrait for OperationHandle {
@@ -208,7 +239,9 @@ impl OperationHandleTrait for OperationHandle {
     }
 
     fn is_settled(&self) -> bool {
-        self._join_handle.is_finished()
+        self._join_handle
+            .as_ref()
+            .is_none_or(|handle| handle.is_finished())
     }
 }
 
@@ -278,7 +311,7 @@ impl LongOperationManager {
         let id_clone = id.clone();
         let event_hub_opt = self.event_hub.clone();
 
-        let join_handle = thread::spawn(move || {
+        let join_handle = thread::Builder::new().spawn(move || {
             let progress_callback = {
                 let progress = progress_clone.clone();
                 let event_hub_opt = event_hub_opt.clone();
@@ -301,7 +334,11 @@ impl LongOperationManager {
                 }) as Box<dyn Fn(OperationProgress) + Send>
             };
 
-            let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
+            // A panicking operation has failed: its end must be announced too.
+            let operation_result = catch_unwind(AssertUnwindSafe(|| {
+                operation.execute(progress_callback, cancel_flag_clone.clone())
+            }))
+            .unwrap_or_else(|_| Err(anyhow!("Operation panicked")));
 
             let final_status = {
                 // Under the status lock, so that a concurrent cancel comes
@@ -324,39 +361,19 @@ impl LongOperationManager {
                 status.clone()
             };
 
-            // Emit final status event
-            if let Some(event_hub) = &event_hub_opt {
-                let (event, data) = match &final_status {
-                    OperationStatus::Completed => (
-                        LongOperationEvent::Completed,
-                        serde_json::json!({"id": id_clone}).to_string(),
-                    ),
-                    OperationStatus::Cancelled => (
-                        LongOperationEvent::Cancelled,
-                        serde_json::json!({"id": id_clone}).to_string(),
-                    ),
-                    OperationStatus::Failed(err) => (
-                        LongOperationEvent::Failed,
-                        serde_json::json!({"id": id_clone, "error": err}).to_string(),
-                    ),
-                    OperationStatus::Running => (
-                        LongOperationEvent::Progress,
-                        serde_json::json!({"id": id_clone}).to_string(),
-                    ),
-                };
-                event_hub.send_event(Event {
-                    origin: Origin::LongOperation(event),
-                    ids: vec![],
-                    data: Some(data),
-                });
-            }
+            announce_end(&event_hub_opt, &id_clone, &final_status);
         });
+        if let Err(e) = &join_handle {
+            let failed = OperationStatus::Failed(format!("Could not start a thread: {e}"));
+            *lock_or_recover(&status) = failed.clone();
+            announce_end(&self.event_hub, &id, &failed);
+        }
 
         let handle = OperationHandle {
             status,
             progress,
             cancel_flag,
-            _join_handle: join_handle,
+            _join_handle: join_handle.ok(),
         };
 
         lock_or_recover(&self.operations).insert(id.clone(), Box::new(handle));
-- 
2.43.0


From 0470c66f4e623b0e36aa47ca1af6b02cc028d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 23/57] fix: run event hub callbacks without the subscribers
 lock

A callback which drops the last handle of a document drops the document's
subscription tokens, which take that lock again.
---
 crates/frontend/src/event_hub_client.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/frontend/src/event_hub_client.rs b/crates/frontend/src/event_hub_client.rs
index 57f75a8..e5d15e3 100644
--- a/crates/frontend/src/event_hub_client.rs
+++ b/crates/frontend/src/event_hub_client.rs
@@ -12,7 +12,10 @@ pub type EventCallback = Box<dyn Fn(Event) + Send>;
 /// Internal storage: each subscriber entry pairs its id (for O(n) removal on
 /// token drop) with its callback. Vec preserves registration order so
 /// subscribers fire deterministically.
-type SubscriberList = Vec<(u64, EventCallback)>;
+///
+/// Each callback has a lock of its own: callbacks run without the lock of the
+/// subscribers map, so that they may drop subscription tokens.
+type SubscriberList = Vec<(u64, Arc<Mutex<EventCallback>>)>;
 
 /// EventHubClient - handles event passing from backend to UI
 /// Subscribe callbacks to specific event origins and start the event loop.
@@ -46,7 +49,7 @@ impl EventHubClient {
             let mut subs = self.subscribers.lock().unwrap();
             subs.entry(origin.clone())
                 .or_default()
-                .push((id, Box::new(callback)));
+                .push((id, Arc::new(Mutex::new(Box::new(callback)))));
         }
         SubscriptionToken {
             subscribers: Arc::clone(&self.subscribers),
@@ -83,11 +86,14 @@ impl EventHubClient {
                 match outcome {
                     Ok(Some(event)) => {
                         log::debug!("EventHubClient received event: {:?}", event);
-                        let subs = subscribers.lock().unwrap();
-                        if let Some(callbacks) = subs.get(&event.origin) {
-                            for (_id, callback) in callbacks {
-                                callback(event.clone());
-                            }
+                        let callbacks = subscribers
+                            .lock()
+                            .unwrap()
+                            .get(&event.origin)
+                            .cloned()
+                            .unwrap_or_default();
+                        for (_id, callback) in callbacks {
+                            callback.lock().unwrap()(event.clone());
                         }
                     }
                     Ok(None) => {
-- 
2.43.0


From e6409126bd0319b65f9c11417fd0cfd07cda3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 24/57] fix: deliver long-operation events to on_change
 subscribers at once

They were only queued, so callbacks got them with the next edit, if any.
---
 crates/frontend/src/event_hub_client.rs |   8 +-
 crates/public_api/src/document.rs       | 162 ++++++++++++++----------
 2 files changed, 105 insertions(+), 65 deletions(-)

diff --git a/crates/frontend/src/event_hub_client.rs b/crates/frontend/src/event_hub_client.rs
index e5d15e3..69743b1 100644
--- a/crates/frontend/src/event_hub_client.rs
+++ b/crates/frontend/src/event_hub_client.rs
@@ -2,6 +2,7 @@
 use common::event::{Event, EventHub, Origin};
 use flume::{Receiver, Selector};
 use std::collections::HashMap;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Arc, Mutex};
 use std::thread;
@@ -93,7 +94,12 @@ impl EventHubClient {
                             .cloned()
                             .unwrap_or_default();
                         for (_id, callback) in callbacks {
-                            callback.lock().unwrap()(event.clone());
+                            // Later events must get through even if a
+                            // callback panics.
+                            let _ = catch_unwind(AssertUnwindSafe(|| {
+                                let callback = callback.lock().unwrap_or_else(|e| e.into_inner());
+                                callback(event.clone());
+                            }));
                         }
                     }
                     Ok(None) => {
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 22d876d..32ef3d5 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -101,12 +101,14 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Progress), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let (op_id, percent, message) = parse_progress_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationProgress {
-                            operation_id: op_id,
-                            percent,
-                            message,
-                        });
+                        announce(
+                            &inner,
+                            DocumentEvent::LongOperationProgress {
+                                operation_id: op_id,
+                                percent,
+                                message,
+                            },
+                        );
                     }
                 });
 
@@ -118,12 +120,14 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Completed), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: true,
-                            error: None,
-                        });
+                        announce(
+                            &inner,
+                            DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: true,
+                                error: None,
+                            },
+                        );
                     }
                 });
 
@@ -135,12 +139,14 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Cancelled), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some("cancelled".into()),
-                        });
+                        announce(
+                            &inner,
+                            DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some("cancelled".into()),
+                            },
+                        );
                     }
                 });
 
@@ -151,12 +157,14 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Failed), move |event| {
                     if let Some(inner) = weak.upgrade() {
                         let (op_id, error) = parse_failed_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some(error),
-                        });
+                        announce(
+                            &inner,
+                            DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some(error),
+                            },
+                        );
                     }
                 });
 
@@ -204,26 +212,31 @@ impl TextDocument {
     ///
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_markdown(&self, markdown: &str) -> Result<Operation<MarkdownImportResult>> {
-        let mut inner = self.inner.lock();
-        let dto = frontend::document_io::ImportMarkdownDto {
-            markdown_text: markdown.into(),
-        };
-        let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
-        inner.begin_import();
-        Ok(Operation::new(
-            op_id,
-            &inner.ctx,
-            Box::new(|ctx, id| {
-                document_io_commands::get_import_markdown_result(ctx, id)
-                    .ok()
-                    .flatten()
-                    .map(|r| {
-                        Ok(MarkdownImportResult {
-                            block_count: to_usize(r.block_count),
+        let (operation, queued) = {
+            let mut inner = self.inner.lock();
+            let dto = frontend::document_io::ImportMarkdownDto {
+                markdown_text: markdown.into(),
+            };
+            let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+            inner.begin_import();
+            let operation = Operation::new(
+                op_id,
+                &inner.ctx,
+                Box::new(|ctx, id| {
+                    document_io_commands::get_import_markdown_result(ctx, id)
+                        .ok()
+                        .flatten()
+                        .map(|r| {
+                            Ok(MarkdownImportResult {
+                                block_count: to_usize(r.block_count),
+                            })
                         })
-                    })
-            }),
-        ))
+                }),
+            );
+            (operation, inner.take_queued_events())
+        };
+        crate::inner::dispatch_queued_events(queued);
+        Ok(operation)
     }
 
     /// Export the entire document as Markdown.
@@ -237,26 +250,31 @@ impl TextDocument {
     ///
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_html(&self, html: &str) -> Result<Operation<HtmlImportResult>> {
-        let mut inner = self.inner.lock();
-        let dto = frontend::document_io::ImportHtmlDto {
-            html_text: html.into(),
-        };
-        let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
-        inner.begin_import();
-        Ok(Operation::new(
-            op_id,
-            &inner.ctx,
-            Box::new(|ctx, id| {
-                document_io_commands::get_import_html_result(ctx, id)
-                    .ok()
-                    .flatten()
-                    .map(|r| {
-                        Ok(HtmlImportResult {
-                            block_count: to_usize(r.block_count),
+        let (operation, queued) = {
+            let mut inner = self.inner.lock();
+            let dto = frontend::document_io::ImportHtmlDto {
+                html_text: html.into(),
+            };
+            let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+            inner.begin_import();
+            let operation = Operation::new(
+                op_id,
+                &inner.ctx,
+                Box::new(|ctx, id| {
+                    document_io_commands::get_import_html_result(ctx, id)
+                        .ok()
+                        .flatten()
+                        .map(|r| {
+                            Ok(HtmlImportResult {
+                                block_count: to_usize(r.block_count),
+                            })
                         })
-                    })
-            }),
-        ))
+                }),
+            );
+            (operation, inner.take_queued_events())
+        };
+        crate::inner::dispatch_queued_events(queued);
+        Ok(operation)
     }
 
     /// Export the entire document as HTML.
@@ -993,8 +1011,14 @@ impl TextDocument {
     where
         F: Fn(DocumentEvent) + Send + Sync + 'static,
     {
-        let mut inner = self.inner.lock();
-        events::subscribe_inner(&mut inner, callback)
+        let (subscription, queued) = {
+            let mut inner = self.inner.lock();
+            // What is still queued happened before this subscription.
+            let queued = inner.take_queued_events();
+            (events::subscribe_inner(&mut inner, callback), queued)
+        };
+        crate::inner::dispatch_queued_events(queued);
+        subscription
     }
 
     /// Return events accumulated since the last `poll_events()` call.
@@ -1367,6 +1391,16 @@ pub(crate) fn get_main_frame_id(inner: &TextDocumentInner) -> frontend::common::
 
 // ── Long-operation event data helpers ─────────────────────────
 
+/// Queue an event which no call on the document caused, and dispatch it.
+fn announce(inner: &Mutex<TextDocumentInner>, event: DocumentEvent) {
+    let queued = {
+        let mut inner = inner.lock();
+        inner.queue_event(event);
+        inner.take_queued_events()
+    };
+    crate::inner::dispatch_queued_events(queued);
+}
+
 /// Parse progress JSON: `{"id":"...", "percentage": 50.0, "message": "..."}`
 fn parse_progress_data(data: &Option<String>) -> (String, f64, String) {
     let Some(json) = data else {
-- 
2.43.0


From 0ebe9bcdbd3ef4d0977f08f83dd64a984745fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 25/57] fix: free a subscription's callback as soon as its
 handle is dropped

It stayed in the document, keeping what it captured (often the document)
alive, and was still called for events already collected.
---
 crates/public_api/src/events.rs | 25 ++++++++------------
 crates/public_api/src/inner.rs  | 41 ++++++++++-----------------------
 2 files changed, 21 insertions(+), 45 deletions(-)

diff --git a/crates/public_api/src/events.rs b/crates/public_api/src/events.rs
index 75f8b0a..5c1cba6 100644
--- a/crates/public_api/src/events.rs
+++ b/crates/public_api/src/events.rs
@@ -1,9 +1,8 @@
 //! Document event types and subscription handle.
 
 use std::sync::Arc;
-use std::sync::atomic::AtomicBool;
 
-use crate::inner::{CallbackEntry, TextDocumentInner};
+use crate::inner::{Callback, TextDocumentInner};
 
 /// Events emitted by a [`TextDocument`](crate::TextDocument).
 ///
@@ -79,14 +78,9 @@ pub enum DocumentEvent {
 /// Events are delivered as long as this handle is alive.
 /// Drop it to unsubscribe. No explicit unsubscribe method needed.
 pub struct Subscription {
-    alive: Arc<AtomicBool>,
-}
-
-impl Drop for Subscription {
-    fn drop(&mut self) {
-        self.alive
-            .store(false, std::sync::atomic::Ordering::Relaxed);
-    }
+    // The document only refers to the callback weakly: it is gone, with all
+    // it captured, as soon as this handle is.
+    _callback: Arc<Callback>,
 }
 
 /// Register a callback with the document inner, returning a Subscription handle.
@@ -94,10 +88,9 @@ pub(crate) fn subscribe_inner<F>(inner: &mut TextDocumentInner, callback: F) ->
 where
     F: Fn(DocumentEvent) + Send + Sync + 'static,
 {
-    let alive = Arc::new(AtomicBool::new(true));
-    inner.callbacks.push(CallbackEntry {
-        alive: Arc::downgrade(&alive),
-        callback: Arc::new(callback),
-    });
-    Subscription { alive }
+    let callback: Arc<Callback> = Arc::new(callback);
+    inner.callbacks.push(Arc::downgrade(&callback));
+    Subscription {
+        _callback: callback,
+    }
 }
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 32421a7..eda3b18 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -13,16 +13,15 @@
 //! call `adjust_cursors()` before releasing the document lock.
 
 use std::collections::HashMap;
-use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Weak};
 
 use parking_lot::Mutex;
 
 /// A batch of events paired with the callbacks to invoke for each.
-pub(crate) type QueuedEvents = Vec<(
-    crate::events::DocumentEvent,
-    Vec<Arc<dyn Fn(crate::events::DocumentEvent) + Send + Sync>>,
-)>;
+pub(crate) type QueuedEvents = Vec<(DocumentEvent, Vec<Weak<Callback>>)>;
+
+/// Callback of a document event subscription, owned by its `Subscription`.
+pub(crate) type Callback = dyn Fn(DocumentEvent) + Send + Sync;
 
 use anyhow::Result;
 use frontend::AppContext;
@@ -42,12 +41,6 @@ pub(crate) struct CursorData {
     pub cell_selection_override: Option<crate::flow::CellRange>,
 }
 
-/// Callback entry for document event subscriptions.
-pub(crate) struct CallbackEntry {
-    pub alive: Weak<AtomicBool>,
-    pub callback: Arc<dyn Fn(DocumentEvent) + Send + Sync>,
-}
-
 /// The shared document interior, behind `Arc<Mutex<>>`.
 pub(crate) struct TextDocumentInner {
     pub ctx: AppContext,
@@ -74,7 +67,7 @@ pub(crate) struct TextDocumentInner {
     // Events are trimmed from the front of `pending_events` when both cursors
     // have advanced past them.
     pub pending_events: Vec<DocumentEvent>,
-    pub callbacks: Vec<CallbackEntry>,
+    pub callbacks: Vec<Weak<Callback>>,
     /// Next event index for callback dispatch.
     pub callback_cursor: usize,
     /// Next event index for `poll_events()`.
@@ -173,22 +166,9 @@ impl TextDocumentInner {
         }
 
         self.callbacks
-            .retain(|entry| entry.alive.strong_count() > 0);
+            .retain(|callback| callback.strong_count() > 0);
 
-        let live_callbacks: Vec<Arc<dyn Fn(DocumentEvent) + Send + Sync>> = self
-            .callbacks
-            .iter()
-            .filter_map(|entry| {
-                let alive = entry.alive.upgrade()?;
-                if alive.load(std::sync::atomic::Ordering::Relaxed) {
-                    Some(Arc::clone(&entry.callback))
-                } else {
-                    None
-                }
-            })
-            .collect();
-
-        if live_callbacks.is_empty() {
+        if self.callbacks.is_empty() {
             self.callback_cursor = self.pending_events.len();
             return Vec::new();
         }
@@ -198,7 +178,7 @@ impl TextDocumentInner {
 
         new_events
             .into_iter()
-            .map(|e| (e, live_callbacks.clone()))
+            .map(|e| (e, self.callbacks.clone()))
             .collect()
     }
 
@@ -453,7 +433,10 @@ impl Drop for TextDocumentInner {
 pub(crate) fn dispatch_queued_events(queued: QueuedEvents) {
     for (event, callbacks) in queued {
         for cb in &callbacks {
-            cb(event.clone());
+            // Unless an earlier callback dropped the subscription.
+            if let Some(cb) = cb.upgrade() {
+                cb(event.clone());
+            }
         }
     }
 }
-- 
2.43.0


From f13584d3a856c796bdd096a24b25028c92f2af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 26/57] fix: report DOCX export progress over all frames

It started again from 10 % with every frame.
---
 crates/document_io/src/use_cases/export_docx_uc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index e0550a4..37d7922 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -122,7 +122,7 @@ impl LongOperation for ExportDocxUseCase {
             Some("Walking document tree...".to_string()),
         ));
 
-        for frame_id in &frame_ids {
+        for (frame_idx, frame_id) in frame_ids.iter().enumerate() {
             if cancel_flag.load(Ordering::Relaxed) {
                 uow.end_transaction()?;
                 return Err(anyhow!("Operation was cancelled"));
@@ -232,7 +232,8 @@ impl LongOperation for ExportDocxUseCase {
                 paragraph_count += 1;
 
                 if idx % 10 == 0 {
-                    let pct = 10.0 + (idx as f32 / total as f32) * 80.0;
+                    let frames_done = frame_idx as f32 + idx as f32 / total as f32;
+                    let pct = 10.0 + (frames_done / frame_ids.len() as f32) * 80.0;
                     progress_callback(common::long_operation::OperationProgress::new(
                         pct,
                         Some(format!("Processing paragraph {}/{}", idx + 1, total)),
-- 
2.43.0


From ea1a2c0730a4ed94854e57cef6c8b6bb22963c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 27/57] fix: deliver nothing to a dropped subscription whose
 callback is still running

---
 crates/public_api/src/events.rs | 22 +++++++++++++++-------
 crates/public_api/src/inner.rs  | 19 +++++++++++++------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/crates/public_api/src/events.rs b/crates/public_api/src/events.rs
index 5c1cba6..a090140 100644
--- a/crates/public_api/src/events.rs
+++ b/crates/public_api/src/events.rs
@@ -1,8 +1,9 @@
 //! Document event types and subscription handle.
 
 use std::sync::Arc;
+use std::sync::atomic::{AtomicBool, Ordering};
 
-use crate::inner::{Callback, TextDocumentInner};
+use crate::inner::{Subscriber, TextDocumentInner};
 
 /// Events emitted by a [`TextDocument`](crate::TextDocument).
 ///
@@ -80,7 +81,13 @@ pub enum DocumentEvent {
 pub struct Subscription {
     // The document only refers to the callback weakly: it is gone, with all
     // it captured, as soon as this handle is.
-    _callback: Arc<Callback>,
+    subscriber: Arc<Subscriber>,
+}
+
+impl Drop for Subscription {
+    fn drop(&mut self) {
+        self.subscriber.alive.store(false, Ordering::SeqCst);
+    }
 }
 
 /// Register a callback with the document inner, returning a Subscription handle.
@@ -88,9 +95,10 @@ pub(crate) fn subscribe_inner<F>(inner: &mut TextDocumentInner, callback: F) ->
 where
     F: Fn(DocumentEvent) + Send + Sync + 'static,
 {
-    let callback: Arc<Callback> = Arc::new(callback);
-    inner.callbacks.push(Arc::downgrade(&callback));
-    Subscription {
-        _callback: callback,
-    }
+    let subscriber = Arc::new(Subscriber {
+        alive: AtomicBool::new(true),
+        callback: Box::new(callback),
+    });
+    inner.callbacks.push(Arc::downgrade(&subscriber));
+    Subscription { subscriber }
 }
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index eda3b18..0f699bd 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -13,15 +13,20 @@
 //! call `adjust_cursors()` before releasing the document lock.
 
 use std::collections::HashMap;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Weak};
 
 use parking_lot::Mutex;
 
 /// A batch of events paired with the callbacks to invoke for each.
-pub(crate) type QueuedEvents = Vec<(DocumentEvent, Vec<Weak<Callback>>)>;
+pub(crate) type QueuedEvents = Vec<(DocumentEvent, Vec<Weak<Subscriber>>)>;
 
-/// Callback of a document event subscription, owned by its `Subscription`.
-pub(crate) type Callback = dyn Fn(DocumentEvent) + Send + Sync;
+/// A document event subscriber, owned by its `Subscription`.
+pub(crate) struct Subscriber {
+    /// Cleared on unsubscribing: a callback being run keeps itself alive.
+    pub alive: AtomicBool,
+    pub callback: Box<dyn Fn(DocumentEvent) + Send + Sync>,
+}
 
 use anyhow::Result;
 use frontend::AppContext;
@@ -67,7 +72,7 @@ pub(crate) struct TextDocumentInner {
     // Events are trimmed from the front of `pending_events` when both cursors
     // have advanced past them.
     pub pending_events: Vec<DocumentEvent>,
-    pub callbacks: Vec<Weak<Callback>>,
+    pub callbacks: Vec<Weak<Subscriber>>,
     /// Next event index for callback dispatch.
     pub callback_cursor: usize,
     /// Next event index for `poll_events()`.
@@ -434,8 +439,10 @@ pub(crate) fn dispatch_queued_events(queued: QueuedEvents) {
     for (event, callbacks) in queued {
         for cb in &callbacks {
             // Unless an earlier callback dropped the subscription.
-            if let Some(cb) = cb.upgrade() {
-                cb(event.clone());
+            if let Some(subscriber) = cb.upgrade()
+                && subscriber.alive.load(Ordering::SeqCst)
+            {
+                (subscriber.callback)(event.clone());
             }
         }
     }
-- 
2.43.0


From 790f4237075a931299dd82b6bba7f0833033f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 28/57] Fault points for simulation, behind cfg
 text_document_sim

---
 crates/common/src/database/transactions.rs    |  2 ++
 .../src/direct_access/repository_factory.rs   |  8 ++++++
 crates/common/src/fault.rs                    | 25 +++++++++++++++++++
 crates/common/src/lib.rs                      |  1 +
 4 files changed, 36 insertions(+)
 create mode 100644 crates/common/src/fault.rs

diff --git a/crates/common/src/database/transactions.rs b/crates/common/src/database/transactions.rs
index 3e3b035..2966540 100644
--- a/crates/common/src/database/transactions.rs
+++ b/crates/common/src/database/transactions.rs
@@ -16,6 +16,7 @@ pub struct Transaction {
 
 impl Transaction {
     pub fn begin_write_transaction(db_context: &DbContext) -> Result<Transaction> {
+        crate::fault::point("begin_write_transaction")?;
         let store = Arc::clone(db_context.get_store());
         let savepoint = Some(store.create_savepoint());
         Ok(Transaction {
@@ -37,6 +38,7 @@ impl Transaction {
         if !self.is_write {
             bail!("Cannot commit a read transaction");
         }
+        crate::fault::point("commit")?;
         // Plan §1.6: refresh Frame.byte_range from current rope state
         // before the mutations become permanent. No-op under default.
         crate::database::rope_helpers::recompute_all_frame_byte_ranges(&self.store);
diff --git a/crates/common/src/direct_access/repository_factory.rs b/crates/common/src/direct_access/repository_factory.rs
index dada5eb..8e7c93c 100644
--- a/crates/common/src/direct_access/repository_factory.rs
+++ b/crates/common/src/direct_access/repository_factory.rs
@@ -24,6 +24,7 @@ pub mod write {
     use anyhow::Result;
 
     pub fn create_root_repository(transaction: &'_ Transaction) -> Result<RootRepository<'_>> {
+        crate::fault::point("create_root_repository")?;
         let root_table = RootHashMapTable::new(transaction.get_store());
         Ok(RootRepository::new(Box::new(root_table), transaction))
     }
@@ -31,6 +32,7 @@ pub mod write {
     pub fn create_document_repository(
         transaction: &'_ Transaction,
     ) -> Result<DocumentRepository<'_>> {
+        crate::fault::point("create_document_repository")?;
         let document_table = DocumentHashMapTable::new(transaction.get_store());
         Ok(DocumentRepository::new(
             Box::new(document_table),
@@ -39,16 +41,19 @@ pub mod write {
     }
 
     pub fn create_frame_repository(transaction: &'_ Transaction) -> Result<FrameRepository<'_>> {
+        crate::fault::point("create_frame_repository")?;
         let frame_table = FrameHashMapTable::new(transaction.get_store());
         Ok(FrameRepository::new(Box::new(frame_table), transaction))
     }
 
     pub fn create_block_repository(transaction: &'_ Transaction) -> Result<BlockRepository<'_>> {
+        crate::fault::point("create_block_repository")?;
         let block_table = BlockHashMapTable::new(transaction.get_store());
         Ok(BlockRepository::new(Box::new(block_table), transaction))
     }
 
     pub fn create_list_repository(transaction: &'_ Transaction) -> Result<ListRepository<'_>> {
+        crate::fault::point("create_list_repository")?;
         let list_table = ListHashMapTable::new(transaction.get_store());
         Ok(ListRepository::new(Box::new(list_table), transaction))
     }
@@ -56,6 +61,7 @@ pub mod write {
     pub fn create_resource_repository(
         transaction: &'_ Transaction,
     ) -> Result<ResourceRepository<'_>> {
+        crate::fault::point("create_resource_repository")?;
         let resource_table = ResourceHashMapTable::new(transaction.get_store());
         Ok(ResourceRepository::new(
             Box::new(resource_table),
@@ -64,6 +70,7 @@ pub mod write {
     }
 
     pub fn create_table_repository(transaction: &'_ Transaction) -> Result<TableRepository<'_>> {
+        crate::fault::point("create_table_repository")?;
         let table_table = TableHashMapTable::new(transaction.get_store());
         Ok(TableRepository::new(Box::new(table_table), transaction))
     }
@@ -71,6 +78,7 @@ pub mod write {
     pub fn create_table_cell_repository(
         transaction: &'_ Transaction,
     ) -> Result<TableCellRepository<'_>> {
+        crate::fault::point("create_table_cell_repository")?;
         let table_cell_table = TableCellHashMapTable::new(transaction.get_store());
         Ok(TableCellRepository::new(
             Box::new(table_cell_table),
diff --git a/crates/common/src/fault.rs b/crates/common/src/fault.rs
new file mode 100644
index 0000000..12ba17b
--- /dev/null
+++ b/crates/common/src/fault.rs
@@ -0,0 +1,25 @@
+//! Fault injection for simulation.
+//!
+//! Every write action of a unit of work passes through [`point`]. It does
+//! nothing unless the workspace is built with `--cfg text_document_sim`, in
+//! which case the simulator that links it decides which actions fail.
+#![allow(unexpected_cfgs)]
+
+#[cfg(text_document_sim)]
+unsafe extern "Rust" {
+    safe fn text_document_sim_fault(site: &'static str) -> bool;
+}
+
+#[cfg(text_document_sim)]
+pub fn point(site: &'static str) -> anyhow::Result<()> {
+    if text_document_sim_fault(site) {
+        anyhow::bail!("injected fault: {site}");
+    }
+    Ok(())
+}
+
+#[cfg(not(text_document_sim))]
+#[inline(always)]
+pub fn point(_site: &'static str) -> anyhow::Result<()> {
+    Ok(())
+}
diff --git a/crates/common/src/lib.rs b/crates/common/src/lib.rs
index 2f53ce2..ee1bb40 100644
--- a/crates/common/src/lib.rs
+++ b/crates/common/src/lib.rs
@@ -5,6 +5,7 @@ pub mod direct_access;
 pub mod entities;
 pub mod error;
 pub mod event;
+pub mod fault;
 pub mod format_runs;
 pub mod format_runs_query;
 pub mod long_operation;
-- 
2.43.0


From 3f5ff37799f53d87cb5de6d72e2e71b0edfdff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 29/57] fix: leave no edit block open and no deletion behind
 when an insertion over a selection fails

---
 crates/public_api/src/cursor.rs | 212 +++++++++++---------------------
 1 file changed, 75 insertions(+), 137 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 36ce368..c280183 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -39,6 +39,31 @@ fn max_cursor_position(stats: &frontend::document_inspection::DocumentStatsDto)
     }
 }
 
+/// Delete the selection, if there is one, and insert at the position it leaves,
+/// as one step of the history. If the insertion fails the selection is back.
+fn replacing_selection<T>(
+    inner: &TextDocumentInner,
+    pos: usize,
+    anchor: usize,
+    insert: impl FnOnce(usize) -> Result<T>,
+) -> Result<T> {
+    if pos == anchor {
+        return insert(pos);
+    }
+    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
+    let del_dto = frontend::document_editing::DeleteTextDto {
+        position: to_i64(pos),
+        anchor: to_i64(anchor),
+    };
+    let result = document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &del_dto)
+        .and_then(|deleted| insert(to_usize(deleted.new_position)));
+    match result {
+        Ok(_) => undo_redo_commands::end_composite(&inner.ctx),
+        Err(_) => undo_redo_commands::cancel_composite(&inner.ctx),
+    }
+    result
+}
+
 /// The largest valid cursor position of the document.
 fn document_end(inner: &TextDocumentInner) -> usize {
     document_inspection_commands::get_document_stats(&inner.ctx)
@@ -438,32 +463,18 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_dto = frontend::document_editing::InsertTextDto {
-                        position: to_i64(del_pos),
-                        anchor: to_i64(del_pos),
-                        text: text.into(),
-                    };
-                    let ins_result = document_editing_commands::insert_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &ins_dto,
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    replacing_selection(&inner, pos, anchor, |insert_pos| {
+                        let ins_dto = frontend::document_editing::InsertTextDto {
+                            position: to_i64(insert_pos),
+                            anchor: to_i64(insert_pos),
+                            text: text.into(),
+                        };
+                        document_editing_commands::insert_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &ins_dto,
+                        )
+                    })?
                 }
                 Err(e) => return Err(e),
             };
@@ -509,27 +520,13 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_result = document_editing_commands::insert_formatted_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &make_dto(del_pos, del_pos),
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    replacing_selection(&inner, pos, anchor, |insert_pos| {
+                        document_editing_commands::insert_formatted_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &make_dto(insert_pos, insert_pos),
+                        )
+                    })?
                 }
                 Err(e) => return Err(e),
             };
@@ -556,36 +553,15 @@ impl TextCursor {
             let mut inner = self.doc.lock();
             let (pos, anchor) = self.read_cursor();
 
-            let (insert_pos, removed) = if pos != anchor {
-                // Selection active: delete first, then split (Word convention)
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let removed = pos.max(anchor) - pos.min(anchor);
+            // Selection active: delete first, then split (Word convention)
+            let result = replacing_selection(&inner, pos, anchor, |insert_pos| {
+                let dto = frontend::document_editing::InsertBlockDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
-            };
-
-            let dto = frontend::document_editing::InsertBlockDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-            };
-            let result =
-                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)
+            })?;
 
             let edit_pos = pos.min(anchor);
             self.finish_edit(
@@ -619,40 +595,23 @@ impl TextCursor {
             let mut inner = self.doc.lock();
             let (pos, anchor) = self.read_cursor();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let removed = pos.max(anchor) - pos.min(anchor);
+            let (result, added) = replacing_selection(&inner, pos, anchor, |insert_pos| {
+                let dto = frontend::document_editing::InsertFragmentDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    fragment_data: fragment.raw_data().into(),
                 };
-                let del_result = document_editing_commands::delete_text(
+                let end_before = document_end(&inner);
+                let result = document_editing_commands::insert_fragment(
                     &inner.ctx,
                     Some(inner.stack_id),
-                    &del_dto,
+                    &dto,
                 )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
-            };
-
-            let dto = frontend::document_editing::InsertFragmentDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                fragment_data: fragment.raw_data().into(),
-            };
-            let end_before = document_end(&inner);
-            let result =
-                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)?;
-            // The cursor stops at the end of the inserted text, which may be
-            // followed by an inserted block separator.
-            let added = document_end(&inner).saturating_sub(end_before);
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+                // The cursor stops at the end of the inserted text, which may be
+                // followed by an inserted block separator.
+                Ok((result, document_end(&inner).saturating_sub(end_before)))
+            })?;
 
             let edit_pos = pos.min(anchor);
             self.finish_edit_added(
@@ -726,38 +685,17 @@ impl TextCursor {
             let mut inner = self.doc.lock();
             let (pos, anchor) = self.read_cursor();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let removed = pos.max(anchor) - pos.min(anchor);
+            let result = replacing_selection(&inner, pos, anchor, |insert_pos| {
+                let dto = frontend::document_editing::InsertImageDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    image_name: name.into(),
+                    width: width as i64,
+                    height: height as i64,
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
-            };
-
-            let dto = frontend::document_editing::InsertImageDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                image_name: name.into(),
-                width: width as i64,
-                height: height as i64,
-            };
-            let result =
-                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)
+            })?;
 
             let edit_pos = pos.min(anchor);
             self.finish_edit_ext(
-- 
2.43.0


From 9a9b70515d7e88843be8d8d4c74ea5e777cdc621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 30/57] fix: cancel only the inner edit block, and undo or redo
 an edit block entirely or not at all

---
 crates/common/src/undo_redo.rs | 54 +++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 1fe132a..6fcb90b 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -126,17 +126,31 @@ impl CompositeCommand {
 
 impl UndoRedoCommand for CompositeCommand {
     fn undo(&mut self) -> Result<()> {
-        // Undo commands in reverse order
-        for command in self.commands.iter_mut().rev() {
-            command.undo()?;
+        // Undo commands in reverse order; if one fails, none is undone
+        for i in (0..self.commands.len()).rev() {
+            if let Err(e) = self.commands[i].undo() {
+                for command in &mut self.commands[i + 1..] {
+                    if let Err(e) = command.redo() {
+                        log::error!("Redo of a command of a failed undo failed: {e}");
+                    }
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        // Redo commands in original order
-        for command in self.commands.iter_mut() {
-            command.redo()?;
+        // Redo commands in original order; if one fails, none is redone
+        for i in 0..self.commands.len() {
+            if let Err(e) = self.commands[i].redo() {
+                for command in self.commands[..i].iter_mut().rev() {
+                    if let Err(e) = command.undo() {
+                        log::error!("Undo of a command of a failed redo failed: {e}");
+                    }
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
@@ -203,6 +217,8 @@ pub struct UndoRedoManager {
     next_stack_id: u64,
     in_progress_composite: Option<CompositeCommand>,
     composite_nesting_level: usize,
+    /// Number of commands in the composite when each nested level began.
+    composite_starts: Vec<usize>,
     composite_stack_id: Option<u64>,
     event_hub: Option<Arc<EventHub>>,
 }
@@ -223,6 +239,7 @@ impl UndoRedoManager {
             next_stack_id: 1,
             in_progress_composite: None,
             composite_nesting_level: 0,
+            composite_starts: Vec::new(),
             composite_stack_id: None,
             event_hub: None,
         }
@@ -325,6 +342,11 @@ impl UndoRedoManager {
         if self.in_progress_composite.is_none() {
             self.in_progress_composite = Some(CompositeCommand::new(stack_id));
         }
+        self.composite_starts.push(
+            self.in_progress_composite
+                .as_ref()
+                .map_or(0, |composite| composite.commands.len()),
+        );
 
         // not sure if we want to send events for composites
         if let Some(event_hub) = &self.event_hub {
@@ -346,6 +368,7 @@ impl UndoRedoManager {
         if self.composite_nesting_level > 0 {
             self.composite_nesting_level -= 1;
         }
+        self.composite_starts.pop();
 
         // Only end the composite if we're at the outermost level
         if self.composite_nesting_level == 0 {
@@ -377,13 +400,21 @@ impl UndoRedoManager {
             self.composite_nesting_level -= 1;
         }
 
-        // Undo any sub-commands that were already executed in this composite
-        if let Some(ref mut composite) = self.in_progress_composite {
-            let _ = composite.undo();
+        // Undo any sub-commands that were already executed at this level; an
+        // enclosing composite goes on with the commands it had before.
+        let start = self.composite_starts.pop().unwrap_or(0);
+        if let Some(composite) = &mut self.in_progress_composite {
+            for mut command in composite.commands.split_off(start).into_iter().rev() {
+                if let Err(e) = command.undo() {
+                    log::error!("Undo of a cancelled command failed: {e}");
+                }
+            }
         }
 
-        self.in_progress_composite = None;
-        self.composite_stack_id = None;
+        if self.composite_nesting_level == 0 {
+            self.in_progress_composite = None;
+            self.composite_stack_id = None;
+        }
 
         // not sure if we want to send events for composites
         if let Some(event_hub) = &self.event_hub {
@@ -486,6 +517,7 @@ impl UndoRedoManager {
         }
         self.in_progress_composite = None;
         self.composite_nesting_level = 0;
+        self.composite_starts.clear();
     }
 
     /// Creates a new undo/redo stack and returns its ID.
-- 
2.43.0


From 47ce174bfc932e63e8edb596a57a426628506980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 31/57] fix: refuse undo and redo inside an edit block that has
 changed the document, and clear its steps with the history

---
 crates/common/src/undo_redo.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 6fcb90b..d5263fe 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -250,6 +250,17 @@ impl UndoRedoManager {
         self.event_hub = Some(Arc::clone(event_hub));
     }
 
+    /// The commands of an open composite are not on the stack yet, but the
+    /// content they left behind is what the top of the stack would be applied to.
+    fn ensure_no_open_composite(&self, stack_id: u64) -> Result<()> {
+        match &self.in_progress_composite {
+            Some(composite) if composite.stack_id == stack_id && !composite.is_empty() => Err(
+                anyhow!("Cannot undo or redo while a composite is in progress"),
+            ),
+            _ => Ok(()),
+        }
+    }
+
     /// Undoes the most recent command on the specified stack.
     /// If `stack_id` is None, the global stack (ID 0) is used.
     ///
@@ -257,6 +268,7 @@ impl UndoRedoManager {
     /// Returns Ok(()) if successful or if there are no commands to undo.
     pub fn undo(&mut self, stack_id: Option<u64>) -> Result<()> {
         let target_stack_id = stack_id.unwrap_or(0);
+        self.ensure_no_open_composite(target_stack_id)?;
         let stack = self
             .stacks
             .get_mut(&target_stack_id)
@@ -287,6 +299,7 @@ impl UndoRedoManager {
     /// Returns Ok(()) if successful or if there are no commands to redo.
     pub fn redo(&mut self, stack_id: Option<u64>) -> Result<()> {
         let target_stack_id = stack_id.unwrap_or(0);
+        self.ensure_no_open_composite(target_stack_id)?;
         let stack = self
             .stacks
             .get_mut(&target_stack_id)
@@ -507,6 +520,13 @@ impl UndoRedoManager {
             stack.undo_stack.clear();
             stack.redo_stack.clear();
         }
+        // A composite in progress goes on without what it has collected
+        if let Some(composite) = &mut self.in_progress_composite
+            && composite.stack_id == stack_id
+        {
+            composite.commands.clear();
+            self.composite_starts.fill(0);
+        }
     }
 
     /// Clears all undo and redo history from all stacks.
-- 
2.43.0


From 3d1804927c5f6c05908186d233dd6a3a11972a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 32/57] fix: keep the history of a step whose undo or redo
 failed

---
 .../src/direct_access/use_cases/update.rs     | 20 +++++++++++--------
 .../src/use_cases/insert_formatted_text_uc.rs |  5 ++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/common/src/direct_access/use_cases/update.rs b/crates/common/src/direct_access/use_cases/update.rs
index efad2ab..7bbc97b 100644
--- a/crates/common/src/direct_access/use_cases/update.rs
+++ b/crates/common/src/direct_access/use_cases/update.rs
@@ -103,28 +103,30 @@ where
     F::Entity: 'static,
 {
     fn undo(&mut self) -> Result<()> {
-        if let Some(last_entities) = self.undo_stack.pop_back() {
+        if let Some(last_entities) = self.undo_stack.back() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for redo
             let ids: Vec<_> = last_entities.iter().map(|e| e.id()).collect();
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
-            uow.update_multi(&last_entities)?;
+            uow.update_multi(last_entities)?;
             uow.commit()?;
+            self.undo_stack.pop_back();
             self.redo_stack.push_back(current);
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        if let Some(entities) = self.redo_stack.pop_back() {
+        if let Some(entities) = self.redo_stack.back() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for undo
             let ids: Vec<_> = entities.iter().map(|e| e.id()).collect();
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
-            uow.update_multi(&entities)?;
+            uow.update_multi(entities)?;
             uow.commit()?;
+            self.redo_stack.pop_back();
             self.undo_stack.push_back(current);
         }
         Ok(())
@@ -232,28 +234,30 @@ where
     F::Entity: 'static,
 {
     fn undo(&mut self) -> Result<()> {
-        if let Some(last_entities) = self.undo_stack.pop_back() {
+        if let Some(last_entities) = self.undo_stack.back() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for redo
             let ids: Vec<_> = last_entities.iter().map(|e| e.id()).collect();
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
-            uow.update_with_relationships_multi(&last_entities)?;
+            uow.update_with_relationships_multi(last_entities)?;
             uow.commit()?;
+            self.undo_stack.pop_back();
             self.redo_stack.push_back(current);
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        if let Some(entities) = self.redo_stack.pop_back() {
+        if let Some(entities) = self.redo_stack.back() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for undo
             let ids: Vec<_> = entities.iter().map(|e| e.id()).collect();
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
-            uow.update_with_relationships_multi(&entities)?;
+            uow.update_with_relationships_multi(entities)?;
             uow.commit()?;
+            self.redo_stack.pop_back();
             self.undo_stack.push_back(current);
         }
         Ok(())
diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 0821eff..52495d1 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -450,13 +450,13 @@ impl UndoRedoCommand for InsertFormattedTextUseCase {
     fn undo(&mut self) -> Result<()> {
         let undo_data = self
             .undo_data
-            .take()
+            .as_ref()
             .ok_or_else(|| anyhow!("No undo data available"))?;
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
 
-        match &undo_data {
+        match undo_data {
             InsertFormattedTextUndo::Simple(data) => {
                 uow.update_block(&data.original_block)?;
                 let store = uow.store();
@@ -498,7 +498,6 @@ impl UndoRedoCommand for InsertFormattedTextUseCase {
         }
 
         uow.commit()?;
-        self.undo_data = Some(undo_data);
         Ok(())
     }
 
-- 
2.43.0


From b5281d45290a37d7cf4db86f6704e56e400c60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 33/57] fix: report a DOCX file that cannot be written instead
 of panicking

---
 crates/document_io/src/use_cases/export_docx_uc.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index 37d7922..a5d40fc 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -9,6 +9,7 @@ use common::format_runs::InlineContent;
 use common::long_operation::LongOperation;
 use common::types::{EntityId, ROOT_ENTITY_ID};
 use std::collections::HashSet;
+use std::io::Write;
 use std::sync::Arc;
 
 pub trait ExportDocxUnitOfWorkFactoryTrait: Send + Sync {
@@ -249,16 +250,21 @@ impl LongOperation for ExportDocxUseCase {
             Some("Writing DOCX file...".to_string()),
         ));
 
+        // Pack in memory: the archive writer panics when its output fails
+        let mut archive = std::io::Cursor::new(Vec::new());
+        docx.build()
+            .pack(&mut archive)
+            .map_err(|e| anyhow!("Failed to write DOCX: {}", e))?;
+
         // Write to file
-        let file = std::fs::File::create(&self.dto.output_path).map_err(|e| {
+        let mut file = std::fs::File::create(&self.dto.output_path).map_err(|e| {
             anyhow!(
                 "Failed to create output file '{}': {}",
                 self.dto.output_path,
                 e
             )
         })?;
-        docx.build()
-            .pack(file)
+        file.write_all(archive.get_ref())
             .map_err(|e| anyhow!("Failed to write DOCX: {}", e))?;
 
         progress_callback(common::long_operation::OperationProgress::new(
-- 
2.43.0


From 48d27d19b6e42a46c119d5e56d1a421b3deaf59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 34/57] fix: find matches that do not overlap, at their
 position in the original text

---
 .../src/use_cases/search_helpers.rs           | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 4828477..766dbb8 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -111,10 +111,18 @@ pub fn find_all_matches(
         }
     } else {
         // Literal search using lowercased Strings instead of Vec<char>.
-        let (search_text, search_query) = if case_sensitive {
-            (full_text.to_string(), query.to_string())
+        // `origin` maps each searched char back to the char of the full text
+        // it comes from: a lowercased char may consist of several.
+        let (search_text, search_query, origin) = if case_sensitive {
+            let origin: Vec<usize> = (0..full_text.chars().count()).collect();
+            (full_text.to_string(), query.to_string(), origin)
         } else {
-            (full_text.to_lowercase(), query.to_lowercase())
+            let origin: Vec<usize> = full_text
+                .chars()
+                .enumerate()
+                .flat_map(|(i, c)| c.to_lowercase().map(move |_| i))
+                .collect();
+            (full_text.to_lowercase(), query.to_lowercase(), origin)
         };
 
         // Build a char-index → byte-offset mapping for the search text
@@ -127,20 +135,29 @@ pub fn find_all_matches(
 
         let mut char_pos = 0;
         while char_pos + query_char_len <= char_indices.len() {
+            let next = char_pos + query_char_len;
             let byte_start = char_indices[char_pos];
-            let byte_end = if char_pos + query_char_len < char_indices.len() {
-                char_indices[char_pos + query_char_len]
+            let byte_end = if next < char_indices.len() {
+                char_indices[next]
             } else {
                 search_text.len()
             };
 
-            if search_text[byte_start..byte_end] == search_query[..] {
-                if let Some(ref wb) = word_boundaries {
-                    if wb.contains(&char_pos) && wb.contains(&(char_pos + query_char_len)) {
-                        results.push((char_pos, query_char_len));
-                    }
-                } else {
-                    results.push((char_pos, query_char_len));
+            // A match begins and ends with whole chars of the full text.
+            let whole = (char_pos == 0 || origin[char_pos] != origin[char_pos - 1])
+                && (next == origin.len() || origin[next] != origin[next - 1]);
+
+            if whole && search_text[byte_start..byte_end] == search_query[..] {
+                let start = origin[char_pos];
+                let end = origin[next - 1] + 1;
+                let accepted = word_boundaries
+                    .as_ref()
+                    .is_none_or(|wb| wb.contains(&start) && wb.contains(&end));
+                if accepted {
+                    results.push((start, end - start));
+                    // Matches do not overlap, as in a regex search.
+                    char_pos = next;
+                    continue;
                 }
             }
             char_pos += 1;
-- 
2.43.0


From 34b9ce8fa5b9a62714d9066af09ae004770e9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 35/57] fix: the command line program replaces its output file
 atomically

---
 crates/cli/src/main.rs | 69 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 5 deletions(-)

diff --git a/crates/cli/src/main.rs b/crates/cli/src/main.rs
index 50236f3..5798490 100644
--- a/crates/cli/src/main.rs
+++ b/crates/cli/src/main.rs
@@ -1,5 +1,7 @@
 mod benchmark_test;
 
+use std::ffi::OsString;
+use std::io::Write;
 use std::path::Path;
 use std::process;
 
@@ -155,6 +157,63 @@ fn format_name(fmt: FileFormat) -> &'static str {
     }
 }
 
+// ── File output ─────────────────────────────────────────────────
+
+/// Write `content` to `path` so that a failure or crash never leaves a truncated
+/// file (`replace` overwrites its input): the text goes to a temporary sibling,
+/// which then takes the place of the file.
+fn write_file(path: &str, content: &str) -> Result<()> {
+    replace_file(Path::new(path), content).with_context(|| format!("failed to write '{path}'"))
+}
+
+fn replace_file(path: &Path, content: &str) -> std::io::Result<()> {
+    // Follow symbolic links: what they point at is replaced.
+    let target = match std::fs::canonicalize(path) {
+        Ok(target) => target,
+        Err(_) if path.is_symlink() => return std::fs::write(path, content),
+        Err(_) => path.to_path_buf(),
+    };
+    let existing = std::fs::metadata(&target).ok();
+    if existing.as_ref().is_some_and(|m| !m.is_file()) {
+        // Devices and pipes cannot be replaced.
+        return std::fs::write(&target, content);
+    }
+    if existing.is_some() {
+        // A write-protected file stays protected.
+        std::fs::OpenOptions::new().write(true).open(&target)?;
+    }
+    let mut name = OsString::from(".");
+    name.push(target.file_name().unwrap_or_default());
+    name.push(format!(".{}.tmp", process::id()));
+    let temp = target.with_file_name(name);
+    let file = match std::fs::File::create(&temp) {
+        Ok(file) => file,
+        // The file may be writable in a directory that is not.
+        Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied && existing.is_some() => {
+            return std::fs::write(&target, content);
+        }
+        Err(e) => return Err(e),
+    };
+    let result = write_and_sync(file, content, existing.map(|m| m.permissions()))
+        .and_then(|()| std::fs::rename(&temp, &target));
+    if result.is_err() {
+        let _ = std::fs::remove_file(&temp);
+    }
+    result
+}
+
+fn write_and_sync(
+    mut file: std::fs::File,
+    content: &str,
+    permissions: Option<std::fs::Permissions>,
+) -> std::io::Result<()> {
+    if let Some(permissions) = permissions {
+        file.set_permissions(permissions)?;
+    }
+    file.write_all(content.as_bytes())?;
+    file.sync_all()
+}
+
 // ── Command handlers ────────────────────────────────────────────
 
 fn cmd_convert(input: &str, output: &str, document_class: &str, preamble: bool) -> Result<()> {
@@ -164,19 +223,19 @@ fn cmd_convert(input: &str, output: &str, document_class: &str, preamble: bool)
     match out_format {
         FileFormat::PlainText => {
             let text = doc.to_plain_text()?;
-            std::fs::write(output, text)?;
+            write_file(output, &text)?;
         }
         FileFormat::Markdown => {
             let text = doc.to_markdown()?;
-            std::fs::write(output, text)?;
+            write_file(output, &text)?;
         }
         FileFormat::Html => {
             let text = doc.to_html()?;
-            std::fs::write(output, text)?;
+            write_file(output, &text)?;
         }
         FileFormat::Latex => {
             let text = doc.to_latex(document_class, preamble)?;
-            std::fs::write(output, text)?;
+            write_file(output, &text)?;
         }
         FileFormat::Docx => {
             doc.to_docx(output)?.wait().context("DOCX export failed")?;
@@ -267,7 +326,7 @@ fn cmd_replace(
         FileFormat::Html => doc.to_html()?,
         _ => doc.to_plain_text()?,
     };
-    std::fs::write(out_path, content)?;
+    write_file(out_path, &content)?;
     eprintln!("{count} replacement(s), written to {out_path}");
     Ok(())
 }
-- 
2.43.0


From 4e5362bd3e821cccb2f64dbe9638815b261a80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 36/57] fix: highlight blocks that an edit inserted

---
 crates/public_api/src/highlight.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index ac3b79a..c59d3f8 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -540,7 +540,7 @@ impl TextDocumentInner {
                 .unwrap()
                 .blocks
                 .get(&bid)
-                .map_or(-1, |d| d.state);
+                .map(|d| d.state);
 
             let mut ctx = HighlightContext::new(bid, previous_state, user_data);
             highlighter.highlight_block(text, &mut ctx);
@@ -557,8 +557,9 @@ impl TextDocumentInner {
             );
 
             // If we are past the initial block and the state didn't change,
-            // stop cascading.
-            if i > start_idx && state == old_state {
+            // stop cascading. A block never highlighted before is new: the
+            // edit may have inserted more of them after it.
+            if i > start_idx && old_state == Some(state) {
                 break;
             }
         }
-- 
2.43.0


From 4cd93e1f01d8dde324a0981c14fdc54358790461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 37/57] fix: structural table calls count what the cells hold

---
 .../src/use_cases/editing_helpers.rs          | 40 +++++++++++++++++--
 .../src/use_cases/merge_table_cells_uc.rs     | 15 +++----
 .../src/use_cases/remove_table_column_uc.rs   | 10 +++--
 .../src/use_cases/remove_table_row_uc.rs      | 10 +++--
 .../src/use_cases/remove_table_uc.rs          | 17 ++++----
 5 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 85b5671..27c8393 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -79,6 +79,7 @@ pub trait CellBlockReader {
         field: &FrameRelationshipField,
     ) -> Result<Vec<EntityId>>;
     fn cbr_get_block_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>>;
+    fn cbr_block_length(&self, block: &Block) -> i64;
 }
 
 /// Implement `CellBlockReader` for a `Box<dyn UowTrait>` where the UoW trait has the needed methods.
@@ -95,15 +96,47 @@ macro_rules! impl_cell_block_reader {
             fn cbr_get_block_multi(&self, ids: &[EntityId]) -> Result<Vec<Option<Block>>> {
                 (**self).get_block_multi(ids)
             }
+            fn cbr_block_length(&self, block: &Block) -> i64 {
+                common::database::rope_helpers::block_char_length(block, &(**self).store())
+            }
         }
     };
 }
 
 pub(crate) use impl_cell_block_reader;
 
-/// Compute the minimum document_position across all blocks in the given cell frames.
+/// What the blocks of some table cells amount to.
+#[derive(Default, Clone, Copy)]
+pub struct CellExtent {
+    pub blocks: i64,
+    pub characters: i64,
+}
+
+impl CellExtent {
+    /// Document positions taken up: the text, and one boundary per block.
+    pub fn positions(&self) -> i64 {
+        self.blocks + self.characters
+    }
+}
+
+/// Add up the blocks of the given cell frames.
+pub fn measure_cell_frames(
+    uow: &dyn CellBlockReader,
+    cell_frame_ids: &[EntityId],
+) -> Result<CellExtent> {
+    let mut extent = CellExtent::default();
+    for cf_id in cell_frame_ids {
+        let block_ids = uow.cbr_get_frame_relationship(cf_id, &FrameRelationshipField::Blocks)?;
+        for block in uow.cbr_get_block_multi(&block_ids)?.into_iter().flatten() {
+            extent.blocks += 1;
+            extent.characters += uow.cbr_block_length(&block);
+        }
+    }
+    Ok(extent)
+}
+
 /// Reassign document_position for all blocks across table cells in row-major order.
-/// Returns the blocks that need updating and the total block count.
+/// Returns the blocks that need updating and the number of positions they take up.
 pub fn reassign_cell_block_positions(
     uow: &dyn CellBlockReader,
     cells: &[common::entities::TableCell],
@@ -122,14 +155,15 @@ pub fn reassign_cell_block_positions(
             for mut block in blocks {
                 block.document_position = base_pos + running_pos;
                 block.updated_at = now;
+                running_pos += uow.cbr_block_length(&block) + 1;
                 blocks_to_update.push(block);
-                running_pos += 1;
             }
         }
     }
     Ok((blocks_to_update, running_pos))
 }
 
+/// Compute the minimum document_position across all blocks in the given cell frames.
 pub fn compute_table_base_pos(
     uow: &dyn CellBlockReader,
     cell_frame_ids: &[EntityId],
diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index 84d5215..cfb29cf 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, measure_cell_frames,
+    reassign_cell_block_positions,
 };
 use crate::MergeTableCellsDto;
 use crate::MergeTableCellsResultDto;
@@ -154,8 +155,6 @@ fn execute_merge_table_cells(
         .copied()
         .collect();
 
-    let removed_cell_count = cells_to_remove.len() as i64;
-
     // Find base_pos from existing cell blocks BEFORE any mutation
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
@@ -173,6 +172,7 @@ fn execute_merge_table_cells(
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
         removed_cell_block_ids.extend(bids);
     }
+    let removed = measure_cell_frames(&*uow, &remove_frame_ids)?;
     for fid in &remove_frame_ids {
         uow.remove_frame(fid)?;
     }
@@ -215,7 +215,7 @@ fn execute_merge_table_cells(
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
-    // Shift non-table blocks after the table (reduce by number of removed cells)
+    // Shift non-table blocks after the table (reduce by what the removed cells took up)
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_frame_ids.into_iter().collect();
@@ -232,7 +232,7 @@ fn execute_merge_table_cells(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cell_count;
+                shifted.document_position -= removed.positions();
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -242,9 +242,10 @@ fn execute_merge_table_cells(
         uow.update_block_multi(&shifted_blocks)?;
     }
 
-    // Update Document.block_count
+    // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cell_count;
+    updated_doc.block_count -= removed.blocks;
+    updated_doc.character_count -= removed.characters;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_column_uc.rs b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
index 5651273..4b97d7e 100644
--- a/crates/document_editing/src/use_cases/remove_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, measure_cell_frames,
+    reassign_cell_block_positions,
 };
 use crate::RemoveTableColumnDto;
 use crate::RemoveTableColumnResultDto;
@@ -144,6 +145,7 @@ fn execute_remove_table_column(
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
         removed_cell_block_ids.extend(bids);
     }
+    let removed = measure_cell_frames(&*uow, &column_cell_frame_ids)?;
     for fid in &column_cell_frame_ids {
         uow.remove_frame(fid)?;
     }
@@ -197,7 +199,6 @@ fn execute_remove_table_column(
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_cell_frame_ids.into_iter().collect();
@@ -214,7 +215,7 @@ fn execute_remove_table_column(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position -= removed.positions();
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -226,7 +227,8 @@ fn execute_remove_table_column(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed.blocks;
+    updated_doc.character_count -= removed.characters;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_row_uc.rs b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
index 6852055..adf1f0a 100644
--- a/crates/document_editing/src/use_cases/remove_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, measure_cell_frames,
+    reassign_cell_block_positions,
 };
 use crate::RemoveTableRowDto;
 use crate::RemoveTableRowResultDto;
@@ -142,6 +143,7 @@ fn execute_remove_table_row(
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
         removed_cell_block_ids.extend(bids);
     }
+    let removed = measure_cell_frames(&*uow, &row_cell_frame_ids)?;
     for fid in &row_cell_frame_ids {
         uow.remove_frame(fid)?;
     }
@@ -190,7 +192,6 @@ fn execute_remove_table_row(
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_frame_ids.into_iter().collect();
@@ -207,7 +208,7 @@ fn execute_remove_table_row(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position -= removed.positions();
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
@@ -219,7 +220,8 @@ fn execute_remove_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed.blocks;
+    updated_doc.character_count -= removed.characters;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 0abf111..1d2c2fc 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -1,3 +1,4 @@
+use super::editing_helpers::{CellBlockReader, impl_cell_block_reader, measure_cell_frames};
 use crate::RemoveTableDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
@@ -35,6 +36,8 @@ pub trait RemoveTableUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "TableCell", action = "GetMulti")]
 pub trait RemoveTableUnitOfWorkTrait: CommandUnitOfWork {}
 
+impl_cell_block_reader!(dyn RemoveTableUnitOfWorkTrait);
+
 pub struct RemoveTableUseCase {
     uow_factory: Box<dyn RemoveTableUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
@@ -78,10 +81,10 @@ fn execute_remove_table(
     // Collect cell frame IDs
     let cell_frame_ids: Vec<EntityId> = cells.iter().filter_map(|c| c.cell_frame).collect();
 
-    // Count how many cell blocks exist (for position shifting), and
-    // remember each cell-block id so we can detach them from the
-    // global rope before the entity cascade below.
-    let mut total_cell_blocks: i64 = 0;
+    // Measure the cell blocks (for position shifting), and remember
+    // each cell-block id so we can detach them from the global rope
+    // before the entity cascade below.
+    let removed = measure_cell_frames(&*uow, &cell_frame_ids)?;
     let mut min_cell_position: Option<i64> = None;
     let mut cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &cell_frame_ids {
@@ -89,7 +92,6 @@ fn execute_remove_table(
         if !block_ids.is_empty() {
             let blocks_opt = uow.get_block_multi(&block_ids)?;
             for block in blocks_opt.into_iter().flatten() {
-                total_cell_blocks += 1;
                 cell_block_ids.push(block.id);
                 match min_cell_position {
                     None => min_cell_position = Some(block.document_position),
@@ -167,7 +169,7 @@ fn execute_remove_table(
                 for block in blocks_opt.into_iter().flatten() {
                     if block.document_position >= table_start_pos {
                         let mut shifted = block;
-                        shifted.document_position -= total_cell_blocks;
+                        shifted.document_position -= removed.positions();
                         shifted.updated_at = now;
                         blocks_to_shift.push(shifted);
                     }
@@ -181,7 +183,8 @@ fn execute_remove_table(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= total_cell_blocks;
+    updated_doc.block_count -= removed.blocks;
+    updated_doc.character_count -= removed.characters;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From 20cf8cb2edf8b4af233849383e4a2fbdf1040635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 38/57] fix: rows, columns and merges respect merged cells

---
 .../src/use_cases/insert_table_column_uc.rs              | 9 ++++++---
 .../src/use_cases/insert_table_row_uc.rs                 | 9 ++++++---
 .../src/use_cases/merge_table_cells_uc.rs                | 6 +++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index dc92612..407f165 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -93,6 +93,8 @@ fn execute_insert_table_column(
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    // Rows where an expanded cell takes the place of a new one
+    let mut covered = std::collections::HashSet::new();
     for cell in &cells {
         if cell.column >= dto.column_index {
             // Cell starts at or after the insertion point — shift it right
@@ -105,6 +107,7 @@ fn execute_insert_table_column(
             let mut expanded = cell.clone();
             expanded.column_span += 1;
             expanded.updated_at = now;
+            covered.extend(cell.row..cell.row + cell.row_span);
             cells_to_update.push(expanded);
         }
     }
@@ -116,7 +119,7 @@ fn execute_insert_table_column(
     // their blocks so we can mirror them into the rope after the entity
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.rows as usize);
-    for r in 0..table.rows {
+    for r in (0..table.rows).filter(|r| !covered.contains(r)) {
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -181,7 +184,7 @@ fn execute_insert_table_column(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.rows;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -209,7 +212,7 @@ fn execute_insert_table_column(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.rows;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 88a858c..5755104 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -93,6 +93,8 @@ fn execute_insert_table_row(
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    // Columns where an expanded cell takes the place of a new one
+    let mut covered = std::collections::HashSet::new();
     for cell in &cells {
         if cell.row >= dto.row_index {
             // Cell starts at or after the insertion point — shift it down
@@ -105,6 +107,7 @@ fn execute_insert_table_row(
             let mut expanded = cell.clone();
             expanded.row_span += 1;
             expanded.updated_at = now;
+            covered.extend(cell.column..cell.column + cell.column_span);
             cells_to_update.push(expanded);
         }
     }
@@ -116,7 +119,7 @@ fn execute_insert_table_row(
     // so we can mirror them into the global rope after the entity
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.columns as usize);
-    for c in 0..table.columns {
+    for c in (0..table.columns).filter(|c| !covered.contains(c)) {
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -179,7 +182,7 @@ fn execute_insert_table_row(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.columns;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -207,7 +210,7 @@ fn execute_insert_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.columns;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index cfb29cf..430b2b2 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -108,13 +108,13 @@ fn execute_merge_table_cells(
     let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
     let cells: Vec<TableCell> = cells_opt.into_iter().flatten().collect();
 
-    // Identify cells in the merge range
+    // Identify cells in the merge range, those reaching into it included
     let cells_in_range: Vec<&TableCell> = cells
         .iter()
         .filter(|c| {
-            c.row >= dto.start_row
+            c.row + c.row_span > dto.start_row
                 && c.row <= dto.end_row
-                && c.column >= dto.start_column
+                && c.column + c.column_span > dto.start_column
                 && c.column <= dto.end_column
         })
         .collect();
-- 
2.43.0


From 35cbdb2ef41ebec3e863f5c1f01d402472a0c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 39/57] fix: plain text of a document with tables is in
 document order

---
 .../src/use_cases/export_plain_text_uc.rs     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_plain_text_uc.rs b/crates/document_io/src/use_cases/export_plain_text_uc.rs
index d0f4684..cee7479 100644
--- a/crates/document_io/src/use_cases/export_plain_text_uc.rs
+++ b/crates/document_io/src/use_cases/export_plain_text_uc.rs
@@ -64,7 +64,7 @@ impl ExportPlainTextUseCase {
         // Slow path: tables or multi-frame documents require the
         // per-frame, per-block traversal because cell content lives in
         // separate byte ranges later in the rope (plan §1.6).
-        let mut all_plain_texts: Vec<String> = Vec::new();
+        let mut blocks: Vec<Block> = Vec::new();
 
         for frame_id in &frame_ids {
             // Get Block IDs from the Frame.Blocks relationship
@@ -77,17 +77,18 @@ impl ExportPlainTextUseCase {
                 continue;
             }
 
-            // Get all blocks in batch and sort by document_position
+            // Get all blocks in batch
             let blocks_opt = uow.get_block_multi(&block_ids)?;
-            let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-            blocks.sort_by_key(|b| b.document_position);
-
-            for block in &blocks {
-                all_plain_texts.push(block_content_via_store(block, &store));
-            }
+            blocks.extend(blocks_opt.into_iter().flatten());
         }
 
-        let plain_text = all_plain_texts.join("\n");
+        // Frames are listed in creation order: text order is position order.
+        blocks.sort_by_key(|b| b.document_position);
+        let plain_texts: Vec<String> = blocks
+            .iter()
+            .map(|block| block_content_via_store(block, &store))
+            .collect();
+        let plain_text = plain_texts.join("\n");
 
         uow.end_transaction()?;
 
-- 
2.43.0


From 8170b99b5f1c5c7bc67634944763a7e3e6a4d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 40/57] fix: a paragraph split in a table cell stays in the
 cell

---
 .../src/use_cases/insert_block_uc.rs          | 34 +++++++------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index a5c0266..04eda02 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -171,31 +171,18 @@ fn execute_insert_block(
         fmt_code_language: current_block.fmt_code_language.clone(),
     };
 
-    fn find_owner_frame(
-        uow: &dyn InsertBlockUnitOfWorkTrait,
-        fid: &EntityId,
-        target_block_id: EntityId,
-    ) -> Result<Option<EntityId>> {
-        let f = uow
-            .get_frame(fid)?
-            .ok_or_else(|| anyhow!("Frame not found"))?;
-        for &entry in &f.child_order {
-            if entry > 0 && entry as EntityId == target_block_id {
-                return Ok(Some(*fid));
-            } else if entry < 0 {
-                let sub = (-entry) as EntityId;
-                if let Some(owner) = find_owner_frame(uow, &sub, target_block_id)? {
-                    return Ok(Some(owner));
-                }
-            }
-        }
+    // The frame which holds the current block: the root frame, a sub-frame or
+    // the frame of a table cell.
+    let mut owner_frame_id = frame_id;
+    let mut owner_block_ids: Vec<EntityId> = Vec::new();
+    for fid in &frame_ids {
         let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-        if block_ids.contains(&target_block_id) {
-            return Ok(Some(*fid));
+        if block_ids.contains(&current_block.id) {
+            owner_frame_id = *fid;
+            owner_block_ids = block_ids;
+            break;
         }
-        Ok(None)
     }
-    let owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?.unwrap_or(frame_id);
 
     let created_block = uow.create_block(&new_block, owner_frame_id, -1)?;
 
@@ -223,6 +210,9 @@ fn execute_insert_block(
         .get_frame(&owner_frame_id)?
         .ok_or_else(|| anyhow!("Owner frame not found"))?;
     let mut updated_frame = frame.clone();
+    if updated_frame.child_order.is_empty() {
+        updated_frame.child_order = owner_block_ids.iter().map(|&id| id as i64).collect();
+    }
     let co_idx = updated_frame
         .child_order
         .iter()
-- 
2.43.0


From b765d210be0bcef10c0a9fab5a4cc8e2a35504da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 41/57] fix: deleting text keeps the positions behind a table

---
 .../src/use_cases/delete_text_uc.rs           | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index d63d15e..737b198 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -181,20 +181,14 @@ fn execute_delete(
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
 
-    // Refresh stored block positions from child_order + text_length, since
-    // insert_text's fast path leaves them stale. Cell-frame blocks remain
-    // in their cell-local position space.
-    let root_frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Root frame not found"))?;
-    let mut running: i64 = 0;
+    // Refresh stored block positions from flow order + text length, since
+    // insert_text's fast path leaves them stale. Where the rope does not
+    // give the positions (tables, sub-frames) the stored ones are kept up to
+    // date by every edit and cover the blocks of the cells, too.
     let mut blocks_to_refresh: Vec<Block> = Vec::new();
-    for &entry in &root_frame.child_order {
-        if entry <= 0 {
-            continue;
-        }
-        let id = entry as EntityId;
-        if let Some(b) = blocks.iter_mut().find(|b| b.id == id) {
+    if common::database::rope_helpers::rope_positions_match_flow(&store) {
+        let mut running: i64 = 0;
+        for b in &mut blocks {
             if b.document_position != running {
                 b.document_position = running;
                 blocks_to_refresh.push(b.clone());
-- 
2.43.0


From c93e3bea52ca18b176b3cadaa94080149f22398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 42/57] fix: inserting an empty formatted text leaves no empty
 format run

---
 .../src/use_cases/insert_formatted_text_uc.rs | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 52495d1..4cd4213 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -179,16 +179,19 @@ fn insert_formatted_at(
         let mut runs_map = store.format_runs.write().unwrap();
         let runs = runs_map.entry(block.id).or_default();
         shift_runs_for_insert(runs, byte_offset, inserted_byte_len);
-        let new_run = FormatRun {
-            byte_start: byte_offset,
-            byte_end: byte_offset + inserted_byte_len,
-            format: dto_to_character_format(dto),
-        };
-        splice_range(
-            runs,
-            byte_offset..(byte_offset + inserted_byte_len),
-            vec![new_run],
-        );
+        // No text, no run to carry the format.
+        if inserted_byte_len > 0 {
+            let new_run = FormatRun {
+                byte_start: byte_offset,
+                byte_end: byte_offset + inserted_byte_len,
+                format: dto_to_character_format(dto),
+            };
+            splice_range(
+                runs,
+                byte_offset..(byte_offset + inserted_byte_len),
+                vec![new_run],
+            );
+        }
         debug_assert_well_formed(runs, new_plain.len());
     }
     {
-- 
2.43.0


From 31680184dee0fb0874c76bf5ea563b94f95132fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 43/57] fix: typing near a table and its undo keep the
 positions of later blocks

---
 .../src/use_cases/insert_formatted_text_uc.rs | 47 +++++++++++++
 .../src/use_cases/insert_text_uc.rs           | 69 ++++++++++++-------
 2 files changed, 92 insertions(+), 24 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 4cd4213..3b6e316 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -7,6 +7,7 @@ use common::database::rope_helpers::{
     block_char_length, block_content_via_store, rope_delete_in_block, rope_insert_in_block,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
+use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
 use common::direct_access::table::TableRelationshipField;
 use common::entities::{Block, Document, Frame, Root, TableCell};
@@ -294,6 +295,39 @@ fn execute_with_selection(
     ))
 }
 
+/// Move the stored `document_position` of every block after `block` by
+/// `delta` characters. A no-op when the rope is the source of truth for
+/// positions.
+fn shift_following_blocks(
+    uow: &mut Box<dyn InsertFormattedTextUnitOfWorkTrait>,
+    doc_id: &EntityId,
+    block: &Block,
+    delta: i64,
+) -> Result<()> {
+    if common::database::rope_helpers::rope_positions_match_flow(&uow.store()) {
+        return Ok(());
+    }
+    let frame_ids = uow.get_document_relationship(doc_id, &DocumentRelationshipField::Frames)?;
+    let mut blocks_to_update: Vec<Block> = Vec::new();
+    for fid in &frame_ids {
+        let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+        if block_ids.is_empty() {
+            continue;
+        }
+        for mut b in uow.get_block_multi(&block_ids)?.into_iter().flatten() {
+            if b.id != block.id && b.document_position > block.document_position {
+                b.document_position += delta;
+                b.updated_at = chrono::Utc::now();
+                blocks_to_update.push(b);
+            }
+        }
+    }
+    if !blocks_to_update.is_empty() {
+        uow.update_block_multi(&blocks_to_update)?;
+    }
+    Ok(())
+}
+
 fn execute_insert_simple(
     uow: &mut Box<dyn InsertFormattedTextUnitOfWorkTrait>,
     dto: &InsertFormattedTextDto,
@@ -359,6 +393,8 @@ fn execute_insert_simple(
     let (inserted_byte_offset, inserted_byte_len) = insert_formatted_at(uow, &block, offset, dto)?;
 
     let text_len = dto.text.chars().count() as i64;
+    shift_following_blocks(uow, &doc_id, &block, text_len)?;
+
     let mut updated_doc = document.clone();
     updated_doc.character_count += text_len;
     updated_doc.updated_at = chrono::Utc::now();
@@ -488,6 +524,17 @@ impl UndoRedoCommand for InsertFormattedTextUseCase {
                     .unwrap()
                     .insert(data.block_id, data.original_block_images.clone());
 
+                let inserted_char_len = self
+                    .last_dto
+                    .as_ref()
+                    .map_or(0, |dto| dto.text.chars().count() as i64);
+                shift_following_blocks(
+                    &mut uow,
+                    &data.doc_id,
+                    &data.original_block,
+                    -inserted_char_len,
+                )?;
+
                 let mut doc = uow
                     .get_document(&data.doc_id)?
                     .ok_or_else(|| anyhow!("Document not found"))?;
diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index f622c28..78fa1af 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -269,6 +269,39 @@ fn execute_insert_with_selection(
     ))
 }
 
+/// Move the stored `document_position` of every block after `block` by
+/// `delta` characters. A no-op when the rope is the source of truth for
+/// positions.
+fn shift_following_blocks(
+    uow: &mut Box<dyn InsertTextUnitOfWorkTrait>,
+    doc_id: &EntityId,
+    block: &Block,
+    delta: i64,
+) -> Result<()> {
+    if common::database::rope_helpers::rope_positions_match_flow(&uow.store()) {
+        return Ok(());
+    }
+    let frame_ids = uow.get_document_relationship(doc_id, &DocumentRelationshipField::Frames)?;
+    let mut blocks_to_update: Vec<Block> = Vec::new();
+    for fid in &frame_ids {
+        let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+        if block_ids.is_empty() {
+            continue;
+        }
+        for mut b in uow.get_block_multi(&block_ids)?.into_iter().flatten() {
+            if b.id != block.id && b.document_position > block.document_position {
+                b.document_position += delta;
+                b.updated_at = chrono::Utc::now();
+                blocks_to_update.push(b);
+            }
+        }
+    }
+    if !blocks_to_update.is_empty() {
+        uow.update_block_multi(&blocks_to_update)?;
+    }
+    Ok(())
+}
+
 fn execute_insert_simple(
     uow: &mut Box<dyn InsertTextUnitOfWorkTrait>,
     dto: &InsertTextDto,
@@ -383,30 +416,7 @@ fn execute_insert_simple(
     // walk here is unnecessary and dominated per-keystroke cost on
     // /large/1000para benches. The catch-up logic in `insert_table_uc`
     // brings stored values back into sync if a table is later added.
-    if !common::database::rope_helpers::rope_positions_match_flow(&store) {
-        let frame_ids =
-            uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-        let mut all_blocks: Vec<Block> = Vec::new();
-        for fid in &frame_ids {
-            let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-            if !block_ids.is_empty() {
-                let blocks_opt = uow.get_block_multi(&block_ids)?;
-                all_blocks.extend(blocks_opt.into_iter().flatten());
-            }
-        }
-        let mut blocks_to_update: Vec<Block> = Vec::new();
-        for b in all_blocks {
-            if b.id != block.id && b.document_position > block.document_position {
-                let mut ub = b;
-                ub.document_position += inserted_char_len;
-                ub.updated_at = chrono::Utc::now();
-                blocks_to_update.push(ub);
-            }
-        }
-        if !blocks_to_update.is_empty() {
-            uow.update_block_multi(&blocks_to_update)?;
-        }
-    }
+    shift_following_blocks(uow, &doc_id, &block, inserted_char_len)?;
 
     let mut updated_doc = document.clone();
     updated_doc.character_count += inserted_char_len;
@@ -556,6 +566,17 @@ impl UndoRedoCommand for InsertTextUseCase {
                     );
                 }
 
+                let inserted_char_len = self
+                    .last_dto
+                    .as_ref()
+                    .map_or(0, |dto| dto.text.chars().count() as i64);
+                shift_following_blocks(
+                    &mut uow,
+                    &data.doc_id,
+                    &data.original_block,
+                    -inserted_char_len,
+                )?;
+
                 let mut doc = uow
                     .get_document(&data.doc_id)?
                     .ok_or_else(|| anyhow!("Document not found"))?;
-- 
2.43.0


From cee6d5f77e9c9e6e87f932b533c0911789d3be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 44/57] fix: removing a table's anchor moves only the offsets
 behind it

---
 crates/common/src/database/rope_helpers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 592c9d8..04ac75c 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -748,10 +748,14 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
     // Symmetric to insert_table_anchor. The 4 bytes to remove are:
     // - if anchor is last: [byte_start - 1 .. byte_start + 3) — the
     //   preceding `\n` + the 3-byte sentinel
+    // - if anchor is all there is: [byte_start .. byte_start + 3) — the
+    //   sentinel alone
     // - otherwise: [byte_start .. byte_start + 4) — the sentinel
     //   + the following `\n`
     let (remove_start, remove_end) = if anchor_is_last && has_predecessor {
         (anchor_byte_start - 1, anchor_byte_start + 3)
+    } else if anchor_is_last {
+        (anchor_byte_start, anchor_byte_start + 3)
     } else {
         (anchor_byte_start, anchor_byte_start + 4)
     };
@@ -770,7 +774,7 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         .block_offsets
         .write()
         .unwrap()
-        .shift_after(remove_start, -4);
+        .shift_after(remove_end, -((remove_end - remove_start) as i32));
 }
 
 /// Remove a registered block from the rope: drops its content bytes
-- 
2.43.0


From ac0fd799358994ff62e69b46c27706541ee288f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 45/57] fix: inserting a table before another leaves the block
 before it in place

---
 crates/common/src/database/rope_helpers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 04ac75c..0fd4d51 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -653,12 +653,13 @@ pub fn rope_insert_table_anchor(
     } else {
         // After target which is last: "\n\u{FFFC}" appended.
         // TableAnchor's byte_start sits 1 past the original
-        // total (after the new `\n`).
+        // total (after the new `\n`). An empty target begins at the
+        // insertion point as well and stays there.
         (
             "\n\u{FFFC}",
             insert_pos + 1,
             target_idx + 1,
-            insert_pos,
+            insert_pos + 1,
             4i32,
         )
     };
-- 
2.43.0


From 9853eeacfaa995687ec37acd5dcc8ad8349865bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 46/57] fix: removing the only content of a document leaves an
 empty paragraph

---
 .../src/units_of_work/remove_table_uow.rs     |  1 +
 .../src/use_cases/remove_table_uc.rs          | 24 ++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/units_of_work/remove_table_uow.rs b/crates/document_editing/src/units_of_work/remove_table_uow.rs
index 144e90f..11fb039 100644
--- a/crates/document_editing/src/units_of_work/remove_table_uow.rs
+++ b/crates/document_editing/src/units_of_work/remove_table_uow.rs
@@ -99,6 +99,7 @@ impl CommandUnitOfWork for RemoveTableUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Get")]
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 1d2c2fc..8dc56f1 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -28,6 +28,7 @@ pub trait RemoveTableUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Get")]
@@ -132,6 +133,7 @@ fn execute_remove_table(
     }
 
     // Remove anchor frame
+    let mut parent_frame_id: Option<EntityId> = None;
     if let Some(anchor_id) = anchor_frame_id {
         // First, remove the anchor from its parent frame's child_order
         let frames_opt = uow.get_frame_multi(&frame_ids)?;
@@ -142,6 +144,7 @@ fn execute_remove_table(
                 updated.child_order.retain(|&x| x != neg_anchor);
                 updated.updated_at = now;
                 uow.update_frame(&updated)?;
+                parent_frame_id = Some(updated.id);
                 break;
             }
         }
@@ -181,9 +184,28 @@ fn execute_remove_table(
         }
     }
 
+    // A document always has a block: one that was nothing but the table
+    // (an import need not put any text around it) is left empty.
+    let mut added_blocks = 0;
+    if let Some(parent_id) = parent_frame_id {
+        let mut has_block = false;
+        for fid in uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)? {
+            let block_ids = uow.get_frame_relationship(&fid, &FrameRelationshipField::Blocks)?;
+            has_block |= !block_ids.is_empty();
+        }
+        if !has_block && let Some(mut parent) = uow.get_frame(&parent_id)? {
+            let block = uow.create_block(&Block::default(), parent_id, -1)?;
+            parent.child_order.push(block.id as i64);
+            parent.updated_at = now;
+            uow.update_frame(&parent)?;
+            common::database::rope_helpers::rope_append_empty_block(&uow.store(), block.id);
+            added_blocks = 1;
+        }
+    }
+
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed.blocks;
+    updated_doc.block_count += added_blocks - removed.blocks;
     updated_doc.character_count -= removed.characters;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
-- 
2.43.0


From 5d61159bcc7febd154bcec024b616cb698a9d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 47/57] fix: a deletion inside a table measures its cells
 before clearing them

---
 .../src/use_cases/delete_text_uc.rs           | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 737b198..fc9b2d8 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -251,7 +251,19 @@ fn execute_delete(
         let mut affected_set: std::collections::HashSet<EntityId> =
             std::collections::HashSet::new();
         let mut affected_cell_frames: Vec<EntityId> = Vec::new();
+        // Where each cell begins and ends, before any of them is cleared.
+        let mut cell_extents: std::collections::HashMap<EntityId, (i64, i64)> =
+            std::collections::HashMap::new();
         for block in &blocks {
+            if let Some(&cf_id) = block_to_cell_frame.get(&block.id) {
+                let block_start = block.document_position;
+                let block_end = block_start + block_char_length(block, &store);
+                let extent = cell_extents
+                    .entry(cf_id)
+                    .or_insert((block_start, block_end));
+                extent.0 = extent.0.min(block_start);
+                extent.1 = extent.1.max(block_end);
+            }
             if block.document_position + block_char_length(block, &store) >= start
                 && block.document_position <= end
                 && let Some(&cf_id) = block_to_cell_frame.get(&block.id)
@@ -309,16 +321,10 @@ fn execute_delete(
 
             let mut table_min_pos = i64::MAX;
             let mut table_max_pos = i64::MIN;
-            for c in &cells {
-                if let Some(cf_id) = c.cell_frame {
-                    let blk_ids =
-                        uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?;
-                    let blk_opts = uow.get_block_multi(&blk_ids)?;
-                    for b in blk_opts.into_iter().flatten() {
-                        table_min_pos = table_min_pos.min(b.document_position);
-                        table_max_pos =
-                            table_max_pos.max(b.document_position + block_char_length(&b, &store));
-                    }
+            for cf_id in cells.iter().filter_map(|c| c.cell_frame) {
+                if let Some(&(cell_start, cell_end)) = cell_extents.get(&cf_id) {
+                    table_min_pos = table_min_pos.min(cell_start);
+                    table_max_pos = table_max_pos.max(cell_end);
                 }
             }
 
-- 
2.43.0


From 97c78d2de98f1f18cc29655b92833f4258fba1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 48/57] fix: a deletion across cells takes the removed blocks
 and tables off the rope

---
 .../src/use_cases/delete_text_uc.rs           | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index fc9b2d8..6d5c6bc 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -521,7 +521,7 @@ fn execute_delete(
             }
         }
 
-        let remaining_block_count = {
+        let mut remaining_blocks: Vec<Block> = {
             let get_tcf = |table_id: &EntityId| -> anyhow::Result<Vec<EntityId>> {
                 let cids = uow.get_table_relationship(table_id, &TableRelationshipField::Cells)?;
                 let cs = uow.get_table_cell_multi(&cids)?;
@@ -536,9 +536,31 @@ fn execute_delete(
                 &frame_id,
             )?;
             let opts = uow.get_block_multi(&candidate_ids)?;
-            opts.into_iter().flatten().count()
+            opts.into_iter().flatten().collect()
         };
-        if remaining_block_count == 0 {
+
+        // The rope lets go of the blocks and tables which are gone, and the
+        // blocks left move up to the positions the flow now gives them.
+        {
+            let store = uow.store();
+            let remaining_ids: std::collections::HashSet<EntityId> =
+                remaining_blocks.iter().map(|b| b.id).collect();
+            for block in blocks.iter().filter(|b| !remaining_ids.contains(&b.id)) {
+                common::database::rope_helpers::rope_remove_block(&store, block.id);
+            }
+            for &tid in &tables_to_remove {
+                common::database::rope_helpers::rope_remove_table_anchor(&store, tid);
+            }
+            let mut running: i64 = 0;
+            for b in &mut remaining_blocks {
+                b.document_position = running;
+                running += block_char_length(b, &store) + 1;
+            }
+            if !remaining_blocks.is_empty() {
+                uow.update_block_multi(&remaining_blocks)?;
+            }
+        }
+        if remaining_blocks.is_empty() {
             let empty_block = Block {
                 document_position: 0,
                 ..Block::default()
-- 
2.43.0


From 12358a5e23e87de54f2d1e9cd48fd4f20492e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 49/57] fix: a table inserted in a cell goes beside the
 containing table

---
 .../src/units_of_work/insert_table_uow.rs     |  2 +
 .../src/use_cases/insert_table_uc.rs          | 55 +++++++++++--------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/crates/document_editing/src/units_of_work/insert_table_uow.rs b/crates/document_editing/src/units_of_work/insert_table_uow.rs
index 39399fd..9f60895 100644
--- a/crates/document_editing/src/units_of_work/insert_table_uow.rs
+++ b/crates/document_editing/src/units_of_work/insert_table_uow.rs
@@ -93,7 +93,9 @@ impl CommandUnitOfWork for InsertTableUnitOfWork {
 #[macros::uow_action(entity = "Block", action = "Update")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Create")]
+#[macros::uow_action(entity = "Table", action = "GetRelationship")]
 #[macros::uow_action(entity = "TableCell", action = "Create")]
+#[macros::uow_action(entity = "TableCell", action = "GetMulti")]
 impl InsertTableUnitOfWorkTrait for InsertTableUnitOfWork {}
 
 pub struct InsertTableUnitOfWorkFactory {
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 63955d5..68fc258 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -8,6 +8,7 @@ use common::database::rope_helpers::{
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
+use common::direct_access::table::table_repository::TableRelationshipField;
 use common::entities::{Block, Document, Frame, Root, Table, TableCell};
 use common::snapshot::EntityTreeSnapshot;
 use common::types::{EntityId, ROOT_ENTITY_ID};
@@ -39,7 +40,9 @@ pub trait InsertTableUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Block", action = "Update")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Create")]
+#[macros::uow_action(entity = "Table", action = "GetRelationship")]
 #[macros::uow_action(entity = "TableCell", action = "Create")]
+#[macros::uow_action(entity = "TableCell", action = "GetMulti")]
 pub trait InsertTableUnitOfWorkTrait: CommandUnitOfWork {}
 
 impl_cell_frame_creator!(dyn InsertTableUnitOfWorkTrait);
@@ -224,22 +227,37 @@ fn execute_insert_table(
         // hoist the new table OUT to be a sibling of the containing
         // table, immediately after it. Reproduced by
         // `insert_table_from_inside_cell_lands_after_containing_table`.
-        let owning_frame = uow
-            .get_frame(&found_frame_id)?
-            .ok_or_else(|| anyhow!("Owning frame {found_frame_id} not found"))?;
-        let mut cell_anchor: Option<(EntityId, EntityId)> = None;
-        if let Some(parent_id) = owning_frame.parent_frame {
-            let parent = uow
-                .get_frame(&parent_id)?
-                .ok_or_else(|| anyhow!("Parent frame {parent_id} not found"))?;
-            if parent.table.is_some()
-                && let Some(grandparent_id) = parent.parent_frame
-            {
-                cell_anchor = Some((parent_id, grandparent_id));
+        // The tables know their cells; a cell's frame need not lead back to
+        // its table (cells of imported tables, of added rows and columns).
+        let mut cell_anchor: Option<(EntityId, EntityId, Vec<EntityId>)> = None;
+        for table_id in
+            uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Tables)?
+        {
+            let cell_ids = uow.get_table_relationship(&table_id, &TableRelationshipField::Cells)?;
+            let cells = uow.get_table_cell_multi(&cell_ids)?;
+            let cell_frames: Vec<EntityId> = cells
+                .into_iter()
+                .flatten()
+                .filter_map(|c| c.cell_frame)
+                .collect();
+            if !cell_frames.contains(&found_frame_id) {
+                continue;
             }
+            for fid in &frame_ids {
+                let frame = uow
+                    .get_frame(fid)?
+                    .ok_or_else(|| anyhow!("Frame {fid} not found"))?;
+                if frame.table == Some(table_id)
+                    && let Some(grandparent_id) = frame.parent_frame
+                {
+                    cell_anchor = Some((*fid, grandparent_id, cell_frames));
+                    break;
+                }
+            }
+            break;
         }
 
-        if let Some((anchor_frame_id, grandparent_id)) = cell_anchor {
+        if let Some((anchor_frame_id, grandparent_id, cell_frames)) = cell_anchor {
             let grandparent = uow
                 .get_frame(&grandparent_id)?
                 .ok_or_else(|| anyhow!("Grandparent frame {grandparent_id} not found"))?;
@@ -251,8 +269,7 @@ fn execute_insert_table(
                 .ok_or_else(|| anyhow!("Anchor frame missing from grandparent child_order"))?;
 
             // cell_start: position right after the existing table's
-            // last cell. Cells of the existing table are blocks in
-            // frames whose `parent_frame == anchor_frame_id`. The
+            // last cell. The
             // snapshot walker assigns running positions where each
             // block contributes (length + 1) — the +1 is the per-block
             // boundary the walker emits between siblings. So the next
@@ -260,13 +277,7 @@ fn execute_insert_table(
             // `max(cell_block.document_position + cell_block.length) + 1`.
             let mut last_end: i64 = 0;
             let mut any = false;
-            for fid in &frame_ids {
-                let f = uow
-                    .get_frame(fid)?
-                    .ok_or_else(|| anyhow!("Frame {fid} not found"))?;
-                if f.parent_frame != Some(anchor_frame_id) {
-                    continue;
-                }
+            for fid in &cell_frames {
                 let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
                 if block_ids.is_empty() {
                     continue;
-- 
2.43.0


From e4571342dc3a56c70fb5b4ad4da8e0c46ce6385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 50/57] fix: formatted text over a selection moves the
 following blocks

---
 .../document_editing/src/use_cases/insert_formatted_text_uc.rs  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 3b6e316..b30eed7 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -280,6 +280,8 @@ fn execute_with_selection(
     let _ = insert_formatted_at(uow, &block, start_offset, dto)?;
 
     let text_len = dto.text.chars().count() as i64;
+    shift_following_blocks(uow, &doc_id, &block, text_len - chars_removed)?;
+
     let mut updated_doc = uow
         .get_document(&doc_id)?
         .ok_or_else(|| anyhow!("Document not found"))?;
-- 
2.43.0


From 033d290210a2f3cc02def3b5f9e3dd24faae029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 51/57] fix: a list inserted beside or in a table goes to its
 place

---
 .../src/units_of_work/insert_list_uow.rs      |  4 +-
 .../src/use_cases/insert_list_uc.rs           | 62 ++++++++++++++-----
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/crates/document_editing/src/units_of_work/insert_list_uow.rs b/crates/document_editing/src/units_of_work/insert_list_uow.rs
index cdbd0b7..57c4e6c 100644
--- a/crates/document_editing/src/units_of_work/insert_list_uow.rs
+++ b/crates/document_editing/src/units_of_work/insert_list_uow.rs
@@ -7,7 +7,7 @@ use anyhow::{Ok, Result};
 use common::database::CommandUnitOfWork;
 use common::database::{db_context::DbContext, transactions::Transaction};
 #[allow(unused_imports)]
-use common::entities::{Block, Document, Frame, List, Root};
+use common::entities::{Block, Document, Frame, List, Root, Table, TableCell};
 use common::event::{AllEvent, DirectAccessEntity, Event, EventBuffer, EventHub, Origin};
 #[allow(unused_imports)]
 use common::types;
@@ -103,6 +103,8 @@ impl CommandUnitOfWork for InsertListUnitOfWork {
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetRelationship")]
 #[macros::uow_action(entity = "List", action = "Create")]
+#[macros::uow_action(entity = "Table", action = "GetRelationship")]
+#[macros::uow_action(entity = "TableCell", action = "GetMulti")]
 impl InsertListUnitOfWorkTrait for InsertListUnitOfWork {}
 
 pub struct InsertListUnitOfWorkFactory {
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index f2f8274..bd98ea7 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::find_block_at_position;
+use super::editing_helpers::{collect_block_ids_recursive, find_block_at_position};
 use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
@@ -9,7 +9,8 @@ use common::database::rope_helpers::{
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
-use common::entities::{Block, Document, Frame, List, Root};
+use common::direct_access::table::table_repository::TableRelationshipField;
+use common::entities::{Block, Document, Frame, List, Root, TableCell};
 use common::snapshot::EntityTreeSnapshot;
 use common::types::{EntityId, ROOT_ENTITY_ID};
 use common::undo_redo::UndoRedoCommand;
@@ -36,6 +37,8 @@ pub trait InsertListUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetRelationship")]
 #[macros::uow_action(entity = "List", action = "Create")]
+#[macros::uow_action(entity = "Table", action = "GetRelationship")]
+#[macros::uow_action(entity = "TableCell", action = "GetMulti")]
 pub trait InsertListUnitOfWorkTrait: CommandUnitOfWork {}
 
 pub struct InsertListUseCase {
@@ -86,17 +89,23 @@ fn execute_insert_list(
         .first()
         .ok_or_else(|| anyhow!("Document has no frames"))?;
 
-    let frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Frame not found"))?;
-
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
-
-    // Get all blocks
+    // All blocks in the order of the flow, those in sub-frames and in the
+    // cells of tables included
+    let get_table_cell_frames = |table_id: &EntityId| -> Result<Vec<EntityId>> {
+        let cell_ids = uow.get_table_relationship(table_id, &TableRelationshipField::Cells)?;
+        let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
+        let mut cells: Vec<TableCell> = cells_opt.into_iter().flatten().collect();
+        cells.sort_by(|a, b| a.row.cmp(&b.row).then(a.column.cmp(&b.column)));
+        Ok(cells.into_iter().filter_map(|c| c.cell_frame).collect())
+    };
+    let block_ids = collect_block_ids_recursive(
+        &|id| uow.get_frame(id),
+        &|id, field| uow.get_frame_relationship(id, field),
+        &get_table_cell_frames,
+        &frame_id,
+    )?;
     let blocks_opt = uow.get_block_multi(&block_ids)?;
-    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
 
     // Find block at position to determine insert index
     let (current_block, block_idx, _offset) =
@@ -130,22 +139,41 @@ fn execute_insert_list(
         ..Default::default()
     };
 
-    let insert_index = (block_idx + 1) as i32;
-    let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
+    // The frame which holds the current block: the root frame, a sub-frame or
+    // the frame of a table cell.
+    let mut owner_frame_id = frame_id;
+    let mut owner_index = 0;
+    for fid in &frame_ids {
+        let ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+        if let Some(i) = ids.iter().position(|id| *id == current_block.id) {
+            owner_frame_id = *fid;
+            owner_index = i;
+            break;
+        }
+    }
+
+    let insert_index = (owner_index + 1) as i32;
+    let created_block = uow.create_block(&new_block, owner_frame_id, insert_index)?;
 
     // Mirror the new empty block into the rope, right after the current one.
     let current_byte_len = block_content_via_store(&current_block, &store).len() as u32;
     rope_split_block(&store, current_block.id, current_byte_len, created_block.id);
 
     // Update frame's child_order
-    let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let mut updated_frame = uow
+        .get_frame(&owner_frame_id)?
+        .ok_or_else(|| anyhow!("Frame not found"))?;
+    let child_order_insert_pos = updated_frame
+        .child_order
+        .iter()
+        .position(|e| *e == current_block.id as i64)
+        .map_or(updated_frame.child_order.len(), |i| i + 1);
     updated_frame
         .child_order
         .insert(child_order_insert_pos, created_block.id as i64);
     updated_frame.updated_at = now;
     updated_frame.blocks =
-        uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
+        uow.get_frame_relationship(&owner_frame_id, &FrameRelationshipField::Blocks)?;
     uow.update_frame(&updated_frame)?;
 
     // Update subsequent blocks' document_position (those after the new block)
-- 
2.43.0


From 780589a645d117c064973a79998024d02036406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 52/57] fix: exports show nested frames and tables once

---
 .../src/use_cases/export_html_uc.rs           | 19 +++++++++++++++++--
 .../src/use_cases/export_latex_uc.rs          | 19 +++++++++++++++++--
 .../src/use_cases/export_markdown_uc.rs       | 19 +++++++++++++++++--
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index cb67020..d3943c6 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -79,11 +79,26 @@ impl ExportHtmlUseCase {
             }
         }
 
+        // Frames which are rendered in their place inside another frame
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| -entry as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
-            // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            // Skip cell frames — they're rendered as part of their table — and
+            // frames inside another frame
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 867fd2c..4a6e9f3 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -80,11 +80,26 @@ impl ExportLatexUseCase {
             }
         }
 
+        // Frames which are rendered in their place inside another frame
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| -entry as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
-            // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            // Skip cell frames — they're rendered as part of their table — and
+            // frames inside another frame
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 44056cf..3fccd1d 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -78,11 +78,26 @@ impl ExportMarkdownUseCase {
             }
         }
 
+        // Frames which are rendered in their place inside another frame
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| -entry as EntityId),
+                );
+            }
+        }
+
         let mut output_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
-            // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            // Skip cell frames — they're rendered as part of their table — and
+            // frames inside another frame
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
-- 
2.43.0


From 53e785d9286d3415548a50ed185b6a7ca227e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 53/57] fix: the DOCX export keeps tables and nested frames in
 their place

---
 .../src/use_cases/export_docx_uc.rs           | 117 +++++++++++++-----
 1 file changed, 87 insertions(+), 30 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index a5d40fc..3964dd1 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -8,7 +8,7 @@ use common::entities::{Block, Document, Frame, List, Root, Table, TableCell};
 use common::format_runs::InlineContent;
 use common::long_operation::LongOperation;
 use common::types::{EntityId, ROOT_ENTITY_ID};
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use std::sync::Arc;
 
@@ -123,40 +123,43 @@ impl LongOperation for ExportDocxUseCase {
             Some("Walking document tree...".to_string()),
         ));
 
-        for (frame_idx, frame_id) in frame_ids.iter().enumerate() {
-            if cancel_flag.load(Ordering::Relaxed) {
-                uow.end_transaction()?;
-                return Err(anyhow!("Operation was cancelled"));
+        // Frames which are part of another frame come in their place in it
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| -entry as EntityId),
+                );
             }
-
+        }
+        let mut parts: Vec<FlowPart> = Vec::new();
+        for frame_id in &frame_ids {
             // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
-                continue;
-            }
-
-            // Check if this is a table anchor frame
-            let frame = uow.get_frame(frame_id)?;
-            if let Some(ref f) = frame
-                && let Some(table_id) = f.table
-            {
-                let table = self.render_table_docx(&*uow, &table_id)?;
-                docx = docx.add_table(table);
-                paragraph_count += 1;
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
+            Self::collect_flow(&*uow, frame_id, &cell_frame_ids, &mut parts)?;
+        }
 
-            let block_ids = uow.get_frame_relationship(
-                frame_id,
-                &common::direct_access::frame::FrameRelationshipField::Blocks,
-            )?;
-
-            if block_ids.is_empty() {
-                continue;
+        for (part_idx, part) in parts.iter().enumerate() {
+            if cancel_flag.load(Ordering::Relaxed) {
+                uow.end_transaction()?;
+                return Err(anyhow!("Operation was cancelled"));
             }
 
-            let blocks_opt = uow.get_block_multi(&block_ids)?;
-            let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-            blocks.sort_by_key(|b| b.document_position);
+            let blocks = match part {
+                FlowPart::Table(table_id) => {
+                    let table = self.render_table_docx(&*uow, table_id)?;
+                    docx = docx.add_table(table);
+                    paragraph_count += 1;
+                    continue;
+                }
+                FlowPart::Blocks(blocks) => blocks,
+            };
             let total = blocks.len();
 
             for (idx, block) in blocks.iter().enumerate() {
@@ -233,8 +236,8 @@ impl LongOperation for ExportDocxUseCase {
                 paragraph_count += 1;
 
                 if idx % 10 == 0 {
-                    let frames_done = frame_idx as f32 + idx as f32 / total as f32;
-                    let pct = 10.0 + (frames_done / frame_ids.len() as f32) * 80.0;
+                    let parts_done = part_idx as f32 + idx as f32 / total as f32;
+                    let pct = 10.0 + (parts_done / parts.len() as f32) * 80.0;
                     progress_callback(common::long_operation::OperationProgress::new(
                         pct,
                         Some(format!("Processing paragraph {}/{}", idx + 1, total)),
@@ -279,7 +282,61 @@ impl LongOperation for ExportDocxUseCase {
     }
 }
 
+/// Consecutive paragraphs, or a table.
+enum FlowPart {
+    Blocks(Vec<Block>),
+    Table(EntityId),
+}
+
 impl ExportDocxUseCase {
+    /// The paragraphs and tables of a frame and of the frames in it, in order.
+    fn collect_flow(
+        uow: &dyn ExportDocxUnitOfWorkTrait,
+        frame_id: &EntityId,
+        cell_frame_ids: &HashSet<EntityId>,
+        parts: &mut Vec<FlowPart>,
+    ) -> Result<()> {
+        let Some(frame) = uow.get_frame(frame_id)? else {
+            return Ok(());
+        };
+        if let Some(table_id) = frame.table {
+            parts.push(FlowPart::Table(table_id));
+            return Ok(());
+        }
+
+        let block_ids = uow.get_frame_relationship(
+            frame_id,
+            &common::direct_access::frame::FrameRelationshipField::Blocks,
+        )?;
+        let blocks_opt = uow.get_block_multi(&block_ids)?;
+        let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+        if frame.child_order.is_empty() {
+            blocks.sort_by_key(|b| b.document_position);
+            parts.push(FlowPart::Blocks(blocks));
+            return Ok(());
+        }
+
+        let mut by_id: HashMap<EntityId, Block> = blocks.into_iter().map(|b| (b.id, b)).collect();
+        let mut pending: Vec<Block> = Vec::new();
+        for &entry in &frame.child_order {
+            if entry > 0 {
+                pending.extend(by_id.remove(&(entry as EntityId)));
+                continue;
+            }
+            if !pending.is_empty() {
+                parts.push(FlowPart::Blocks(std::mem::take(&mut pending)));
+            }
+            let sub_frame_id = -entry as EntityId;
+            if !cell_frame_ids.contains(&sub_frame_id) {
+                Self::collect_flow(uow, &sub_frame_id, cell_frame_ids, parts)?;
+            }
+        }
+        if !pending.is_empty() {
+            parts.push(FlowPart::Blocks(pending));
+        }
+        Ok(())
+    }
+
     fn render_table_docx(
         &self,
         uow: &dyn ExportDocxUnitOfWorkTrait,
-- 
2.43.0


From 564b603fe0b2bce9631ad1d53c9b0b17e12c97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:34 +0000
Subject: [PATCH 54/57] fix: merged DOCX cells keep their columns in the rows
 they continue in

---
 .../src/use_cases/export_docx_uc.rs           | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index 3964dd1..1215dc7 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -375,17 +375,18 @@ impl ExportDocxUseCase {
                     // In DOCX, vertically merged continuation cells still need a <w:tc>
                     // with vMerge continue. For column spans, the cell is simply absent.
                     // Check if this is a vertical merge continuation (a cell above spans into this row)
-                    let needs_vmerge_continue = r > 0 && {
-                        // Look for a cell above that spans into this row
-                        cells.iter().any(|cell| {
-                            cell.column == c as i64
-                                && cell.row < r as i64
-                                && (cell.row + cell.row_span) > r as i64
-                        })
-                    };
-                    if needs_vmerge_continue {
-                        let cont_cell =
+                    // Look for a cell above that spans into this row
+                    let spanning_cell = cells.iter().find(|cell| {
+                        cell.column == c as i64
+                            && cell.row < r as i64
+                            && (cell.row + cell.row_span) > r as i64
+                    });
+                    if let Some(cell) = spanning_cell {
+                        let mut cont_cell =
                             docx_rs::TableCell::new().vertical_merge(VMergeType::Continue);
+                        if cell.column_span > 1 {
+                            cont_cell = cont_cell.grid_span(cell.column_span as usize);
+                        }
                         docx_cells.push(cont_cell);
                     }
                     continue;
-- 
2.43.0


From 44ea8a2858187e400703b0194d793dedddd114cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:34 +0000
Subject: [PATCH 55/57] fix: the HTML export keeps the paragraphs of a cell in
 order

---
 crates/document_io/src/use_cases/export_html_uc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index d3943c6..ac762ce 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -426,7 +426,8 @@ impl ExportHtmlUseCase {
                             &common::direct_access::frame::FrameRelationshipField::Blocks,
                         )?;
                         let blocks_opt = uow.get_block_multi(&block_ids)?;
-                        let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        blocks.sort_by_key(|b| b.document_position);
 
                         let mut cell_parts: Vec<String> = Vec::new();
                         for block in &blocks {
-- 
2.43.0


From 0eb29b8e2429298b5134ff0ef1b22d36f2287d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:34 +0000
Subject: [PATCH 56/57] fix: the LaTeX export keeps the columns below a merged
 cell

---
 .../src/use_cases/export_latex_uc.rs          | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 4a6e9f3..098c5b3 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -120,7 +120,7 @@ impl ExportLatexUseCase {
                 &dto.document_class
             };
             format!(
-                "\\documentclass{{{}}}\n\\usepackage{{hyperref}}\n\\usepackage{{ulem}}\n\\usepackage{{graphicx}}\n\\usepackage{{setspace}}\n\\usepackage{{xcolor}}\n\\begin{{document}}\n\n{}\n\n\\end{{document}}",
+                "\\documentclass{{{}}}\n\\usepackage{{hyperref}}\n\\usepackage{{ulem}}\n\\usepackage{{graphicx}}\n\\usepackage{{multirow}}\n\\usepackage{{setspace}}\n\\usepackage{{xcolor}}\n\\begin{{document}}\n\n{}\n\n\\end{{document}}",
                 doc_class, body
             )
         } else {
@@ -449,6 +449,20 @@ impl ExportLatexUseCase {
             let mut c = 0;
             while c < cols {
                 if covered[r][c] {
+                    // Below a cell which spans rows, an empty entry keeps
+                    // the columns.
+                    let spanning_cell = cells.iter().find(|cell| {
+                        cell.column == c as i64
+                            && cell.row < r as i64
+                            && (cell.row + cell.row_span) > r as i64
+                    });
+                    if let Some(cell) = spanning_cell {
+                        row_parts.push(if cell.column_span > 1 {
+                            format!("\\multicolumn{{{}}}{{|l|}}{{}}", cell.column_span)
+                        } else {
+                            String::new()
+                        });
+                    }
                     c += 1;
                     continue;
                 }
@@ -466,7 +480,8 @@ impl ExportLatexUseCase {
                             &common::direct_access::frame::FrameRelationshipField::Blocks,
                         )?;
                         let blocks_opt = uow.get_block_multi(&block_ids)?;
-                        let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        blocks.sort_by_key(|b| b.document_position);
 
                         let mut cell_parts: Vec<String> = Vec::new();
                         for block in &blocks {
-- 
2.43.0


From 81f326e6f9278f07e3cc53dc8119dbe5f45b8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:30 +0000
Subject: [PATCH 57/57] fix: pasted paragraphs go to their place in a quotation

---
 .../src/use_cases/editing_helpers.rs                |  9 +++++++++
 .../src/use_cases/insert_fragment_uc.rs             | 13 +++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 27c8393..0cc149e 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -193,6 +193,15 @@ pub fn is_word_boundary_punct(c: char) -> bool {
     )
 }
 
+/// The place right behind a block in the `child_order` of its frame.
+pub fn child_order_index_after(frame: &Frame, block_id: EntityId) -> usize {
+    frame
+        .child_order
+        .iter()
+        .position(|entry| *entry == block_id as i64)
+        .map_or(frame.child_order.len(), |i| i + 1)
+}
+
 /// Find the block containing the given document position from a sorted list of blocks.
 ///
 /// Returns `(block, index_in_list, offset_within_block)`.
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index bbfae82..ae41eec 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellFrameCreator, collect_block_ids_recursive, create_cell_frame, find_block_at_position,
-    impl_cell_frame_creator,
+    CellFrameCreator, child_order_index_after, collect_block_ids_recursive, create_cell_frame,
+    find_block_at_position, impl_cell_frame_creator,
 };
 use crate::InsertFragmentDto;
 use crate::InsertFragmentResultDto;
@@ -1450,7 +1450,7 @@ fn insert_mixed_fragment(
     }
 
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
     for (i, entry) in new_child_order_entries.iter().enumerate() {
         updated_frame
             .child_order
@@ -2008,7 +2008,7 @@ fn execute_insert_fragment(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         if let Some(tid) = created_tail_id {
             new_child_ids.push(tid as i64);
@@ -2209,7 +2209,8 @@ fn execute_insert_fragment(
                 );
 
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos =
+                    child_order_index_after(&updated_frame, current_block.id);
                 updated_frame
                     .child_order
                     .insert(child_order_insert_pos, created_tail.id as i64);
@@ -2375,7 +2376,7 @@ fn execute_insert_fragment(
             );
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
-- 
2.43.0

