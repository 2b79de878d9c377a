From 8c19dcdf5cfa9f042320f0cf83da4e15a2c2df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:36 +0000
Subject: [PATCH 01/16] fix: order NaN key components totally and hash -0.0
 like 0.0

floats_cmp_* mapped an incomparable pair to Equal, so a NaN key compared equal to
every other float key although KeyRow/KeyOwned equality denied it; the in-memory
ordered maps and merges rely on a total order. -0.0 and 0.0 compare equal but
hashed differently.
---
 src/key/row.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 30b7c10..9d50f1e 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -323,16 +323,23 @@ fn floats_equal_f64(lhs: f64, rhs: f64) -> bool {
 }
 
 fn floats_cmp_f32(lhs: f32, rhs: f32) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals itself and sorts after every other value, so the order stays total.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals itself and sorts after every other value, so the order stays total.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // -0.0 and 0.0 compare equal and must hash alike.
+        0u32.hash(state);
     } else {
         value.to_bits().hash(state);
     }
@@ -341,6 +348,9 @@ fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
 fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // -0.0 and 0.0 compare equal and must hash alike.
+        0u64.hash(state);
     } else {
         value.to_bits().hash(state);
     }
-- 
2.43.0


From 9a8ca1826b2af693362bc23d8b8993a6aa01bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:54 +0000
Subject: [PATCH 02/16] fix: count delete markers in an immutable segment's
 timestamp range

---
 src/inmem/immutable/memtable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..27a092b 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,7 +148,11 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        let mut iter = self
+            .mvcc
+            .commit_ts
+            .iter()
+            .chain(self.deletes.commit_ts.iter());
         let first = iter.next()?;
         let mut min_ts = *first;
         let mut max_ts = *first;
-- 
2.43.0


From ff325cfbd9d4679ca7e94b693c5743042f5d8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:32 +0000
Subject: [PATCH 03/16] fix: derive pruning bounds from literals of the key
 column's own type

---
 src/query/scan.rs | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/query/scan.rs b/src/query/scan.rs
index 2401a59..3739e73 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -487,8 +487,39 @@ pub(crate) fn key_bounds_for_predicate(
     bounds_from_expr(predicate, key_column, field.data_type())
 }
 
-fn scalar_to_key(value: &ScalarValue) -> Option<KeyOwned> {
-    <KeyOwned as KeyPredicateValue>::from_scalar(value)
+/// Convert a predicate literal into a key of the key column's own type.
+///
+/// Keys only compare by value within one type, so a literal of another type is converted to the
+/// type of the key column. Literals that type cannot represent yield `None` (no pruning).
+fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+    match (key_type, value) {
+        (DataType::Int32, _) => i32::from_scalar(value).map(KeyOwned::from),
+        (DataType::Int64, _) => i64::from_scalar(value).map(KeyOwned::from),
+        (DataType::UInt32, _) => {
+            let value = u32::try_from(i64::from_scalar(value)?).ok()?;
+            Some(KeyOwned::from(value))
+        }
+        (DataType::UInt64, ScalarValue::UInt64(Some(value))) => Some(KeyOwned::from(*value)),
+        (DataType::UInt64, _) => {
+            let value = u64::try_from(i64::from_scalar(value)?).ok()?;
+            Some(KeyOwned::from(value))
+        }
+        (DataType::Float32, ScalarValue::Float32(Some(value))) => Some(KeyOwned::from(*value)),
+        (DataType::Float64, ScalarValue::Float32(_) | ScalarValue::Float64(_))
+        | (DataType::Boolean, ScalarValue::Boolean(_))
+        | (
+            DataType::Utf8 | DataType::LargeUtf8 | DataType::Utf8View,
+            ScalarValue::Utf8(_) | ScalarValue::LargeUtf8(_) | ScalarValue::Utf8View(_),
+        )
+        | (
+            DataType::Binary | DataType::LargeBinary | DataType::FixedSizeBinary(_),
+            ScalarValue::Binary(_)
+            | ScalarValue::LargeBinary(_)
+            | ScalarValue::BinaryView(_)
+            | ScalarValue::FixedSizeBinary(_, _),
+        ) => KeyOwned::from_scalar(value),
+        _ => None,
+    }
 }
 
 fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Option<KeyBounds> {
@@ -496,7 +527,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
         Expr::True => None,
         Expr::False => Some(KeyBounds::empty()),
         Expr::Cmp { column, op, value } if column == key_column => {
-            let key = scalar_to_key(value)?;
+            let key = scalar_to_key(value, key_type)?;
             let bounds = match op {
                 aisle::CmpOp::Eq => KeyBounds::with_range((key.clone(), true), (key, true)),
                 aisle::CmpOp::NotEq => return None,
@@ -513,8 +544,8 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             high,
             inclusive,
         } if column == key_column => {
-            let low_key = scalar_to_key(low)?;
-            let high_key = scalar_to_key(high)?;
+            let low_key = scalar_to_key(low, key_type)?;
+            let high_key = scalar_to_key(high, key_type)?;
             Some(KeyBounds::with_range(
                 (low_key, *inclusive),
                 (high_key, *inclusive),
@@ -538,7 +569,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             }
             let mut keys = Vec::with_capacity(values.len());
             for value in values {
-                let key = scalar_to_key(value)?;
+                let key = scalar_to_key(value, key_type)?;
                 keys.push(key);
             }
             let min = keys.iter().min().cloned()?;
-- 
2.43.0


From ff1900788549f2f20e9a4201dc1ad612f902e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:55 +0000
Subject: [PATCH 04/16] fix: reject a bad batch before it can seal the memtable
 or take a slot

---
 src/inmem/mutable/memtable.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 654e707..19d98a6 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -143,6 +143,17 @@ impl DynMemInner {
         batch: RecordBatch,
         commit_ts_column: UInt64Array,
     ) -> Result<Result<(), KeyExtractError>, ()> {
+        // Project the keys before reserving a slot, so that a rejected batch neither takes a slot
+        // nor makes the caller seal.
+        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
+        let key_rows = match extractor.project_view(&batch, &row_indices) {
+            Ok(rows) => rows,
+            Err(e) => return Ok(Err(e)),
+        };
+        if key_rows.is_empty() {
+            return Ok(Ok(()));
+        }
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
@@ -160,12 +171,6 @@ impl DynMemInner {
             ))
             .expect("batch slot already initialized - invariant violated");
 
-        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
-        let key_rows = match extractor.project_view(&batch, &row_indices) {
-            Ok(rows) => rows,
-            Err(e) => return Ok(Err(e)),
-        };
-
         for (row_idx, key_row) in key_rows.into_iter().enumerate() {
             let key_size = key_row.heap_size();
             let key_owned = key_row.to_owned();
@@ -237,13 +242,6 @@ impl DynMemInner {
             ))));
         }
 
-        // Reserve a delete slot atomically (lock-free).
-        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
-        if slot_idx >= self.delete_slots.len() {
-            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
-            return Err(()); // Capacity exhausted
-        }
-
         let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
         let key_rows = match delete_projection.project_view(&batch, &row_indices) {
             Ok(rows) => rows,
@@ -260,6 +258,13 @@ impl DynMemInner {
         };
         let attachment = DeleteAttachment::new(key_batch, commit_array.clone());
 
+        // Reserve a delete slot atomically (lock-free).
+        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
+        if slot_idx >= self.delete_slots.len() {
+            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
+            return Err(()); // Capacity exhausted
+        }
+
         // Write once via OnceLock (no concurrent writes to same slot).
         self.delete_slots[slot_idx]
             .set(attachment)
-- 
2.43.0


From a2f1877e87ffda9d2846c1fe967cb55edeade44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:53 +0000
Subject: [PATCH 05/16] fix: WAL frame numbering restarts when the active
 segment is empty on reopen

---
 src/wal/writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index fd6d505..28b3210 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -550,6 +550,16 @@ where
         let (completed_segments, active_segment, mut state_dirty) =
             Self::rehydrate_segment_metadata(&storage, &tail, state.as_ref()).await?;
 
+        // The active segment can be empty (crash right after a rotation): keep numbering after the
+        // frames of the completed segments as well.
+        if let Some(last_frame) = completed_segments
+            .iter()
+            .map(|meta| meta.bounds.last_frame)
+            .max()
+        {
+            next_frame_seq = next_frame_seq.max(last_frame.saturating_add(1));
+        }
+
         if let Some(handle) = state.as_mut()
             && Self::align_state_with_segments(handle, &completed_segments, active_segment.as_ref())
         {
-- 
2.43.0


From d83bb2f3a00c0ad1229e0603a74449c724c566b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:11 +0000
Subject: [PATCH 06/16] fix: provisional transaction ids can be reused after
 reopening a WAL

---
 src/wal/mod.rs     |  8 +++++---
 src/wal/storage.rs | 28 ++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index e306ed1..2516b00 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -951,9 +951,11 @@ where
             .and_then(|handle| handle.state().last_segment_seq);
 
         let tail_metadata = storage.tail_metadata_with_hint(wal_state_hint).await?;
-        let next_payload_seq = tail_metadata
-            .as_ref()
-            .and_then(|meta| meta.last_provisional_id)
+        let last_provisional_id = match tail_metadata.as_ref() {
+            Some(tail) => storage.last_provisional_id(tail).await?,
+            None => None,
+        };
+        let next_payload_seq = last_provisional_id
             .map(|last| last.saturating_add(1))
             .unwrap_or(frame::INITIAL_FRAME_SEQ);
         let initial_frame_seq = tail_metadata
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..33fc623 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -271,13 +271,13 @@ impl WalStorage {
         let completed = segments;
         let TailScan {
             last,
+            last_provisional_id,
             file_len,
             truncated,
             buffer,
         } = self.scan_tail(&active.path).await?;
 
         let last_frame_seq = last.as_ref().map(|meta| meta.seq);
-        let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
         let mut truncated_tail = truncated;
@@ -313,6 +313,18 @@ impl WalStorage {
         }))
     }
 
+    /// Largest provisional ID carried by any complete frame of the log described by `tail`.
+    ///
+    /// New transactions must start above it: replay matches appends with commits by provisional
+    /// ID, so reusing one would commit what a crashed transaction left behind.
+    pub(crate) async fn last_provisional_id(&self, tail: &TailMetadata) -> WalResult<Option<u64>> {
+        let mut last = tail.last_provisional_id;
+        for descriptor in &tail.completed {
+            last = last.max(self.scan_tail(&descriptor.path).await?.last_provisional_id);
+        }
+        Ok(last)
+    }
+
     async fn scan_tail(&self, path: &Path) -> WalResult<TailScan> {
         let mut file = self
             .fs
@@ -335,6 +347,7 @@ impl WalStorage {
         let file_len = data.len();
         let mut offset = 0usize;
         let mut last = None;
+        let mut last_provisional_id: Option<u64> = None;
         let mut truncated = false;
         while offset < data.len() {
             let slice = &data[offset..];
@@ -358,8 +371,10 @@ impl WalStorage {
 
             let payload = &data[(offset + FRAME_HEADER_SIZE)..payload_end];
             let provisional_id = match header.frame_type {
-                crate::wal::frame::FrameType::TxnAppend
-                | crate::wal::frame::FrameType::TxnCommit => {
+                crate::wal::frame::FrameType::TxnBegin
+                | crate::wal::frame::FrameType::TxnAppend
+                | crate::wal::frame::FrameType::TxnCommit
+                | crate::wal::frame::FrameType::TxnAbort => {
                     if payload.len() < 8 {
                         truncated = true;
                         break;
@@ -371,9 +386,9 @@ impl WalStorage {
                 _ => None,
             };
 
+            last_provisional_id = last_provisional_id.max(provisional_id);
             last = Some(FrameTailMeta {
                 seq: header.seq,
-                provisional_id,
                 end_offset: payload_end,
             });
             offset = payload_end;
@@ -391,6 +406,7 @@ impl WalStorage {
 
         Ok(TailScan {
             last,
+            last_provisional_id,
             file_len,
             truncated,
             buffer,
@@ -460,12 +476,12 @@ impl WalStorage {
 
 struct FrameTailMeta {
     seq: u64,
-    provisional_id: Option<u64>,
     end_offset: usize,
 }
 
 struct TailScan {
     last: Option<FrameTailMeta>,
+    last_provisional_id: Option<u64>,
     file_len: usize,
     truncated: bool,
     buffer: Option<Vec<u8>>,
@@ -526,7 +542,7 @@ pub(crate) struct TailMetadata {
     pub(super) completed: Vec<SegmentDescriptor>,
     /// Sequence of the last fully decoded frame (if any).
     pub(super) last_frame_seq: Option<u64>,
-    /// Provisional ID carried by the last complete frame (if any).
+    /// Largest provisional ID carried by a complete frame of the active segment (if any).
     pub(super) last_provisional_id: Option<u64>,
 }
 
-- 
2.43.0


From 17cb15c5becf8c936170723b063e2e23fb732ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 07/16] fix: compaction drops rows when data and delete batches
 of an SST end unevenly

The reader pairs data and delete batches by position. The merge cursor moved
to the next pair only when both halves were consumed and then refilled the
heap for the half that finished last, so the other half's rows of the next
pair never entered the merge (or entered after larger keys). Keep one queue
per half and refill each on its own.
---
 src/ondisk/merge.rs | 114 ++++++++++++++++++++++++--------------------
 1 file changed, 63 insertions(+), 51 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..ca002cf 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -140,9 +140,14 @@ struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
+    // Data and delete rows advance independently: the source pairs batches by position, not by
+    // key, so each side keeps the batches read ahead on behalf of the other one.
+    data: VecDeque<RecordBatch>,
+    deletes: VecDeque<RecordBatch>,
     data_idx: usize,
     delete_idx: usize,
+    data_exhausted: bool,
+    deletes_exhausted: bool,
 }
 
 impl SourceCursor {
@@ -155,19 +160,56 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
+            data: VecDeque::new(),
+            deletes: VecDeque::new(),
             data_idx: 0,
             delete_idx: 0,
+            data_exhausted: false,
+            deletes_exhausted: false,
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    /// Make the next row of `kind` available at the front of its queue; false once there is none.
+    async fn ensure_batch(&mut self, kind: RowKind) -> Result<bool, SsTableError> {
+        loop {
+            let (queue, idx, exhausted) = match kind {
+                RowKind::Data => (&mut self.data, &mut self.data_idx, self.data_exhausted),
+                RowKind::Delete => (
+                    &mut self.deletes,
+                    &mut self.delete_idx,
+                    self.deletes_exhausted,
+                ),
+            };
+            if let Some(front) = queue.front() {
+                if *idx < front.num_rows() {
+                    return Ok(true);
+                }
+                queue.pop_front();
+                *idx = 0;
+                continue;
+            }
+            if exhausted {
+                return Ok(false);
+            }
+            // A stream batch without rows of one side means that side has ended.
+            match self.source.next().await? {
+                Some(batch) => {
+                    if batch.data.num_rows() == 0 {
+                        self.data_exhausted = true;
+                    } else {
+                        self.data.push_back(batch.data);
+                    }
+                    match batch.delete {
+                        Some(delete) => self.deletes.push_back(delete),
+                        None => self.deletes_exhausted = true,
+                    }
+                }
+                None => {
+                    self.data_exhausted = true;
+                    self.deletes_exhausted = true;
+                }
+            }
         }
-        Ok(())
     }
 
     async fn enqueue(
@@ -177,27 +219,22 @@ impl SourceCursor {
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
         loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
+            if !self.ensure_batch(kind).await? {
                 return Ok(());
-            };
+            }
 
             match kind {
                 RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
-                        return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
+                    let Some(data_batch) = self.data.front() else {
                         return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
+                    };
+                    let key = extract_key_at(data_batch, self.extractor.as_ref(), self.data_idx)?;
                     if skip_key.is_some_and(|k| k == &key) {
                         self.advance(kind);
                         continue;
                     }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
+                    let commit_ts = commit_ts_at(data_batch, self.data_idx)?;
+                    let seq = sequence_at(data_batch, self.data_idx)?;
                     heap.push(HeapEntry {
                         key,
                         commit_ts,
@@ -209,16 +246,9 @@ impl SourceCursor {
                     return Ok(());
                 }
                 RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
+                    let Some(delete_batch) = self.deletes.front() else {
                         return Ok(());
                     };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
                     let key = extract_delete_key_at(
                         delete_batch,
                         self.extractor.as_ref(),
@@ -249,36 +279,20 @@ impl SourceCursor {
             RowKind::Data => self.data_idx += 1,
             RowKind::Delete => self.delete_idx += 1,
         }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
-        }
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(data_batch) = self.data.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
+        let data = take_record_batch(data_batch, &index)?;
         output.push_data(data);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(delete_batch) = self.deletes.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
@@ -689,9 +703,7 @@ impl SsTableMerger {
             let source =
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
-            let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
-            sources.push(cursor);
+            sources.push(SourceCursor::new(idx, Arc::clone(&extractor), source));
         }
 
         let mut heap: BinaryHeap<HeapEntry> = BinaryHeap::new();
-- 
2.43.0


From cf7d2eb8e26ca6249eb04e7a1e81e4d5bb9e1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:33 +0000
Subject: [PATCH 08/16] fix: manifest: end the session when an update or
 snapshot is refused

Edits that cannot be applied, and a snapshot of a table without a head,
returned early without ending the session: its lease was leaked, and debug
builds panicked in the session's drop check instead of returning the error.
---
 src/manifest/driver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/manifest/driver.rs b/src/manifest/driver.rs
index 3fb9dd6..094ad9d 100644
--- a/src/manifest/driver.rs
+++ b/src/manifest/driver.rs
@@ -244,7 +244,10 @@ where
             VersionState::empty(table)
         };
 
-        state.apply_edits(edits)?;
+        if let Err(err) = state.apply_edits(edits) {
+            session.end().await?;
+            return Err(err);
+        }
 
         // Update table version and commit timestamp
         let next_txn = state.commit_timestamp().next();
@@ -298,6 +301,7 @@ where
                 TableHead::try_from(value)?
             }
             None => {
+                session.end().await?;
                 return Err(ManifestError::Invariant(
                     "Head cannot be empty for snapshot",
                 ));
-- 
2.43.0


From 7d5d6b1f7d48d668d56dabcb88647624d47a95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 09/16] fix: transaction get: the latest in-memory entry of a
 key wins, deletes included

Transaction::get overlaid the sealed segments oldest first below the mutable
rows and ignored delete markers, so a deleted row or an older version could be
returned.
---
 src/db/scan.rs         | 27 +++++++++++++++++----------
 src/transaction/mod.rs | 31 +++++++++++++++++++------------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index b5b0987..99c9aa8 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -31,7 +31,7 @@ use crate::{
         immutable::{self, ImmutableSegment, memtable::ImmutableVisibleEntry},
         mutable::memtable::DynRowScanEntry,
     },
-    key::{KeyOwned, KeyRow},
+    key::{KeyOwned, KeyTsOwned, KeyTsViewRaw},
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
@@ -808,13 +808,15 @@ where
         Ok(streams)
     }
 
+    /// Latest entry of every key in the immutable segments at `read_ts`, newest segment first;
+    /// `None` marks a delete.
     pub(crate) fn scan_immutable_rows_at(
         &self,
         read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
+    ) -> Result<Vec<(KeyTsOwned, Option<DynRow>)>, KeyExtractError> {
         let mut rows = Vec::new();
         let segments = self.seal_state_lock().immutables.clone();
-        for segment in segments {
+        for segment in segments.iter().rev() {
             let scan = segment.scan_visible(None, read_ts)?;
             for result in scan {
                 match result {
@@ -824,10 +826,11 @@ where
                                 err.to_string(),
                             ))
                         })?;
-                        let (key_row, _) = key_view.into_parts();
-                        rows.push((key_row, row));
+                        rows.push((owned_key(&key_view), Some(row)));
+                    }
+                    Ok(ImmutableVisibleEntry::Tombstone(key_view)) => {
+                        rows.push((owned_key(&key_view), None));
                     }
-                    Ok(ImmutableVisibleEntry::Tombstone(_)) => {}
                     Err(err) => return Err(KeyExtractError::from(err)),
                 }
             }
@@ -835,10 +838,11 @@ where
         Ok(rows)
     }
 
+    /// Latest entry of every key in the mutable memtable at `read_ts`; `None` marks a delete.
     pub(crate) fn scan_mutable_rows_at(
         &self,
         read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
+    ) -> Result<Vec<(KeyTsOwned, Option<DynRow>)>, KeyExtractError> {
         let mut rows = Vec::new();
         let mem = self.mem.read();
         let scan = mem.scan_visible(None, read_ts)?;
@@ -850,10 +854,9 @@ where
                             err.to_string(),
                         ))
                     })?;
-                    let (key_row, _) = key_view.into_parts();
-                    rows.push((key_row, row));
+                    rows.push((owned_key(&key_view), Some(row)));
                 }
-                Ok(DynRowScanEntry::Tombstone(_)) => {}
+                Ok(DynRowScanEntry::Tombstone(key_view)) => rows.push((owned_key(&key_view), None)),
                 Err(err) => return Err(KeyExtractError::from(err)),
             }
         }
@@ -867,6 +870,10 @@ where
     }
 }
 
+fn owned_key(view: &KeyTsViewRaw) -> KeyTsOwned {
+    KeyTsOwned::new(view.key().to_owned(), view.timestamp())
+}
+
 /// Snapshot source for scan operations.
 ///
 /// Controls whether a scan uses a pre-existing snapshot or creates one lazily.
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7188f62..6169ee8 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -465,7 +465,9 @@ where
             });
         }
         let rows = self.read_mutable_rows(&*self.handle)?;
-        Ok(rows.get(key).map(clone_dyn_row))
+        Ok(rows
+            .get(key)
+            .and_then(|(_, row)| row.as_ref().map(clone_dyn_row)))
     }
 
     /// Begin building a scan query with fluent API.
@@ -532,24 +534,29 @@ where
     fn read_mutable_rows<C>(
         &self,
         db: &DbInner<C, E>,
-    ) -> Result<BTreeMap<KeyOwned, DynRow>, TransactionError>
+    ) -> Result<BTreeMap<KeyOwned, (Timestamp, Option<DynRow>)>, TransactionError>
     where
         C: crate::manifest::ManifestFs<E>,
         <C as fusio::fs::Fs>::File: fusio::durability::FileCommit,
     {
         let read_ts = self.read_ts();
-        let mut out = BTreeMap::new();
-        let rows = db
+        let mut entries = db
             .scan_mutable_rows_at(read_ts)
             .map_err(TransactionError::KeyExtract)?;
-        for (key_row, row) in rows {
-            out.insert(key_row.to_owned(), row);
-        }
-        for (key, row) in db
-            .scan_immutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?
-        {
-            out.entry(key.to_owned()).or_insert(row);
+        entries.extend(
+            db.scan_immutable_rows_at(read_ts)
+                .map_err(TransactionError::KeyExtract)?,
+        );
+        // Deletes are kept as well: the latest entry of a key hides every older one.
+        let mut out: BTreeMap<KeyOwned, (Timestamp, Option<DynRow>)> = BTreeMap::new();
+        for (key_ts, row) in entries {
+            let ts = key_ts.timestamp();
+            if out
+                .get(key_ts.key())
+                .is_none_or(|(latest, _)| *latest < ts)
+            {
+                out.insert(key_ts.key().clone(), (ts, row));
+            }
         }
         Ok(out)
     }
-- 
2.43.0


From 0fa54a53ca575415923a4fcda536da40f8935c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 10/16] fix: key projection: reject an out-of-range key column
 instead of panicking

---
 src/extractor/extractors.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extractor/extractors.rs b/src/extractor/extractors.rs
index eefda74..3c3cc89 100644
--- a/src/extractor/extractors.rs
+++ b/src/extractor/extractors.rs
@@ -62,7 +62,11 @@ impl DynKeyProjection {
                 "key projection requires at least one column".to_string(),
             )));
         }
+        let width = schema.fields().len();
         for &col in &columns {
+            if col >= width {
+                return Err(KeyExtractError::ColumnOutOfBounds(col, width));
+            }
             ensure_supported_type(schema.field(col).data_type(), col)?;
         }
 
-- 
2.43.0


From 3e95a9d3e0fb71e49052c6263083db9676fefd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 11/16] fix: tonbo.keys metadata: read the JSON list that the
 schema builder writes

Names containing commas, quotes, backslashes or outer blanks were split or
trimmed, so the declaration read back could name other key columns.
---
 src/mode/dyn_config.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mode/dyn_config.rs b/src/mode/dyn_config.rs
index d4c3e86..abc109c 100644
--- a/src/mode/dyn_config.rs
+++ b/src/mode/dyn_config.rs
@@ -38,6 +38,10 @@ impl DynModeConfig {
         }
         fn parse_names_list(s: &str) -> Vec<String> {
             let t = s.trim();
+            // `SchemaBuilder::with_metadata` writes a JSON array of names.
+            if let Ok(names) = serde_json::from_str::<Vec<String>>(t) {
+                return names;
+            }
             if t.starts_with('[') && t.ends_with(']') {
                 let inner = &t[1..t.len() - 1];
                 inner
-- 
2.43.0


From 602f1052b97ffef27c4085449c2b3dcef0617051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 12/16] fix: recovery: keep the commit clock ahead of flushed
 versions

After losing the end of an unsynced WAL (or all of it, without a state store)
the clock restarted below timestamps already flushed to SSTables, so later
writes were hidden behind older ones.
---
 src/db/builder.rs |  8 ++++++++
 src/db/mod.rs     | 21 ++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 701f7ca..e7091d9 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -1141,6 +1141,10 @@ where
             executor,
         );
 
+        inner
+            .advance_clock_past_flushed()
+            .await
+            .map_err(DbBuildError::Manifest)?;
         inner.minor_compaction = minor_compaction_state;
         if let Some(options) = compaction_options.as_ref() {
             inner.l0_backpressure = options.backpressure().cloned();
@@ -1731,6 +1735,10 @@ where
             )
             .await
             .map_err(DbBuildError::Mode)?;
+            inner
+                .advance_clock_past_flushed()
+                .await
+                .map_err(DbBuildError::Manifest)?;
             inner.minor_compaction = minor_compaction_state;
             if let Some(options) = compaction_options.as_ref() {
                 inner.l0_backpressure = options.backpressure().cloned();
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6b9c595..d35fe9a 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -754,7 +754,7 @@ where
         }
 
         let last_commit_ts = db.replay_wal_events(events)?;
-        let effective_commit = last_commit_ts.or(state_commit_hint);
+        let effective_commit = last_commit_ts.max(state_commit_hint);
         if let Some(ts) = effective_commit {
             db.commit_clock.advance_to_at_least(ts.saturating_add(1));
         }
@@ -762,6 +762,25 @@ where
         Ok(db)
     }
 
+    /// Keep the commit clock ahead of every flushed version, including those the WAL no longer
+    /// covers.
+    pub(crate) async fn advance_clock_past_flushed(&self) -> Result<(), ManifestError> {
+        let snapshot = self
+            .manifest
+            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+            .await?;
+        let flushed = snapshot
+            .latest_version
+            .iter()
+            .flat_map(|version| version.ssts().iter().flatten())
+            .filter_map(|entry| entry.stats().and_then(|stats| stats.max_commit_ts))
+            .max();
+        if let Some(ts) = flushed {
+            self.commit_clock.advance_to_at_least(ts.saturating_add(1));
+        }
+        Ok(())
+    }
+
     /// Unified ingestion entry point for dynamic batches.
     pub async fn ingest(&self, batch: RecordBatch) -> Result<(), KeyExtractError> {
         if self.schema.as_ref() != batch.schema().as_ref() {
-- 
2.43.0


From bae435a87be034bdfcceaec39092b74f35517aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 13/16] fix: residual filter: compare temporal literals with
 temporal columns

Row cells carry dates, times, timestamps and durations as plain integers, so a
predicate literal of the column's own type never compared with them: the
comparison came out unknown and every in-memory row was dropped.
---
 src/query/stream/package.rs | 52 ++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/query/stream/package.rs b/src/query/stream/package.rs
index 4b1dd19..dff2f02 100644
--- a/src/query/stream/package.rs
+++ b/src/query/stream/package.rs
@@ -1,6 +1,7 @@
 //! Package merged rows into Arrow record batches.
 
 use std::{
+    borrow::Cow,
     collections::HashMap,
     pin::Pin,
     sync::Arc,
@@ -9,7 +10,7 @@ use std::{
 
 use aisle::{CmpOp, Expr};
 use arrow_array::RecordBatch;
-use arrow_schema::SchemaRef;
+use arrow_schema::{DataType, SchemaRef};
 use datafusion_common::ScalarValue;
 use fusio::executor::Executor;
 use futures::Stream;
@@ -280,6 +281,7 @@ impl TriState {
 
 struct ResidualEvaluator {
     column_map: HashMap<Arc<str>, usize>,
+    column_types: HashMap<Arc<str>, DataType>,
 }
 
 impl ResidualEvaluator {
@@ -290,7 +292,20 @@ impl ResidualEvaluator {
             .enumerate()
             .map(|(idx, field)| (Arc::<str>::from(field.name().as_str()), idx))
             .collect();
-        Self { column_map }
+        let column_types = schema
+            .fields()
+            .iter()
+            .map(|field| {
+                (
+                    Arc::<str>::from(field.name().as_str()),
+                    field.data_type().clone(),
+                )
+            })
+            .collect();
+        Self {
+            column_map,
+            column_types,
+        }
     }
 
     fn matches_owned(&self, predicate: &Expr, row: &DynRow) -> Result<bool, ResidualError> {
@@ -359,7 +374,7 @@ impl ResidualEvaluator {
         if lhs.is_null() || value.is_null() {
             return Ok(TriState::Unknown);
         }
-        let ordering = compare_scalar_values(&lhs, value);
+        let ordering = compare_scalar_values(&lhs, &self.literal_as_cell(column, value));
         let result = match op {
             CmpOp::Eq => ordering.map(|ord| ord == std::cmp::Ordering::Equal),
             CmpOp::NotEq => ordering.map(|ord| ord != std::cmp::Ordering::Equal),
@@ -404,7 +419,8 @@ impl ResidualEvaluator {
                 saw_null = true;
                 continue;
             }
-            if let Some(ordering) = compare_scalar_values(&lhs, value) {
+            let value = self.literal_as_cell(column, value);
+            if let Some(ordering) = compare_scalar_values(&lhs, &value) {
                 if ordering == std::cmp::Ordering::Equal {
                     return Ok(TriState::True);
                 }
@@ -456,6 +472,34 @@ impl ResidualEvaluator {
         }))
     }
 
+    /// Rewrite a literal into the form `convert_owned_cell` gives the cells of its column.
+    ///
+    /// Row cells carry temporal values as plain integers, so a literal of the column's own logical
+    /// type would otherwise never compare with them.
+    fn literal_as_cell<'v>(&self, column: &str, value: &'v ScalarValue) -> Cow<'v, ScalarValue> {
+        if self.column_types.get(column) != Some(&value.data_type()) {
+            return Cow::Borrowed(value);
+        }
+        let cell = match value {
+            ScalarValue::Date32(v)
+            | ScalarValue::Time32Second(v)
+            | ScalarValue::Time32Millisecond(v) => ScalarValue::Int32(*v),
+            ScalarValue::Date64(v)
+            | ScalarValue::Time64Microsecond(v)
+            | ScalarValue::Time64Nanosecond(v)
+            | ScalarValue::TimestampSecond(v, _)
+            | ScalarValue::TimestampMillisecond(v, _)
+            | ScalarValue::TimestampMicrosecond(v, _)
+            | ScalarValue::TimestampNanosecond(v, _)
+            | ScalarValue::DurationSecond(v)
+            | ScalarValue::DurationMillisecond(v)
+            | ScalarValue::DurationMicrosecond(v)
+            | ScalarValue::DurationNanosecond(v) => ScalarValue::Int64(*v),
+            _ => return Cow::Borrowed(value),
+        };
+        Cow::Owned(cell)
+    }
+
     fn resolve_column(
         &self,
         column: &str,
-- 
2.43.0


From 7d469c10719297ea20d01f6ba90cc75bba695ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 14/16] fix: keep key comparisons without a key range as
 residual in memory scans

---
 src/db/scan.rs    | 20 +++++++++++++++-----
 src/query/scan.rs |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 99c9aa8..f2344c1 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -49,7 +49,7 @@ use crate::{
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
             key_bounds_for_predicate, key_range_for_predicate, next_prefix_string,
-            projection_with_predicate,
+            projection_with_predicate, scalar_to_key,
         },
         stream::{
             Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream,
@@ -1281,8 +1281,13 @@ fn split_predicate_for_non_sst_inner(
             pushdown: Some(Expr::False),
             residual: None,
         },
-        Expr::Cmp { column, op, .. } => {
-            if column != key_column || matches!(op, aisle::CmpOp::NotEq) {
+        Expr::Cmp { column, op, value } => {
+            // Without a key for the literal (NULL, another type) there is no key range to
+            // scan, so the comparison has to stay as a residual filter.
+            if column != key_column
+                || matches!(op, aisle::CmpOp::NotEq)
+                || scalar_to_key(value, key_type).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1293,8 +1298,13 @@ fn split_predicate_for_non_sst_inner(
                 residual: None,
             }
         }
-        Expr::Between { column, .. } => {
-            if column != key_column {
+        Expr::Between {
+            column, low, high, ..
+        } => {
+            if column != key_column
+                || scalar_to_key(low, key_type).is_none()
+                || scalar_to_key(high, key_type).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 3739e73..176ad89 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -491,7 +491,7 @@ pub(crate) fn key_bounds_for_predicate(
 ///
 /// Keys only compare by value within one type, so a literal of another type is converted to the
 /// type of the key column. Literals that type cannot represent yield `None` (no pruning).
-fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+pub(crate) fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
     match (key_type, value) {
         (DataType::Int32, _) => i32::from_scalar(value).map(KeyOwned::from),
         (DataType::Int64, _) => i64::from_scalar(value).map(KeyOwned::from),
-- 
2.43.0


From e7673294acc99bff01e04d2240cede20055f3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 15/16] fix: keep a false predicate as residual for
 composite-key memory scans

---
 src/db/scan.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index f2344c1..23d9e99 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -1246,12 +1246,6 @@ fn split_predicate_for_non_sst(predicate: &Expr, key_schema: &SchemaRef) -> NonS
             residual: None,
         };
     }
-    if matches!(predicate, Expr::False) {
-        return NonSstPredicateSplit {
-            pushdown: Some(Expr::False),
-            residual: None,
-        };
-    }
     if key_schema.fields().len() != 1 {
         return NonSstPredicateSplit {
             pushdown: None,
-- 
2.43.0


From 1a614775165d5e02e208438e0eafcce17a48ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 16/16] fix: store float key components by their bits

KeyOwned is stored as JSON text. A decimal float may read back one bit off,
and NaN and the infinities became null, which cannot be read back, so key
bounds in the manifest could name another key or make the manifest unreadable.
Store the bits; the old form still reads.
---
 src/key/owned.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/key/owned.rs b/src/key/owned.rs
index e310566..f7b01ff 100644
--- a/src/key/owned.rs
+++ b/src/key/owned.rs
@@ -203,12 +203,42 @@ impl Serialize for KeyOwned {
                 .as_ref()
                 .ok_or_else(|| SerError::custom(format!("key component {idx} was null")))?;
             cell_data_type(value).map_err(|err| SerError::custom(err.to_string()))?;
-            seq.serialize_element(value)?;
+            match value {
+                DynCell::F32(v) => seq.serialize_element(&FloatBits::F32Bits(v.to_bits()))?,
+                DynCell::F64(v) => seq.serialize_element(&FloatBits::F64Bits(v.to_bits()))?,
+                other => seq.serialize_element(other)?,
+            }
         }
         seq.end()
     }
 }
 
+/// Exact stored form of a float component: decimal text may come back one bit off, and NaN and
+/// the infinities have none in JSON.
+#[derive(Serialize, Deserialize)]
+enum FloatBits {
+    F32Bits(u32),
+    F64Bits(u64),
+}
+
+/// Component as stored; floats written before [`FloatBits`] existed are plain cells.
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum StoredCell {
+    Float(FloatBits),
+    Cell(DynCell),
+}
+
+impl From<StoredCell> for DynCell {
+    fn from(stored: StoredCell) -> Self {
+        match stored {
+            StoredCell::Float(FloatBits::F32Bits(bits)) => DynCell::F32(f32::from_bits(bits)),
+            StoredCell::Float(FloatBits::F64Bits(bits)) => DynCell::F64(f64::from_bits(bits)),
+            StoredCell::Cell(cell) => cell,
+        }
+    }
+}
+
 impl<'de> Deserialize<'de> for KeyOwned {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
@@ -281,8 +311,8 @@ impl<'de> Visitor<'de> for DynCellSeqVisitor {
         A: SeqAccess<'de>,
     {
         let mut cells = Vec::new();
-        while let Some(cell) = seq.next_element::<DynCell>()? {
-            cells.push(cell);
+        while let Some(cell) = seq.next_element::<StoredCell>()? {
+            cells.push(cell.into());
         }
         Ok(cells)
     }
-- 
2.43.0

