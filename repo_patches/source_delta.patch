From 1f57c120f729233c1ea0956084660aafdc83cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 001/106] fix: keep the millisecond unit of stored 32-bit times

Time32Millisecond scalars were written and read back as Time32Second, so a
saved filter value changed its meaning by a factor of 1000.
---
 src/common/src/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 7b1986c..581602a 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -74,7 +74,7 @@ impl From<ScalarValueRef> for ScalarValue {
             ScalarValueRef::IntervalYearMonth(v) => ScalarValue::IntervalYearMonth(v),
             ScalarValueRef::FixedSizeBinary(a, b) => ScalarValue::FixedSizeBinary(a, b),
             ScalarValueRef::Time32Second(v) => ScalarValue::Time32Second(v),
-            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Second(v),
+            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Millisecond(v),
             ScalarValueRef::Time64Microsecond(v) => ScalarValue::Time64Microsecond(v),
             ScalarValueRef::Time64Nanosecond(v) => ScalarValue::Time64Nanosecond(v),
             _ => unimplemented!(),
@@ -111,7 +111,7 @@ impl From<&ScalarValue> for ScalarValueRef {
             ScalarValue::IntervalYearMonth(v) => ScalarValueRef::IntervalYearMonth(v),
             ScalarValue::FixedSizeBinary(a, b) => ScalarValueRef::FixedSizeBinary(a, b),
             ScalarValue::Time32Second(v) => ScalarValueRef::Time32Second(v),
-            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Second(v),
+            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Millisecond(v),
             ScalarValue::Time64Microsecond(v) => ScalarValueRef::Time64Microsecond(v),
             ScalarValue::Time64Nanosecond(v) => ScalarValueRef::Time64Nanosecond(v),
             _ => unimplemented!(),
-- 
2.43.0


From c2bd12e8f2e1786a43e7f67ba48718e827acb052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 002/106] hook: let a monitor pace the storage background
 threads (cfg optiprism_verif)

---
 src/storage/src/compaction.rs | 12 +++++++++---
 src/storage/src/db.rs         | 13 +++++++++++++
 src/storage/src/lib.rs        |  2 ++
 src/storage/src/verif.rs      | 34 ++++++++++++++++++++++++++++++++++
 4 files changed, 58 insertions(+), 3 deletions(-)
 create mode 100644 src/storage/src/verif.rs

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index ff012df..74f46e2 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -7,9 +7,9 @@ use std::sync::mpsc::Sender;
 #[cfg(not(test))]
 use std::sync::mpsc::TryRecvError;
 use std::sync::Arc;
-#[cfg(not(test))]
+#[cfg(all(not(test), not(optiprism_verif)))]
 use std::thread;
-#[cfg(not(test))]
+#[cfg(all(not(test), not(optiprism_verif)))]
 use std::time::Duration;
 use std::time::Instant;
 
@@ -102,8 +102,14 @@ impl Compactor {
                     Err(TryRecvError::Empty) => {}
                 }
             }
-            #[cfg(not(test))]
+            #[cfg(all(not(test), not(optiprism_verif)))]
             thread::sleep(Duration::from_secs(1)); // todo make configurable
+            #[cfg(all(not(test), optiprism_verif))]
+            match crate::verif::gate("compactor", &self.path) {
+                crate::verif::Gate::Run => {}
+                crate::verif::Gate::Skip => continue,
+                crate::verif::Gate::Exit => break,
+            }
 
             #[cfg(test)]
             {
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7ad6214..d9b982d 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -22,6 +22,7 @@ use std::sync::Arc;
 use std::task::Context;
 use std::task::Poll;
 use std::thread;
+#[cfg(not(optiprism_verif))]
 use std::time::Duration;
 use std::time::Instant;
 
@@ -156,13 +157,25 @@ fn collect_metrics(tables: Arc<RwLock<Vec<Table>>>) {
                     .set(values.to_f64().unwrap());
             }
         }
+        #[cfg(not(optiprism_verif))]
         thread::sleep(Duration::from_secs(1));
+        #[cfg(optiprism_verif)]
+        if crate::verif::gate("metrics", Path::new("")) == crate::verif::Gate::Exit {
+            return;
+        }
     }
 }
 
 fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
     loop {
+        #[cfg(not(optiprism_verif))]
         thread::sleep(Duration::from_secs(1));
+        #[cfg(optiprism_verif)]
+        match crate::verif::gate("gc", &path) {
+            crate::verif::Gate::Run => {}
+            crate::verif::Gate::Skip => continue,
+            crate::verif::Gate::Exit => return,
+        }
         let tbl = tables.read().clone();
         for tbl in tbl {
             let md = tbl.metadata.lock();
diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index e869265..407e941 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -14,6 +14,8 @@ pub mod options;
 pub mod parquet;
 pub mod table;
 pub mod test_util;
+#[cfg(optiprism_verif)]
+pub mod verif;
 
 use std::collections::HashMap;
 use std::fmt::Debug;
diff --git a/src/storage/src/verif.rs b/src/storage/src/verif.rs
new file mode 100644
index 0000000..d861a0e
--- /dev/null
+++ b/src/storage/src/verif.rs
@@ -0,0 +1,34 @@
+//! Pacing of the background threads by an external monitor (only with `--cfg optiprism_verif`).
+use std::path::Path;
+use std::sync::OnceLock;
+use std::thread;
+use std::time::Duration;
+
+/// What a background loop does with its next round.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Gate {
+    /// run one round now
+    Run,
+    /// look for messages again, without a round
+    Skip,
+    /// leave the loop
+    Exit,
+}
+
+type GateFn = fn(&'static str, &Path) -> Gate;
+static GATE: OnceLock<GateFn> = OnceLock::new();
+
+/// Installs the function that is asked before every round of a background loop.
+pub fn set_gate(f: GateFn) {
+    let _ = GATE.set(f);
+}
+
+pub(crate) fn gate(what: &'static str, path: &Path) -> Gate {
+    match GATE.get() {
+        Some(f) => f(what, path),
+        None => {
+            thread::sleep(Duration::from_secs(1));
+            Gate::Run
+        }
+    }
+}
-- 
2.43.0


From dc646fbf8f04852f0de01797f0ebd3b44b4b839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 003/106] fix: do not merge the same part several times in one
 compaction

---
 src/storage/src/compaction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 74f46e2..90eb19c 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -234,6 +234,9 @@ pub(crate) fn determine_compaction(
                 to_compact.push(ToCompact::new(level_id, part.id));
             }
         }
+        // a part may have been selected several times, but must be merged only once
+        to_compact.sort();
+        to_compact.dedup();
     } else {
         return Ok(None);
     }
-- 
2.43.0


From 628c610bd4d11244af82476d13c1b069631587ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 004/106] fix: parts that share a single key do overlap in
 compaction

---
 src/storage/src/compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 90eb19c..41beb21 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -254,7 +254,7 @@ pub(crate) fn determine_compaction(
         .max()
         .unwrap();
     for part in &next_level.parts {
-        if cmp::max(part.min.clone(), min.clone()) < cmp::min(part.max.clone(), max.clone()) {
+        if cmp::max(part.min.clone(), min.clone()) <= cmp::min(part.max.clone(), max.clone()) {
             to_compact.push(ToCompact::new(level_id + 1, part.id));
         }
     }
-- 
2.43.0


From 2f5cf38e2c86e20adb4a84ce4809392b8c3085dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:43 +0000
Subject: [PATCH 005/106] fix: move a single compacted part without losing it
 or leaving it in level 0

---
 src/storage/src/compaction.rs             | 26 +++++++++++++++--------
 src/storage/src/lib.rs                    |  1 -
 src/storage/src/parquet/parquet_merger.rs |  1 +
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 41beb21..e7b797d 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -58,6 +58,8 @@ pub struct CompactResult {
     l0_remove: Vec<usize>,
     levels: Vec<Level>,
     fs_ops: Vec<FsOp>,
+    // files that were created and protected from deletion until metadata is written
+    opened: Vec<PathBuf>,
 }
 
 pub struct Compactor {
@@ -163,15 +165,11 @@ impl Compactor {
                             write_metadata(manifest.get_mut(), &mut metadata).unwrap();
                             drop(metadata);
                             // drop because next fs operation is with locking
+                            for path in res.opened {
+                                self.fs.close(&path).expect("close failed");
+                            }
                             for op in res.fs_ops {
                                 match op {
-                                    FsOp::Rename(from, to) => {
-                                        trace!("renaming {from:?} to {to:?}");
-                                        // todo handle error
-                                        self.fs.rename(&from, &to).expect("rename failed");
-                                        self.fs.close(&from).expect("close failed");
-                                        self.fs.close(&to).expect("close failed");
-                                    }
                                     FsOp::Delete(path) => {
                                         trace!("deleting {:?}", &path);
                                         self.fs.close(&path).expect("close failed");
@@ -270,6 +268,7 @@ fn compact(
 ) -> Result<Option<CompactResult>> {
     let init_time = Instant::now();
     let mut fs_ops = vec![];
+    let mut opened = vec![];
     let mut l0_rem: Vec<usize> = Vec::new();
     let mut tmp_levels = levels.clone();
     let mut compacted = false;
@@ -305,9 +304,16 @@ fn compact(
 
                     let from = part_path(path, tbl_name, level_id, to_compact[0].part);
                     let to = part_path(path, tbl_name, level_id + 1, part.id);
+                    if level_id == 0 {
+                        l0_rem.push(to_compact[0].part);
+                    }
+                    // the part must exist at both places until metadata is written: scans use the
+                    // old one, next levels of this compaction and new scans use the new one
                     fs.open(&from)?;
                     fs.open(&to)?;
-                    fs_ops.push(FsOp::Rename(from, to));
+                    std::fs::copy(&from, &to)?;
+                    opened.push(to);
+                    fs_ops.push(FsOp::Delete(from));
 
                     tmp_levels[level_id + 1].parts.push(part.clone());
                     tmp_levels[level_id + 1].part_id += 1;
@@ -360,7 +366,8 @@ fn compact(
                 counter!(METRIC_STORE_MERGES_TOTAL,"table"=>tbl_name.to_string()).increment(1);
                 histogram!(METRIC_STORE_MERGE_TIME_SECONDS,"table"=>tbl_name.to_string(),"level"=>level_id.to_string()).record(start_time.elapsed());
                 for f in merge_result {
-                    fs.open(&f.path)?;
+                    // opened by merger
+                    opened.push(f.path.clone());
                     let final_part = {
                         Part {
                             id: tmp_levels[level_id + 1].part_id + 1,
@@ -405,6 +412,7 @@ fn compact(
         l0_remove: l0_rem,
         levels: tmp_levels,
         fs_ops,
+        opened,
     }))
 }
 
diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index 407e941..da0dfff 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -198,6 +198,5 @@ impl Fs {
 
 #[derive(Debug, Clone)]
 pub(crate) enum FsOp {
-    Rename(PathBuf, PathBuf),
     Delete(PathBuf),
 }
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index f7ab56c..fe6d945 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -1022,6 +1022,7 @@ where R: Read + Seek
             } else {
                 // delete empty file. We can do this safely because we write to temp file and then rename it
                 fs::remove_file(path)?;
+                self.fs.close(path)?;
             }
             break;
         }
-- 
2.43.0


From 3bb1694f8d1015f8a9f5551c0114623fd9bd5788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 006/106] fix: keep columns of a row together when older
 versions are dropped by a merge

---
 src/storage/src/parquet/arrow_merger.rs      |  9 ++--
 src/storage/src/parquet/merge_data_arrays.rs | 57 +++++++++++++-------
 src/storage/src/parquet/parquet_merger.rs    |  3 +-
 3 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index fbcf022..c78b417 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -99,7 +99,8 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
         if is_replacing {
             if let Some(v) = sort.peek() {
                 if v1 == v.1 {
-                    out.push(-1);
+                    // row is replaced, skip it in its stream
+                    out.push(-(row_idx as i64) - 1);
 
                     continue;
                 }
@@ -361,7 +362,8 @@ impl MergingIterator {
                 let mut arr_cursors = vec![0; arrs.len()];
                 let mut growable = make_growable(&arrs, false, reorder.len());
                 for idx in reorder.iter() {
-                    if *idx == -1 {
+                    if *idx < 0 {
+                        arr_cursors[-(*idx + 1) as usize] += 1;
                         continue;
                     }
                     growable.extend(*idx as usize, arr_cursors[*idx as usize], 1);
@@ -374,8 +376,9 @@ impl MergingIterator {
 
         let mut out = vec![];
 
+        // may be less than reorder because of replaced rows
         let mut len = arrs[0].len();
-        for i in (0..reorder.len()).step_by(self.array_size) {
+        for i in (0..len).step_by(self.array_size) {
             let arrs = arrs
                 .iter_mut()
                 .map(|arr| arr.sliced(i, min(self.array_size, len)))
diff --git a/src/storage/src/parquet/merge_data_arrays.rs b/src/storage/src/parquet/merge_data_arrays.rs
index 8e23b72..3e80815 100644
--- a/src/storage/src/parquet/merge_data_arrays.rs
+++ b/src/storage/src/parquet/merge_data_arrays.rs
@@ -53,13 +53,18 @@ macro_rules! merge_arrays_inner {
         let mut out = <$out_ty>::with_capacity($reorder.len());
         // go through each row idx in reorder, get stream id for row
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // negative index means that the row is replaced and must be skipped in its stream
+            let skip = $reorder[idx] < 0;
+            let stream_id = if skip {
+                -($reorder[idx] + 1)
+            } else {
+                $reorder[idx]
+            } as usize;
             // push null if column doesn't exist
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !skip {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -76,7 +81,9 @@ macro_rules! merge_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let arr = arrs[stream_id].as_ref().unwrap();
-            if arr.is_null(cur_idx) {
+            if skip {
+                // nothing to write
+            } else if arr.is_null(cur_idx) {
                 out.push_null();
             } else {
                 out.push(Some(arr.value(cur_idx)));
@@ -177,12 +184,17 @@ macro_rules! merge_list_arrays_inner {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // negative index means that the row is replaced and must be skipped in its stream
+            let skip = $reorder[idx] < 0;
+            let stream_id = if skip {
+                -($reorder[idx] + 1)
+            } else {
+                $reorder[idx]
+            } as usize;
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !skip {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -210,7 +222,9 @@ macro_rules! merge_list_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if skip {
+                // nothing to write
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
@@ -304,12 +318,17 @@ macro_rules! merge_list_primitive_arrays {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // negative index means that the row is replaced and must be skipped in its stream
+            let skip = $reorder[idx] < 0;
+            let stream_id = if skip {
+                -($reorder[idx] + 1)
+            } else {
+                $reorder[idx]
+            } as usize;
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !skip {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -338,7 +357,9 @@ macro_rules! merge_list_primitive_arrays {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if skip {
+                // nothing to write
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index fe6d945..9e74a8b 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -504,7 +504,8 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
         if is_replacing {
             if let Some(v) = sort.peek() {
                 if v1 == v.1 {
-                    order.push(-1);
+                    // row is replaced, skip it in its stream
+                    order.push(-(chunks[arr_id].stream as i64) - 1);
 
                     continue;
                 }
-- 
2.43.0


From c0987e774a33c28210322f7e0b785390bfe12ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 007/106] fix: find any stored row by key, with strings and
 timestamps

---
 src/storage/src/db.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index d9b982d..1ab8930 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -34,6 +34,7 @@ use arrow2::array::Int32Array;
 use arrow2::array::Int64Array;
 use arrow2::array::Int8Array;
 use arrow2::array::ListArray;
+use arrow2::array::Utf8Array;
 use arrow2::chunk::Chunk;
 use arrow2::datatypes::DataType;
 use arrow2::datatypes::Field;
@@ -41,8 +42,6 @@ use arrow2::datatypes::Schema;
 use arrow2::io::parquet;
 use arrow2::io::parquet::read;
 use arrow2::io::parquet::write::transverse;
-use arrow_array::StringArray;
-use arrow_array::TimestampNanosecondArray;
 use bincode::deserialize;
 use bincode::serialize;
 use common::types::DType;
@@ -904,7 +903,7 @@ impl OptiDBImpl {
                     let parquet_md = read::read_metadata(&mut rdr)?;
                     let schema = read::infer_schema(&parquet_md)?;
 
-                    let mut found = None;
+                    let mut found = vec![];
                     'g: for row_group_id in 0..parquet_md.row_groups.len() {
                         #[allow(clippy::needless_range_loop)]
                         for field_id in 0..key.len() {
@@ -935,17 +934,17 @@ impl OptiDBImpl {
                                 unreachable!();
                             }
                         }
-                        found = Some(row_group_id);
-                        break;
+                        found.push(parquet_md.row_groups[row_group_id].clone());
                     }
 
-                    if found.is_none() {
-                        return Ok(None);
+                    if found.is_empty() {
+                        // ranges of parts are wider than keys in them
+                        continue;
                     }
 
                     let chunks = read::FileReader::new(
                         rdr,
-                        vec![parquet_md.row_groups[found.unwrap()].clone()],
+                        found,
                         schema.clone(),
                         Some(1024 * 8 * 8), // todo make configurable?
                         None,
@@ -1065,14 +1064,14 @@ impl OptiDBImpl {
                                         DataType::Timestamp(_, _) => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<TimestampNanosecondArray>()
+                                                .downcast_ref::<Int64Array>()
                                                 .unwrap();
                                             vals.push(Value::Timestamp(Some(arr.value(row_id))));
                                         }
                                         DataType::Utf8 => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<StringArray>()
+                                                .downcast_ref::<Utf8Array<i32>>()
                                                 .unwrap();
                                             vals.push(Value::String(Some(
                                                 arr.value(row_id).to_string(),
@@ -1140,7 +1139,7 @@ impl OptiDBImpl {
                                                 DataType::Timestamp(_, _) => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<TimestampNanosecondArray>()
+                                                        .downcast_ref::<Int64Array>()
                                                         .unwrap();
                                                     vals.push(Value::Timestamp(Some(
                                                         arr.value(row_id),
@@ -1149,7 +1148,7 @@ impl OptiDBImpl {
                                                 DataType::Utf8 => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<StringArray>()
+                                                        .downcast_ref::<Utf8Array<i32>>()
                                                         .unwrap();
                                                     vals.push(Value::String(Some(
                                                         arr.value(row_id).to_string(),
@@ -1166,7 +1165,6 @@ impl OptiDBImpl {
                             return Ok(Some(vals));
                         }
                     }
-                    return Ok(None);
                 }
             }
         }
-- 
2.43.0


From 144994a09a6775b99c18950ca9a19da0b0c53b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 008/106] fix: recover rows that were logged before a column
 was added

---
 src/storage/src/db.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 1ab8930..cafc540 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -281,9 +281,14 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
         LogOp::Insert(k, v) => {
             let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
             let vv = [kv, v].concat();
+            let logged = vv.len();
             for (idx, val) in vv.into_iter().enumerate() {
                 memtable.push_value(idx, val);
             }
+            // columns that were added after the row was logged
+            for idx in logged..memtable.cols_len() {
+                memtable.push_value(idx, Value::Null);
+            }
         }
     }
 
-- 
2.43.0


From 3d916f13617cd34a1a5e5897f893c0ae8aaf5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 009/106] fix: replace table metadata atomically

---
 src/storage/src/compaction.rs |  5 ++--
 src/storage/src/db.rs         | 43 ++++++++++++-----------------------
 src/storage/src/table.rs      |  1 -
 3 files changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index e7b797d..99bb3f3 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -24,6 +24,7 @@ use metrics::histogram;
 use parking_lot::RwLock;
 
 use crate::db::part_path;
+use crate::db::table_path;
 use crate::db::write_metadata;
 use crate::error::Result;
 use crate::parquet::parquet_merger;
@@ -161,8 +162,8 @@ impl Compactor {
                             for (idx, l) in res.levels.iter().enumerate().skip(1) {
                                 metadata.levels[idx] = l.clone();
                             }
-                            let mut manifest = table.metadata_f.lock();
-                            write_metadata(manifest.get_mut(), &mut metadata).unwrap();
+                            write_metadata(&table_path(&self.path, &table.name), &metadata)
+                                .unwrap();
                             drop(metadata);
                             // drop because next fs operation is with locking
                             for path in res.opened {
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index cafc540..dcb9023 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -7,7 +7,6 @@ use std::io;
 use std::io::BufReader;
 use std::io::BufWriter;
 use std::io::Read;
-use std::io::Seek;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
@@ -116,6 +115,10 @@ pub(crate) fn part_path(path: &Path, table_name: &str, level_id: usize, part_id:
     ))
 }
 
+pub(crate) fn table_path(path: &Path, table_name: &str) -> PathBuf {
+    path.join("tables").join(table_name)
+}
+
 pub(crate) fn log_name(log_id: u64) -> String {
     format!("{:016}.log", log_id)
 }
@@ -295,7 +298,8 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     Ok(())
 }
 
-pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Result<usize> {
+// replaces metadata of the table in `path` at once: a reader finds either the old or the new one
+pub(crate) fn write_metadata(path: &Path, metadata: &Metadata) -> Result<usize> {
     let data = serialize_md(metadata)?;
     let mut a = Vec::with_capacity(1024 * 10);
     let crc = hash_crc32(&data);
@@ -304,8 +308,9 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
     let vv = (data.len() as u64).to_le_bytes();
     a.push(vv.as_slice());
     a.push(&data);
-    manifest.rewind()?;
-    manifest.write_all(a.concat().as_slice())?;
+    let tmp_path = path.join("metadata.tmp");
+    fs::write(&tmp_path, a.concat().as_slice())?;
+    fs::rename(tmp_path, path.join("metadata"))?;
     let logged_size = 8 + 4 + data.len();
     // !@#trace!("logged size: {}", logged_size);
     // log.flush()?;
@@ -314,10 +319,7 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
 
 fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     let start_time = Instant::now();
-    let mut mdf = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .open(path.join("metadata"))?;
+    let mut mdf = File::open(path.join("metadata"))?;
     let mut crc_b = [0u8; mem::size_of::<u32>()];
     let read_bytes = mdf.read(&mut crc_b)?;
     if read_bytes == 0 {
@@ -408,7 +410,6 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         name,
         memtable: Arc::new(Mutex::new(memtable)),
         metadata: Arc::new(Mutex::new(md)),
-        metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
         log: Arc::new(Mutex::new(log)),
         cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
     })
@@ -551,12 +552,7 @@ fn flush_log_(
     // create new log
     trace!("creating new log file {:?}", log_name(metadata.log_id));
 
-    let mut manifest = OpenOptions::new()
-        .write(true)
-        .read(true)
-        .open(path.join(format!("tables/{}/metadata", metadata.table_name)))?;
-
-    write_metadata(&mut manifest, metadata)?;
+    write_metadata(&table_path(path, &metadata.table_name), metadata)?;
 
     trace!(
         "removing previous log file {:?}",
@@ -1274,8 +1270,7 @@ impl OptiDBImpl {
 
         let field = Field::new(field_name.to_string(), dt.clone().try_into()?, is_nullable);
         metadata.schema.fields.push(field.clone());
-        let mut mdf = tbl.metadata_f.lock();
-        write_metadata(mdf.get_mut(), &mut metadata)?;
+        write_metadata(&table_path(&self.path, tbl_name), &metadata)?;
 
         let mut memtable = tbl.memtable.lock();
         if memtable.cols_len() < metadata.schema.fields.len() {
@@ -1304,7 +1299,7 @@ impl OptiDBImpl {
             fs::create_dir_all(path.join("levels").join(lid.to_string()))?;
         }
 
-        let mut metadata = Metadata {
+        let metadata = Metadata {
             version: 0,
             log_id: 0,
             table_name: table_name.clone(),
@@ -1320,17 +1315,11 @@ impl OptiDBImpl {
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
-        let mut mdf = OpenOptions::new()
-            .create_new(true)
-            .write(true)
-            .read(true)
-            .open(path.join("metadata"))?;
-        write_metadata(&mut mdf, &mut metadata)?;
+        write_metadata(&path, &metadata)?;
         let tbl = Table {
             name: table_name.clone(),
             memtable: Arc::new(Mutex::new(memtable)),
             metadata: Arc::new(Mutex::new(metadata)),
-            metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
             log: Arc::new(Mutex::new(BufWriter::new(log))),
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
@@ -1478,12 +1467,10 @@ impl OptiDBImpl {
         for tbl in tables {
             fs::create_dir_all(path.join(format!("tables/{}", tbl.name)))?;
             // md
-            let md_path = path.join(format!("tables/{}/metadata", tbl.name));
-            let mut md_w = File::create(md_path)?;
             let mut md = tbl.metadata.clone();
             md.log_id = 0;
             md.version = version;
-            write_metadata(&mut md_w, &mut md)?;
+            write_metadata(&table_path(&path, &tbl.name), &md)?;
 
             // log
             let mut log_len_b = [0u8; mem::size_of::<u64>()];
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index 21c86c0..bc6441b 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -112,7 +112,6 @@ pub(crate) struct Table {
     pub(crate) name: String,
     pub(crate) memtable: Arc<Mutex<Memtable>>,
     pub(crate) metadata: Arc<Mutex<Metadata>>,
-    pub(crate) metadata_f: Arc<Mutex<BufWriter<File>>>,
     pub(crate) log: Arc<Mutex<BufWriter<File>>>,
     pub(crate) cas: Arc<RwLock<LruCache<Vec<Value>, i64>>>,
 }
-- 
2.43.0


From 7bccbfdbe238d87ebc53640645a974ae2e9b08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 010/106] fix: keep rows when a flush is interrupted

---
 src/storage/src/db.rs | 81 +++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 45 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index dcb9023..9951b23 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,5 +1,3 @@
-use std::collections::BinaryHeap;
-use std::ffi::OsStr;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -340,28 +338,8 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     }
 
     let mut md = deserialize_md(&data_b)?;
-    let dir = fs::read_dir(path.clone())?;
-    let mut logs = BinaryHeap::new();
-
-    for f in dir {
-        let f = f?;
-        match f.path().extension() {
-            None => {}
-            Some(n) => {
-                if n == OsStr::new("log") {
-                    logs.push(f.path());
-                }
-            }
-        };
-    }
-
-    if logs.is_empty() {
-        return Err(StoreError::Internal("no logs found".to_string()));
-    }
-
-    // !@#trace!("found {} logs", logs.len());
-
-    let log_path = logs.pop().unwrap();
+    // logs with other ids are leftovers of an interrupted flush
+    let log_path = path.join(log_name(md.log_id));
     // todo make a buffered read. Currently something odd happens with reading the length of the record
     let mut log = OpenOptions::new().read(true).write(true).open(&log_path)?;
 
@@ -493,7 +471,12 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
         metadata.levels[0].part_id,
     );
     // !@#trace!("creating part file {:?}", p);
-    let w = OpenOptions::new().create_new(true).write(true).open(path)?;
+    // the file may exist if previous flush was interrupted
+    let w = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .open(path)?;
     let mut writer =
         parquet::write::FileWriter::try_new(BufWriter::new(w), metadata.schema.clone(), popts)?;
     // Write the part
@@ -526,9 +509,6 @@ fn flush_log_(
     // !@#trace!("writing to parquet");
     // !@#trace!("part id: {}", md.levels[0].part_id);
 
-    let empty_memtable = memtable.create_empty();
-    let memtable = mem::replace(memtable, empty_memtable);
-
     let ppath = part_path(
         path,
         metadata.table_name.as_str(),
@@ -537,33 +517,44 @@ fn flush_log_(
     );
     fs.open(&ppath)?;
 
-    let part = write_level0(metadata, &memtable, path)?;
-    metadata.levels[0].parts.push(part.clone());
+    let part = write_level0(metadata, memtable, path);
+    fs.close(&ppath)?;
+    let part = part?;
+    let mut new_metadata = metadata.clone();
+    new_metadata.levels[0].parts.push(part.clone());
     // increment table id
-    metadata.levels[0].part_id += 1;
-    metadata.stats.written_bytes += part.size_bytes;
+    new_metadata.levels[0].part_id += 1;
+    new_metadata.stats.written_bytes += part.size_bytes;
 
-    metadata.stats.logged_bytes = 0;
+    new_metadata.stats.logged_bytes = 0;
     // increment log id
-    metadata.log_id += 1;
-
-    fs.close(&ppath)?;
+    new_metadata.log_id += 1;
 
-    // create new log
-    trace!("creating new log file {:?}", log_name(metadata.log_id));
+    // create new log, it must exist before metadata refers to it
+    trace!("creating new log file {:?}", log_name(new_metadata.log_id));
+    let log = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .read(true)
+        .open(log_path(
+            path,
+            &new_metadata.table_name,
+            new_metadata.log_id,
+        ))?;
 
-    write_metadata(&table_path(path, &metadata.table_name), metadata)?;
+    write_metadata(&table_path(path, &new_metadata.table_name), &new_metadata)?;
+    *metadata = new_metadata;
+    *memtable = memtable.create_empty();
 
     trace!(
         "removing previous log file {:?}",
         log_name(metadata.log_id - 1)
     );
-    fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))?;
-    let log = OpenOptions::new()
-        .create_new(true)
-        .write(true)
-        .read(true)
-        .open(log_path(path, &metadata.table_name, metadata.log_id))?;
+    if let Err(err) = fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1)) {
+        // gc will remove it later
+        error!("remove failed: {}", err);
+    }
     histogram!(METRIC_STORE_FLUSH_TIME_SECONDS,"table"=>metadata.table_name.clone())
         .record(start_time.elapsed());
     counter!(METRIC_STORE_FLUSHES_TOTAL,"table"=>metadata.table_name.clone()).increment(1);
-- 
2.43.0


From 77f6af805e5ba042a74fecb59b1e74b31493b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 011/106] fix: open the store after an interrupted table
 creation

---
 src/storage/src/db.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 9951b23..89b5582 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -401,6 +401,10 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let dir = fs::read_dir(path.join("tables"))?;
     for f in dir {
         let f = f?;
+        if !f.path().join("metadata").exists() {
+            // creation of the table was interrupted
+            continue;
+        }
         tables.push(try_recover_table(
             f.path(),
             f.file_name().to_os_string().into_string().unwrap(),
@@ -1276,14 +1280,13 @@ impl OptiDBImpl {
 
     pub fn create_table(&self, table_name: String, opts: table::Options) -> Result<()> {
         let _g = self.global_lock.read();
-        let tbl = self.tables.read();
-        if tbl.iter().any(|t| t.name == table_name) {
+        let mut tables = self.tables.write();
+        if tables.iter().any(|t| t.name == table_name) {
             return Err(StoreError::AlreadyExists(format!(
                 "Table with name {} already exists",
                 table_name
             )));
         }
-        drop(tbl);
         let path = self.path.join("tables").join(table_name.clone());
         fs::create_dir_all(&path)?;
         for lid in 0..opts.levels {
@@ -1301,8 +1304,10 @@ impl OptiDBImpl {
         };
 
         let memtable = Memtable::new();
+        // the file may exist if previous creation was interrupted
         let log = OpenOptions::new()
-            .create_new(true)
+            .create(true)
+            .truncate(true)
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
@@ -1315,7 +1320,6 @@ impl OptiDBImpl {
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
 
-        let mut tables = self.tables.write();
         tables.push(tbl);
         Ok(())
     }
-- 
2.43.0


From 84c2d7c05df0d7e68bfd146e479a666b49d34312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 012/106] fix: open the store when the last log record is
 incomplete

---
 src/storage/src/db.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 89b5582..21d12bc 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -5,6 +5,8 @@ use std::io;
 use std::io::BufReader;
 use std::io::BufWriter;
 use std::io::Read;
+use std::io::Seek;
+use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
@@ -348,21 +350,24 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     for f in &md.schema.fields {
         memtable.add_column(f.data_type.clone().try_into()?);
     }
-    loop {
+    const RECORD_HEADER_LEN: u64 = (mem::size_of::<u32>() + mem::size_of::<u64>()) as u64;
+    let log_len = log.metadata()?.len();
+    let mut recovered_len = 0u64;
+    while log_len - recovered_len >= RECORD_HEADER_LEN {
         let mut crc_b = [0u8; mem::size_of::<u32>()];
-        let read_bytes = log.read(&mut crc_b)?;
-        if read_bytes == 0 {
-            break;
-        }
+        log.read_exact(&mut crc_b)?;
         let crc32 = u32::from_le_bytes(crc_b);
         // !@#trace!("crc32: {}", crc32);
 
         let mut len_b = [0u8; mem::size_of::<u64>()];
-        _ = log.read(&mut len_b)?;
+        log.read_exact(&mut len_b)?;
         let len = u64::from_le_bytes(len_b);
         // !@#trace!("len: {}", len);
+        if len > log_len - recovered_len - RECORD_HEADER_LEN {
+            break;
+        }
         let mut data_b = vec![0u8; len as usize];
-        _ = log.read(&mut data_b)?;
+        log.read_exact(&mut data_b)?;
         // todo recover from this case
         let cur_crc32 = hash_crc32(&data_b);
         if crc32 != cur_crc32 {
@@ -374,10 +379,17 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         let op = deserialize::<LogOp>(&data_b)?;
 
         recover_op(op, &mut memtable)?;
+        recovered_len += RECORD_HEADER_LEN + len;
+    }
+    if recovered_len < log_len {
+        // write of the last record was interrupted, so the insert wasn't acknowledged
+        error!("incomplete record at the end of {:?}", log_path);
+        log.set_len(recovered_len)?;
+        log.seek(SeekFrom::Start(recovered_len))?;
     }
     // !@#trace!("operations recovered: {}", ops);
 
-    md.stats.logged_bytes = log_path.metadata().unwrap().len();
+    md.stats.logged_bytes = recovered_len;
 
     let log = BufWriter::new(log);
     // if trigger_compact {
-- 
2.43.0


From 02e4fd56c3c00eebd2621199636821cba66875e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 013/106] fix: merge all pages of a key in a replacing table

---
 src/storage/src/parquet/parquet_merger.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index 9e74a8b..b635aa7 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -215,10 +215,10 @@ pub fn check_intersection(
     let mut max_values = first.max_values()[..index_cols - offset].to_vec();
     for row in iter {
         if row.min_values()[..index_cols - offset].to_vec() <= min_values {
-            min_values = row.min_values();
+            min_values = row.min_values()[..index_cols - offset].to_vec();
         }
         if row.max_values()[..index_cols - offset].to_vec() >= max_values {
-            max_values = row.max_values();
+            max_values = row.max_values()[..index_cols - offset].to_vec();
         }
     }
 
-- 
2.43.0


From 3a81024bf5c3e916401ba0b43dca6236f1421fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 014/106] fix: removal of a file by gc and compaction at the
 same time

---
 src/storage/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index da0dfff..b497722 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -174,7 +174,11 @@ impl Fs {
     }
     pub fn try_remove_file<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         if !self.is_opened(&path) {
-            return Ok(fs::remove_file(path)?);
+            return match fs::remove_file(path) {
+                // gc and compaction may remove the same file
+                Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),
+                res => Ok(res?),
+            };
         }
         Ok(())
     }
-- 
2.43.0


From 6f5853572660af875f36277080a4ae25d186adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:56 +0000
Subject: [PATCH 015/106] fix: insert a row atomically with flushes and schema
 changes

---
 src/storage/src/db.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 21d12bc..3a780ac 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -729,9 +729,9 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        // schema must not change and memtable must not be flushed until the row is in both log and
+        // memtable
+        let mut metadata = tbl.metadata.lock();
         for v in values.iter() {
             match metadata.schema.fields.iter().find(|f| f.name == v.name) {
                 None => {
@@ -789,7 +789,6 @@ impl OptiDBImpl {
             log.get_mut(),
         )?;
         drop(log);
-        let mut metadata = tbl.metadata.lock();
         metadata.stats.logged_bytes += logged as u64;
         let mut memtable = tbl.memtable.lock();
         for (idx, val) in pk_values.iter().enumerate() {
-- 
2.43.0


From 340efa5edc5b9cdf0b57d1b802feb43e7c4dca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 016/106] fix: deadlock of replace and backup

---
 src/storage/src/db.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 3a780ac..a4f1773 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -850,7 +850,6 @@ impl OptiDBImpl {
     }
 
     pub fn replace(&self, tbl_name: &str, values: Vec<NamedValue>) -> Result<()> {
-        let _g = self.global_lock.read();
         let tables = self.tables.read();
         let tbl = tables.iter().find(|t| t.name == tbl_name);
         let tbl = match tbl {
-- 
2.43.0


From bfeda98eed6297fef3aebc31ba0b888df2d575be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 017/106] fix: read memtable and parts of the same moment

---
 src/storage/src/db.rs | 429 +++++++++++++++++++++---------------------
 1 file changed, 215 insertions(+), 214 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index a4f1773..d1499f0 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -646,9 +646,9 @@ impl OptiDBImpl {
         };
 
         drop(tables);
+        // parts must not change until memtable is read and parts are opened
         let md = tbl.metadata.lock();
         let metadata = md.clone();
-        drop(md);
 
         let start_time = Instant::now();
         let memtable = tbl.memtable.lock();
@@ -685,6 +685,8 @@ impl OptiDBImpl {
                 rdrs.push(rdr);
             }
         }
+        drop(memtable);
+        drop(md);
         gauge!(METRIC_STORE_SCAN_PARTS, "table"=>tbl_name.to_string()).set(rdrs.len() as f64);
         let iter = if rdrs.is_empty() {
             Box::new(MemChunkIterator::new(maybe_chunk))
@@ -887,195 +889,273 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
+        // parts must not change until memtable is read and parts are opened
+        let md = tbl.metadata.lock();
         let mt = tbl.memtable.lock();
         if let Some(v) = mt.get(&key) {
             return Ok(Some(v));
         }
         drop(mt);
-        let md = tbl.metadata.lock();
         let metadata = md.clone();
-        drop(md);
-
+        let mut rdrs = vec![];
         for (level_id, level) in metadata.levels.iter().enumerate() {
-            let mut parts = level.parts.clone();
-            parts.reverse();
-            for part in parts.iter() {
-                let _offset = if metadata.opts.is_replacing { 1 } else { 0 };
-                if key >= part.min[..part.min.len()].to_vec()
-                    && key <= part.max[..part.max.len()].to_vec()
-                {
+            for part in level.parts.iter().rev() {
+                if key >= part.min && key <= part.max {
                     let path = part_path(&self.path, tbl_name, level_id, part.id);
-                    let mut rdr = File::open(path)?;
-                    let parquet_md = read::read_metadata(&mut rdr)?;
-                    let schema = read::infer_schema(&parquet_md)?;
-
-                    let mut found = vec![];
-                    'g: for row_group_id in 0..parquet_md.row_groups.len() {
-                        #[allow(clippy::needless_range_loop)]
-                        for field_id in 0..key.len() {
-                            let field = &schema.fields[field_id];
-                            let statistics = read::statistics::deserialize(field, &[parquet_md
-                                .row_groups[row_group_id]
-                                .clone()])?;
-                            // todo support non-int64 values
-                            let min = statistics
-                                .min_value
-                                .as_any()
-                                .downcast_ref::<Int64Array>()
-                                .unwrap();
-                            // assume we have only one value
-                            let minv = min.value(0);
-                            let max = statistics
-                                .max_value
-                                .as_any()
-                                .downcast_ref::<Int64Array>()
-                                .unwrap();
-                            // assume we have only one value
-                            let maxv = max.value(0);
-                            if let KeyValue::Int64(v) = key[field_id] {
-                                if v < minv || v > maxv {
-                                    continue 'g;
-                                }
-                            } else {
-                                unreachable!();
-                            }
+                    rdrs.push(File::open(path)?);
+                }
+            }
+        }
+        drop(md);
+
+        for mut rdr in rdrs {
+            let parquet_md = read::read_metadata(&mut rdr)?;
+            let schema = read::infer_schema(&parquet_md)?;
+
+            let mut found = vec![];
+            'g: for row_group_id in 0..parquet_md.row_groups.len() {
+                #[allow(clippy::needless_range_loop)]
+                for field_id in 0..key.len() {
+                    let field = &schema.fields[field_id];
+                    let statistics = read::statistics::deserialize(field, &[parquet_md
+                        .row_groups[row_group_id]
+                        .clone()])?;
+                    // todo support non-int64 values
+                    let min = statistics
+                        .min_value
+                        .as_any()
+                        .downcast_ref::<Int64Array>()
+                        .unwrap();
+                    // assume we have only one value
+                    let minv = min.value(0);
+                    let max = statistics
+                        .max_value
+                        .as_any()
+                        .downcast_ref::<Int64Array>()
+                        .unwrap();
+                    // assume we have only one value
+                    let maxv = max.value(0);
+                    if let KeyValue::Int64(v) = key[field_id] {
+                        if v < minv || v > maxv {
+                            continue 'g;
                         }
-                        found.push(parquet_md.row_groups[row_group_id].clone());
+                    } else {
+                        unreachable!();
                     }
+                }
+                found.push(parquet_md.row_groups[row_group_id].clone());
+            }
 
-                    if found.is_empty() {
-                        // ranges of parts are wider than keys in them
-                        continue;
-                    }
+            if found.is_empty() {
+                // ranges of parts are wider than keys in them
+                continue;
+            }
+
+            let chunks = read::FileReader::new(
+                rdr,
+                found,
+                schema.clone(),
+                Some(1024 * 8 * 8), // todo make configurable?
+                None,
+                None,
+            );
+
+            let int_v = key
+                .iter()
+                .map(|v| match v {
+                    KeyValue::Int64(v) => *v,
+                    _ => unreachable!(),
+                })
+                .collect::<Vec<_>>();
 
-                    let chunks = read::FileReader::new(
-                        rdr,
-                        found,
-                        schema.clone(),
-                        Some(1024 * 8 * 8), // todo make configurable?
-                        None,
-                        None,
+            for chunk in chunks {
+                let chunk = chunk?;
+                let mut idx_cols = vec![];
+                for field_id in 0..key.len() {
+                    idx_cols.push(
+                        chunk.arrays()[field_id]
+                            .as_any()
+                            .downcast_ref::<Int64Array>()
+                            .unwrap(),
                     );
+                }
 
-                    let int_v = key
-                        .iter()
-                        .map(|v| match v {
-                            KeyValue::Int64(v) => *v,
-                            _ => unreachable!(),
-                        })
-                        .collect::<Vec<_>>();
-
-                    for chunk in chunks {
-                        let chunk = chunk?;
-                        let mut idx_cols = vec![];
-                        for field_id in 0..key.len() {
-                            idx_cols.push(
-                                chunk.arrays()[field_id]
-                                    .as_any()
-                                    .downcast_ref::<Int64Array>()
-                                    .unwrap(),
-                            );
+                's: for row_id in 0..chunk.len() {
+                    let v = idx_cols[0].value(row_id);
+                    if int_v[0] != v {
+                        continue;
+                    }
+
+                    for other in 1..key.len() {
+                        let v = idx_cols[other].value(row_id);
+                        if int_v[other] != v {
+                            continue 's;
                         }
+                    }
 
-                        's: for row_id in 0..chunk.len() {
-                            let v = idx_cols[0].value(row_id);
-                            if int_v[0] != v {
+                    let mut vals = vec![];
+
+                    for (field_id, field) in metadata.schema.fields.iter().enumerate() {
+                        if field_id > schema.fields.len() - 1 {
+                            let val = match &field.data_type {
+                                DataType::Boolean => Value::Null,
+                                DataType::Int8 => Value::Null,
+                                DataType::Int16 => Value::Null,
+                                DataType::Int32 => Value::Null,
+                                DataType::Int64 => Value::Null,
+                                DataType::Timestamp(_, _) => Value::Null,
+                                DataType::Decimal(_, _) => Value::Null,
+                                DataType::Utf8 => Value::Null,
+                                DataType::List(f) => match f.data_type {
+                                    DataType::Boolean => Value::Null,
+                                    DataType::Int8 => Value::Null,
+                                    DataType::Int16 => Value::Null,
+                                    DataType::Int32 => Value::Null,
+                                    DataType::Int64 => Value::Null,
+                                    DataType::Timestamp(_, _) => Value::Null,
+                                    DataType::Decimal(_, _) => Value::Null,
+                                    DataType::Utf8 => Value::Null,
+                                    _ => unreachable!(),
+                                },
+                                _ => unreachable!(),
+                            };
+
+                            vals.push(val);
+                        } else {
+                            if chunk.arrays()[field_id].is_null(row_id) {
+                                vals.push(Value::Null);
                                 continue;
                             }
 
-                            for other in 1..key.len() {
-                                let v = idx_cols[other].value(row_id);
-                                if int_v[other] != v {
-                                    continue 's;
+                            match &field.data_type {
+                                DataType::Boolean => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<BooleanArray>()
+                                        .unwrap();
+                                    vals.push(Value::Boolean(Some(arr.value(row_id))));
                                 }
-                            }
-
-                            let mut vals = vec![];
-
-                            for (field_id, field) in metadata.schema.fields.iter().enumerate() {
-                                if field_id > schema.fields.len() - 1 {
-                                    let val = match &field.data_type {
-                                        DataType::Boolean => Value::Null,
-                                        DataType::Int8 => Value::Null,
-                                        DataType::Int16 => Value::Null,
-                                        DataType::Int32 => Value::Null,
-                                        DataType::Int64 => Value::Null,
-                                        DataType::Timestamp(_, _) => Value::Null,
-                                        DataType::Decimal(_, _) => Value::Null,
-                                        DataType::Utf8 => Value::Null,
-                                        DataType::List(f) => match f.data_type {
-                                            DataType::Boolean => Value::Null,
-                                            DataType::Int8 => Value::Null,
-                                            DataType::Int16 => Value::Null,
-                                            DataType::Int32 => Value::Null,
-                                            DataType::Int64 => Value::Null,
-                                            DataType::Timestamp(_, _) => Value::Null,
-                                            DataType::Decimal(_, _) => Value::Null,
-                                            DataType::Utf8 => Value::Null,
-                                            _ => unreachable!(),
-                                        },
-                                        _ => unreachable!(),
-                                    };
-
-                                    vals.push(val);
-                                } else {
-                                    if chunk.arrays()[field_id].is_null(row_id) {
-                                        vals.push(Value::Null);
-                                        continue;
-                                    }
+                                DataType::Int8 => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<Int8Array>()
+                                        .unwrap();
+                                    vals.push(Value::Int8(Some(arr.value(row_id))));
+                                }
+                                DataType::Int16 => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<Int16Array>()
+                                        .unwrap();
+                                    vals.push(Value::Int16(Some(arr.value(row_id))));
+                                }
+                                DataType::Int32 => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<Int32Array>()
+                                        .unwrap();
+                                    vals.push(Value::Int32(Some(arr.value(row_id))));
+                                }
+                                DataType::Int64 => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<Int64Array>()
+                                        .unwrap();
+                                    vals.push(Value::Int64(Some(arr.value(row_id))));
+                                }
+                                DataType::Decimal(_, _) => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<Int128Array>()
+                                        .unwrap();
+                                    vals.push(Value::Decimal(Some(arr.value(row_id))));
+                                }
+                                DataType::Timestamp(_, _) => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<Int64Array>()
+                                        .unwrap();
+                                    vals.push(Value::Timestamp(Some(arr.value(row_id))));
+                                }
+                                DataType::Utf8 => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<Utf8Array<i32>>()
+                                        .unwrap();
+                                    vals.push(Value::String(Some(
+                                        arr.value(row_id).to_string(),
+                                    )));
+                                }
+                                DataType::List(f) => {
+                                    let arr = chunk.arrays()[field_id]
+                                        .as_any()
+                                        .downcast_ref::<ListArray<i32>>()
+                                        .unwrap();
 
-                                    match &field.data_type {
+                                    match f.data_type {
                                         DataType::Boolean => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<BooleanArray>()
                                                 .unwrap();
-                                            vals.push(Value::Boolean(Some(arr.value(row_id))));
+                                            vals.push(Value::Boolean(Some(
+                                                arr.value(row_id),
+                                            )));
                                         }
                                         DataType::Int8 => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<Int8Array>()
                                                 .unwrap();
                                             vals.push(Value::Int8(Some(arr.value(row_id))));
                                         }
                                         DataType::Int16 => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<Int16Array>()
                                                 .unwrap();
-                                            vals.push(Value::Int16(Some(arr.value(row_id))));
+                                            vals.push(Value::Int16(Some(
+                                                arr.value(row_id),
+                                            )));
                                         }
                                         DataType::Int32 => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<Int32Array>()
                                                 .unwrap();
-                                            vals.push(Value::Int32(Some(arr.value(row_id))));
+                                            vals.push(Value::Int32(Some(
+                                                arr.value(row_id),
+                                            )));
                                         }
                                         DataType::Int64 => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<Int64Array>()
                                                 .unwrap();
-                                            vals.push(Value::Int64(Some(arr.value(row_id))));
+                                            vals.push(Value::Int64(Some(
+                                                arr.value(row_id),
+                                            )));
                                         }
                                         DataType::Decimal(_, _) => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<Int128Array>()
                                                 .unwrap();
-                                            vals.push(Value::Decimal(Some(arr.value(row_id))));
+                                            vals.push(Value::Decimal(Some(
+                                                arr.value(row_id),
+                                            )));
                                         }
                                         DataType::Timestamp(_, _) => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<Int64Array>()
                                                 .unwrap();
-                                            vals.push(Value::Timestamp(Some(arr.value(row_id))));
+                                            vals.push(Value::Timestamp(Some(
+                                                arr.value(row_id),
+                                            )));
                                         }
                                         DataType::Utf8 => {
-                                            let arr = chunk.arrays()[field_id]
+                                            let arr = arr
                                                 .as_any()
                                                 .downcast_ref::<Utf8Array<i32>>()
                                                 .unwrap();
@@ -1083,94 +1163,15 @@ impl OptiDBImpl {
                                                 arr.value(row_id).to_string(),
                                             )));
                                         }
-                                        DataType::List(f) => {
-                                            let arr = chunk.arrays()[field_id]
-                                                .as_any()
-                                                .downcast_ref::<ListArray<i32>>()
-                                                .unwrap();
-
-                                            match f.data_type {
-                                                DataType::Boolean => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<BooleanArray>()
-                                                        .unwrap();
-                                                    vals.push(Value::Boolean(Some(
-                                                        arr.value(row_id),
-                                                    )));
-                                                }
-                                                DataType::Int8 => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<Int8Array>()
-                                                        .unwrap();
-                                                    vals.push(Value::Int8(Some(arr.value(row_id))));
-                                                }
-                                                DataType::Int16 => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<Int16Array>()
-                                                        .unwrap();
-                                                    vals.push(Value::Int16(Some(
-                                                        arr.value(row_id),
-                                                    )));
-                                                }
-                                                DataType::Int32 => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<Int32Array>()
-                                                        .unwrap();
-                                                    vals.push(Value::Int32(Some(
-                                                        arr.value(row_id),
-                                                    )));
-                                                }
-                                                DataType::Int64 => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<Int64Array>()
-                                                        .unwrap();
-                                                    vals.push(Value::Int64(Some(
-                                                        arr.value(row_id),
-                                                    )));
-                                                }
-                                                DataType::Decimal(_, _) => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<Int128Array>()
-                                                        .unwrap();
-                                                    vals.push(Value::Decimal(Some(
-                                                        arr.value(row_id),
-                                                    )));
-                                                }
-                                                DataType::Timestamp(_, _) => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<Int64Array>()
-                                                        .unwrap();
-                                                    vals.push(Value::Timestamp(Some(
-                                                        arr.value(row_id),
-                                                    )));
-                                                }
-                                                DataType::Utf8 => {
-                                                    let arr = arr
-                                                        .as_any()
-                                                        .downcast_ref::<Utf8Array<i32>>()
-                                                        .unwrap();
-                                                    vals.push(Value::String(Some(
-                                                        arr.value(row_id).to_string(),
-                                                    )));
-                                                }
-                                                _ => unreachable!(),
-                                            }
-                                        }
                                         _ => unreachable!(),
                                     }
                                 }
+                                _ => unreachable!(),
                             }
-
-                            return Ok(Some(vals));
                         }
                     }
+
+                    return Ok(Some(vals));
                 }
             }
         }
-- 
2.43.0


From e020e326516134b0abee5cc9131a8bcbe3fcb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 018/106] fix: take a backup of one moment while the store is
 in use

---
 src/storage/src/db.rs | 50 ++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index d1499f0..0d485f2 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -10,7 +10,6 @@ use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
-use std::os::unix::fs::MetadataExt;
 use std::path::Path;
 use std::path::PathBuf;
 use std::pin::Pin;
@@ -1360,32 +1359,30 @@ impl OptiDBImpl {
         let _g = self.backup_lock.lock();
         let start_time = Instant::now();
         let lock = self.global_lock.write();
-        let tables = self.tables.read();
-        let mut mds = vec![];
-        for tbl in tables.iter() {
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.lock().log_id);
+        let tables = self.tables.read().clone();
+        // snapshot of all the tables, they may change as soon as the lock is released
+        let tbls = tables
+            .iter()
+            .map(table::serialize_table)
+            .collect::<Vec<_>>();
+        let mut log_lens = vec![];
+        for tbl in tbls.iter() {
+            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.log_id);
+            log_lens.push(fs::metadata(&log_path)?.len());
+            // prevent file deletion
             self.fs.open(&log_path)?;
-            // md snapshot here prevents metadata changes during backup
-            let md = tbl.metadata.lock().clone();
-            for (lid, lvl) in md.levels.iter().enumerate() {
+            for (lid, lvl) in tbl.metadata.levels.iter().enumerate() {
                 for part in &lvl.parts {
-                    let path = part_path(&self.path, &md.table_name, lid, part.id);
-                    // prevent file deletion
+                    let path = part_path(&self.path, &tbl.name, lid, part.id);
                     self.fs.open(&path)?;
                 }
             }
-            mds.push(md);
         }
-        let tables = tables.clone();
         drop(lock);
         // version
         writer.write_all(VERSION.to_le_bytes().as_slice())?;
 
         // tables
-        let tbls = tables
-            .iter()
-            .map(table::serialize_table)
-            .collect::<Vec<_>>();
         let parts_size = tbls
             .iter()
             .map(|tbl| {
@@ -1402,20 +1399,15 @@ impl OptiDBImpl {
         writer.write_all(data.as_slice())?;
 
         // table
-        for tbl in tbls {
+        for (tbl, log_len) in tbls.iter().zip(log_lens) {
             // log
             let log_path = log_path(&self.path, &tbl.name, tbl.metadata.log_id);
-            let log_bak_path = format!(
-                "{}.bak",
-                log_path.clone().into_os_string().into_string().unwrap()
-            );
-            fs::copy(&log_path, &log_bak_path)?;
-            self.fs.close(&log_path)?;
-            let mut log = OpenOptions::new().read(true).open(&log_bak_path).unwrap();
-            writer.write_all(log.metadata()?.size().to_le_bytes().as_slice())?;
+            // the log may have grown since the snapshot
+            let mut log = File::open(&log_path)?.take(log_len);
+            writer.write_all(log_len.to_le_bytes().as_slice())?;
             io::copy(&mut log, writer)?;
             drop(log);
-            fs::remove_file(&log_bak_path)?;
+            self.fs.close(&log_path)?;
 
             // parts
             let mut psize = 0;
@@ -1431,10 +1423,10 @@ impl OptiDBImpl {
             }
         }
         writer.write_all(&BACKUP_MAGIC)?;
-        for md in mds.iter() {
-            for (lid, lvl) in md.levels.iter().enumerate() {
+        for tbl in tbls.iter() {
+            for (lid, lvl) in tbl.metadata.levels.iter().enumerate() {
                 for part in &lvl.parts {
-                    let path = part_path(&self.path, &md.table_name, lid, part.id);
+                    let path = part_path(&self.path, &tbl.name, lid, part.id);
                     self.fs.close(&path)?;
                 }
             }
-- 
2.43.0


From 9608b99ee66a0d08b40a6fd0dc14b9b5925d37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:21 +0000
Subject: [PATCH 019/106] fix: do not leave background threads behind after a
 restore

---
 src/storage/src/db.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 0d485f2..b5bf566 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -404,9 +404,7 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     })
 }
 
-// #[instrument(level = "trace")]
-fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
-    let path = path.as_ref();
+fn recover_tables(path: &Path) -> Result<Vec<Table>> {
     fs::create_dir_all(path.join("tables"))?;
     let mut tables = vec![];
     let dir = fs::read_dir(path.join("tables"))?;
@@ -421,6 +419,14 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
             f.file_name().to_os_string().into_string().unwrap(),
         )?);
     }
+
+    Ok(tables)
+}
+
+// #[instrument(level = "trace")]
+fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
+    let path = path.as_ref();
+    let tables = recover_tables(path)?;
     // let trigger_compact = if metadata.partitions[0].parts.len() > 0
     //     && metadata.partitions[0].parts.len() > opts.l0_max_parts
     // {
@@ -1498,11 +1504,9 @@ impl OptiDBImpl {
             return Err(StoreError::InvalidBackupMagicNumber);
         }
 
-        let db = recover(path, Options {})?;
-        // todo prevent the start of gc/compaction before tables are copied
-        let from = db.tables.read().clone();
-        let mut to = self.tables.write();
-        *to = from;
+        // only tables: background threads of this store are already running
+        let tables = recover_tables(&path)?;
+        *self.tables.write() = tables;
         Ok(())
     }
 
-- 
2.43.0


From a35313981d55e0bb2144f15a91b214b8466ee005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 020/106] fix: release part files of a scan that is dropped
 before its end

---
 src/storage/src/db.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index b5bf566..eb3d7fd 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -617,13 +617,6 @@ impl Stream for ScanStream {
     fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         match self.iter.next() {
             None => {
-                for (level_id, level) in self.md.levels.iter().enumerate() {
-                    for part in &level.parts {
-                        let path = part_path(&self.path, &self.table_name, level_id, part.id);
-                        self.fs.close(&path)?;
-                    }
-                }
-
                 histogram!(METRIC_STORE_SCAN_TIME_SECONDS,"table"=>self.table_name.to_string())
                     .record(self.start_time.elapsed());
                 Poll::Ready(None)
@@ -636,6 +629,20 @@ impl Stream for ScanStream {
     }
 }
 
+impl Drop for ScanStream {
+    // the stream may be dropped before its end
+    fn drop(&mut self) {
+        for (level_id, level) in self.md.levels.iter().enumerate() {
+            for part in &level.parts {
+                let path = part_path(&self.path, &self.table_name, level_id, part.id);
+                if let Err(err) = self.fs.close(&path) {
+                    error!("close failed: {}", err);
+                }
+            }
+        }
+    }
+}
+
 impl OptiDBImpl {
     // #[instrument(level = "trace")]
     pub fn open(path: PathBuf, opts: Options) -> Result<Self> {
-- 
2.43.0


From 6097852b3558aa6261427f8c64ba31d5467469e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 021/106] fix: index project tokens apart from project names

---
 src/metadata/src/projects.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index 99fc5ed..4574b19 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -30,6 +30,7 @@ use crate::Result;
 
 const NAMESPACE: &[u8] = b"projects";
 const IDX_NAME: &[u8] = b"name";
+const IDX_TOKEN: &[u8] = b"token";
 
 fn index_keys(name: &str, token: &str) -> Vec<Option<Vec<u8>>> {
     [index_name_key(name), index_token_key(token)].to_vec()
@@ -40,7 +41,7 @@ fn index_name_key(name: &str) -> Option<Vec<u8>> {
 }
 
 fn index_token_key(token: &str) -> Option<Vec<u8>> {
-    Some(make_index_key(NAMESPACE, IDX_NAME, token).to_vec())
+    Some(make_index_key(NAMESPACE, IDX_TOKEN, token).to_vec())
 }
 
 pub struct Projects {
-- 
2.43.0


From 49e9fc01958c2ea820234c21066d729a04bb9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 022/106] fix: store the properties attached to an event

---
 src/metadata/src/events.rs      | 17 ++++++++++++++---
 src/metadata/src/pb/event.proto |  3 +++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index c858bd8..848ca6e 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -489,6 +489,9 @@ fn serialize(v: &Event) -> Result<Vec<u8>> {
             Status::Disabled => 2,
         },
         is_system: v.is_system,
+        event_properties: v.event_properties.clone().unwrap_or_default(),
+        user_properties: v.user_properties.clone().unwrap_or_default(),
+        custom_properties: v.custom_properties.clone().unwrap_or_default(),
     };
 
     Ok(d.encode_to_vec())
@@ -520,12 +523,20 @@ fn deserialize(data: &[u8]) -> Result<Event> {
             _ => unreachable!(),
         },
         is_system: from.is_system,
-        event_properties: None,
-        user_properties: None,
-        custom_properties: None,
+        event_properties: non_empty(from.event_properties),
+        user_properties: non_empty(from.user_properties),
+        custom_properties: non_empty(from.custom_properties),
     })
 }
 
+fn non_empty(ids: Vec<u64>) -> Option<Vec<u64>> {
+    if ids.is_empty() {
+        None
+    } else {
+        Some(ids)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use chrono::DateTime;
diff --git a/src/metadata/src/pb/event.proto b/src/metadata/src/pb/event.proto
index 1ac389e..feddf0c 100644
--- a/src/metadata/src/pb/event.proto
+++ b/src/metadata/src/pb/event.proto
@@ -14,6 +14,9 @@ message Event {
   optional string description = 10;
   Status status = 11;
   bool is_system = 12;
+  repeated uint64 event_properties = 13;
+  repeated uint64 user_properties = 14;
+  repeated uint64 custom_properties = 15;
 }
 
 enum Status {
-- 
2.43.0


From 85e3b02391912e30923f8a8c0a061d210eb6cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 023/106] fix: accounts update changes the role

---
 src/metadata/src/accounts.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 03b2835..633c406 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -154,6 +154,9 @@ impl Accounts {
         if let OptionalProperty::Some(teams) = req.teams {
             account.teams = teams;
         }
+        if let OptionalProperty::Some(role) = req.role {
+            account.role = role;
+        }
         if let OptionalProperty::Some(hash) = req.password_hash {
             account.password_hash = hash;
         }
-- 
2.43.0


From 78136acd57d773b62cff58482c33e0338eacfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 024/106] fix: reports update changes the type

---
 src/metadata/src/reports.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index c86d381..d2fed42 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -137,6 +137,9 @@ impl Reports {
         if let OptionalProperty::Some(tags) = req.tags {
             report.tags = tags;
         }
+        if let OptionalProperty::Some(typ) = req.typ {
+            report.typ = typ;
+        }
         if let OptionalProperty::Some(query) = req.query {
             report.query = query;
         }
-- 
2.43.0


From 0f91510d6dc88277e6dfaaf2b7fc3b948abbf226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 025/106] fix: list all teams of an organization

---
 src/metadata/src/teams.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 98d8d4a..b58cde2 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -118,10 +118,9 @@ impl Teams {
             let (key, value) = kv?;
             // check if key contains the prefix
             if key.len() < prefix.len() || !prefix.as_slice().cmp(&key[..prefix.len()]).is_eq() {
-                continue;
+                break;
             }
             list.push(deserialize(&value)?);
-            break;
         }
 
         Ok(ListResponse {
-- 
2.43.0


From 9ff2fd28c026a850e7162738a5bf50f4de728f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 026/106] fix: store the hour at which backups start

---
 src/metadata/src/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index b97d03b..2ebc261 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -183,7 +183,7 @@ fn serialize(v: &Settings) -> Result<Vec<u8>> {
             BackupScheduleInterval::Monthly => pbconfig::BackupScheduleInterval::Monthly as i32,
             BackupScheduleInterval::Yearly => pbconfig::BackupScheduleInterval::Yearly as i32,
         },
-        backup_schedule_start_hour: 0,
+        backup_schedule_start_hour: v.backup_schedule_start_hour as u32,
     };
 
     Ok(backup.encode_to_vec())
-- 
2.43.0


From fdd458dc68f152dbe122a6244c8da977c4d4f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 027/106] fix: do not commit an event creation that failed

---
 src/metadata/src/events.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 848ca6e..5cc17c5 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -209,9 +209,9 @@ impl Events {
 
     pub fn create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
@@ -222,9 +222,9 @@ impl Events {
             other => return other,
         }
 
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_by_id(&self, project_id: u64, id: u64) -> Result<Event> {
-- 
2.43.0


From 7efce73ea0ef02553764cebab16f4b67007d8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 028/106] fix: write a new custom event within its transaction

---
 src/metadata/src/custom_events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0aaac3d..8a897d5 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -160,7 +160,7 @@ impl CustomEvents {
             events: req.events,
         };
         let data = serialize(&event)?;
-        self.db.put(
+        tx.put(
             make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event.id),
             data,
         )?;
-- 
2.43.0


From 54b7023c02f36efe508b0c34305ca6cb9ede91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 029/106] fix: cache properties only once they are committed

---
 src/metadata/src/properties.rs | 36 +++++++++++++++-------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index e8e1917..8af39fd 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -216,6 +216,18 @@ impl Properties {
         }
     }
 
+    // called once a property is committed, so that the caches never show what is not stored
+    fn cache(&self, prop: &Property) {
+        self.name_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.name.to_string()), prop.clone());
+        self.id_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.id), prop.clone());
+    }
+
     fn create_(
         &self,
         tx: &Transaction<TransactionDB>,
@@ -276,16 +288,6 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
@@ -351,6 +353,7 @@ impl Properties {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
+        self.cache(&ret);
 
         Ok(ret)
     }
@@ -365,6 +368,7 @@ impl Properties {
         let ret = self.create_(&tx, project_id, req)?;
 
         tx.commit()?;
+        self.cache(&ret);
 
         Ok(ret)
     }
@@ -498,20 +502,12 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
         update_index(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref(), property_id)?;
         tx.commit()?;
+        self.cache(&prop);
         Ok(prop)
     }
 
@@ -527,12 +523,12 @@ impl Properties {
             &tx,
             index_keys(project_id, &self.typ, &prop.name, prop.display_name.clone()).as_ref(),
         )?;
+        tx.commit()?;
         self.name_cache
             .write()
             .unwrap()
             .pop(&(project_id, prop.name.to_string()));
         self.id_cache.write().unwrap().pop(&(project_id, prop.id));
-        tx.commit()?;
         Ok(prop)
     }
 }
-- 
2.43.0


From e7a8f38beecad3830ea9a84bf27c8da62758103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 030/106] fix: lock sequences and unique keys while they are
 read and written

---
 src/metadata/src/index.rs      | 8 ++++----
 src/metadata/src/properties.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index 53b7b1c..d8a636a 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -9,7 +9,7 @@ pub fn check_insert_constraints(
     keys: &[Option<Vec<u8>>],
 ) -> Result<()> {
     for key in keys.iter().flatten() {
-        if tx.get(key)?.is_some() {
+        if tx.get_for_update(key, true)?.is_some() {
             return Err(MetadataError::AlreadyExists(String::from_utf8(
                 key.to_owned(),
             )?));
@@ -36,7 +36,7 @@ pub fn check_update_constraints(
 ) -> Result<()> {
     for (key, prev_key) in keys.iter().zip(prev_keys) {
         if let Some(key_v) = key {
-            if key != prev_key && (tx.get(key_v)?).is_some() {
+            if key != prev_key && (tx.get_for_update(key_v, true)?).is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key_v.to_owned(),
                 )?));
@@ -90,7 +90,7 @@ where
 }
 
 pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 1,
@@ -101,7 +101,7 @@ pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Resu
 }
 
 pub fn next_zero_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 0,
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index 8af39fd..8b0d234 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -237,7 +237,7 @@ impl Properties {
         let mut idx_keys = index_keys(project_id, &self.typ, &req.name, req.display_name.clone());
 
         for key in idx_keys.iter().flatten() {
-            if tx.get(key)?.is_some() {
+            if tx.get_for_update(key, true)?.is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key.to_owned(),
                 )?));
-- 
2.43.0


From 54132ea5414b812026d2082de16aec2b73b95e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 031/106] fix: lock an entity while it is updated or deleted

---
 src/metadata/src/accounts.rs      | 6 ++++++
 src/metadata/src/backups.rs       | 3 +++
 src/metadata/src/custom_events.rs | 3 +++
 src/metadata/src/dashboards.rs    | 3 +++
 src/metadata/src/events.rs        | 6 ++++++
 src/metadata/src/index.rs         | 6 ++++++
 src/metadata/src/organizations.rs | 6 ++++++
 src/metadata/src/projects.rs      | 4 ++++
 src/metadata/src/reports.rs       | 3 +++
 src/metadata/src/teams.rs         | 3 +++
 10 files changed, 43 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 633c406..5509972 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -121,6 +122,7 @@ impl Accounts {
     pub fn update(&self, account_id: u64, req: UpdateAccountRequest) -> Result<Account> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, account_id))?;
         let prev_account = self.get_by_id_(&tx, account_id)?;
         let mut account = prev_account.clone();
 
@@ -171,6 +173,7 @@ impl Accounts {
 
     pub fn delete(&self, id: u64) -> Result<Account> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let account = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
@@ -186,6 +189,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().any(|(id, _)| *id == org_id) {
@@ -206,6 +210,7 @@ impl Accounts {
         member_id: u64,
         org_id: u64,
     ) -> Result<()> {
+        lock(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().all(|(id, _)| *id != org_id) {
@@ -227,6 +232,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         for (id, r) in orgs.iter_mut() {
diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 1fe5bd1..c7be3ce 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::backup;
 use crate::error::MetadataError;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -177,6 +178,7 @@ impl Backups {
     pub fn update_status(&self, backup_id: u64, status: Status) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, backup_id))?;
         let mut backup = self.get_by_id_(&tx, backup_id)?;
         backup.status = status;
         backup.updated_at = Some(Utc::now());
@@ -189,6 +191,7 @@ impl Backups {
 
     pub fn delete(&self, id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let _ = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 8a897d5..861dc85 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -26,6 +26,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -219,6 +220,7 @@ impl CustomEvents {
     ) -> Result<CustomEvent> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id))?;
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
 
@@ -271,6 +273,7 @@ impl CustomEvents {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<CustomEvent> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/dashboards.rs b/src/metadata/src/dashboards.rs
index 4525103..b8082e1 100644
--- a/src/metadata/src/dashboards.rs
+++ b/src/metadata/src/dashboards.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::dashboard;
 use crate::error::MetadataError;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -118,6 +119,7 @@ impl Dashboards {
     ) -> Result<Dashboard> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), dashboard_id))?;
         let prev_dashboard = self.get_by_id_(&tx, project_id, dashboard_id)?;
         let mut dashboard = prev_dashboard.clone();
 
@@ -147,6 +149,7 @@ impl Dashboards {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Dashboard> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let dashboard = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 5cc17c5..b66c186 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -64,6 +65,7 @@ macro_rules! attach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id))?;
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => Some(vec![$prop_id]),
@@ -89,6 +91,7 @@ macro_rules! attach_property {
 macro_rules! detach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id))?;
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => {
@@ -265,6 +268,7 @@ impl Events {
     pub fn update(&self, project_id: u64, event_id: u64, req: UpdateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id))?;
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
 
@@ -324,6 +328,7 @@ impl Events {
     ) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id))?;
         let mut event = self.get_by_id_(&tx, project_id, event_id)?;
         for prop in event_props {
             match &event.event_properties {
@@ -385,6 +390,7 @@ impl Events {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Event> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index d8a636a..f7a3097 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -18,6 +18,12 @@ pub fn check_insert_constraints(
     Ok(())
 }
 
+// locks the key until the end of the transaction: what is read of it until then stays true
+pub fn lock<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<()> {
+    tx.get_for_update(key, true)?;
+    Ok(())
+}
+
 pub fn insert_index(
     tx: &Transaction<TransactionDB>,
     keys: &[Option<Vec<u8>>],
diff --git a/src/metadata/src/organizations.rs b/src/metadata/src/organizations.rs
index 9ae7758..bbebc6d 100644
--- a/src/metadata/src/organizations.rs
+++ b/src/metadata/src/organizations.rs
@@ -18,6 +18,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -127,6 +128,7 @@ impl Organizations {
         id: u64,
         req: UpdateOrganizationRequest,
     ) -> Result<Organization> {
+        lock(tx, make_data_value_key(NAMESPACE, id))?;
         let prev_org = self.get_by_id_(tx, id)?;
 
         let mut org = prev_org.clone();
@@ -160,6 +162,7 @@ impl Organizations {
 
     pub fn add_member(&self, id: u64, member_id: u64, role: OrganizationRole) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::AlreadyExists(
@@ -177,6 +180,7 @@ impl Organizations {
 
     pub fn remove_member(&self, id: u64, member_id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if !org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::NotFound(
@@ -199,6 +203,7 @@ impl Organizations {
         role: OrganizationRole,
     ) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if let Some(member) = org.members.iter_mut().find(|(id, _)| *id == member_id) {
             member.1 = role.clone();
@@ -219,6 +224,7 @@ impl Organizations {
     pub fn delete(&self, id: u64) -> Result<Organization> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let org = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index 4574b19..ecc52e5 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -18,6 +18,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -136,6 +137,7 @@ impl Projects {
     pub fn update(&self, project_id: u64, req: UpdateProjectRequest) -> Result<Project> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let prev_project = self.get_by_id_(&tx, project_id)?;
         let mut project = prev_project.clone();
 
@@ -177,6 +179,7 @@ impl Projects {
     pub fn increment_events_counter(&self, project_id: u64) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let mut project = self.get_by_id_(&tx, project_id)?;
         project.events_count += 1;
         let data = serialize(&project)?;
@@ -188,6 +191,7 @@ impl Projects {
     pub fn delete(&self, project_id: u64) -> Result<Project> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let project = self.get_by_id_(&tx, project_id)?;
         tx.delete(make_data_value_key(NAMESPACE, project_id))?;
 
diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index d2fed42..ab7bbf6 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -16,6 +16,7 @@ use serde::Deserialize;
 use serde::Serialize;
 
 use crate::error::MetadataError;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -123,6 +124,7 @@ impl Reports {
         req: UpdateReportRequest,
     ) -> Result<Report> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), report_id))?;
         let prev_report = self.get_by_id_(&tx, project_id, report_id)?;
         let mut report = prev_report.clone();
 
@@ -155,6 +157,7 @@ impl Reports {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Report> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let report = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index b58cde2..bc768e2 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -14,6 +14,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -137,6 +138,7 @@ impl Teams {
     ) -> Result<Team> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id))?;
         let prev_team = self.get_by_id_(&tx, organization_id, team_id)?;
         let mut team = prev_team.clone();
 
@@ -167,6 +169,7 @@ impl Teams {
     pub fn delete(&self, organization_id: u64, team_id: u64) -> Result<Team> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id))?;
         let team = self.get_by_id_(&tx, organization_id, team_id)?;
         tx.delete(make_data_value_key(
             org_ns(organization_id, NAMESPACE).as_slice(),
-- 
2.43.0


From c66507fb02000ccad5573a9be4b4dc93d756655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 032/106] fix: keep the property caches in step with concurrent
 changes

---
 src/metadata/src/properties.rs | 55 ++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index 8b0d234..0dc3bc2 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -216,16 +216,29 @@ impl Properties {
         }
     }
 
-    // called once a property is committed, so that the caches never show what is not stored
-    fn cache(&self, prop: &Property) {
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((prop.project_id, prop.name.to_string()), prop.clone());
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((prop.project_id, prop.id), prop.clone());
+    // commits and then caches the property; the caches are held over both, so that they change
+    // in the order of the commits and never show what is not stored
+    fn commit(&self, tx: Transaction<TransactionDB>, prop: &Property) -> Result<()> {
+        let mut name_cache = self.name_cache.write().unwrap();
+        let mut id_cache = self.id_cache.write().unwrap();
+        tx.commit()?;
+        name_cache.put((prop.project_id, prop.name.to_string()), prop.clone());
+        id_cache.put((prop.project_id, prop.id), prop.clone());
+        Ok(())
+    }
+
+    fn read(&self, tx: &Transaction<TransactionDB>, project_id: u64, id: u64) -> Result<Property> {
+        let key = make_data_value_key(
+            project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
+            id,
+        );
+
+        match tx.get_for_update(key, true)? {
+            None => Err(MetadataError::NotFound(
+                format!("property {id} not found").to_string(),
+            )),
+            Some(value) => Ok(deserialize(&value)?),
+        }
     }
 
     fn create_(
@@ -352,8 +365,7 @@ impl Properties {
     pub fn create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
-        tx.commit()?;
-        self.cache(&ret);
+        self.commit(tx, &ret)?;
 
         Ok(ret)
     }
@@ -367,8 +379,7 @@ impl Properties {
         }
         let ret = self.create_(&tx, project_id, req)?;
 
-        tx.commit()?;
-        self.cache(&ret);
+        self.commit(tx, &ret)?;
 
         Ok(ret)
     }
@@ -428,7 +439,7 @@ impl Properties {
     ) -> Result<Property> {
         let tx = self.db.transaction();
 
-        let prev_prop = self.get_by_id(project_id, property_id)?;
+        let prev_prop = self.read(&tx, project_id, property_id)?;
         let mut prop = prev_prop.clone();
 
         let mut idx_keys: Vec<Option<Vec<u8>>> = Vec::new();
@@ -506,14 +517,13 @@ impl Properties {
         tx.put(idx_key, data)?;
 
         update_index(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref(), property_id)?;
-        tx.commit()?;
-        self.cache(&prop);
+        self.commit(tx, &prop)?;
         Ok(prop)
     }
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Property> {
         let tx = self.db.transaction();
-        let prop = self.get_by_id_(&tx, project_id, id)?;
+        let prop = self.read(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             id,
@@ -523,12 +533,11 @@ impl Properties {
             &tx,
             index_keys(project_id, &self.typ, &prop.name, prop.display_name.clone()).as_ref(),
         )?;
+        let mut name_cache = self.name_cache.write().unwrap();
+        let mut id_cache = self.id_cache.write().unwrap();
         tx.commit()?;
-        self.name_cache
-            .write()
-            .unwrap()
-            .pop(&(project_id, prop.name.to_string()));
-        self.id_cache.write().unwrap().pop(&(project_id, prop.id));
+        name_cache.pop(&(project_id, prop.name.to_string()));
+        id_cache.pop(&(project_id, prop.id));
         Ok(prop)
     }
 }
-- 
2.43.0


From 3474b40d1c212fdf5449bd20a66643013e66c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 033/106] fix: give a dictionary value used concurrently a
 single key

---
 src/metadata/src/dictionaries.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index f78749e..e8ca423 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -66,11 +66,10 @@ impl Dictionaries {
         dict: &str,
         value: &str,
     ) -> Result<u64> {
-        let res = match tx.get(make_value_key(
-            project_id,
-            tbl_dict(table, dict).as_str(),
-            value,
-        ))? {
+        let res = match tx.get_for_update(
+            make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
+            true,
+        )? {
             None => {
                 let key = make_id_seq_key(
                     project_ns(
-- 
2.43.0


From bb5f932ba42056114f226248f8d17b73eb30c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 034/106] fix: give a group or user seen concurrently a single
 id

---
 src/metadata/src/groups.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index e4da52a..0d49ca4 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -36,7 +36,7 @@ impl Groups {
         anon_key: &str,
     ) -> Result<u64> {
         let key = format!("projects/{project_id}/groups/{group_id}/anonymous/keys/{anon_key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -77,7 +77,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let user_key = format!("projects/{project_id}/groups/{group_id}/real/keys/{id}");
-        let res = match tx.get(user_key.as_bytes())? {
+        let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
                     self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
@@ -109,7 +109,7 @@ impl Groups {
         values: Vec<PropertyValue>,
     ) -> Result<GroupValues> {
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -148,7 +148,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -216,7 +216,7 @@ impl Groups {
     ) -> Result<Group> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/names/{name}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let id = next_zero_seq(
                     &tx,
-- 
2.43.0


From fa5aaf2b25f2fd68c225f7ebb6e72b8103a7e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 035/106] fix: merging with an anonymous user leaves the id
 sequence alone

---
 src/metadata/src/groups.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index 0d49ca4..0a69e7a 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -80,11 +80,7 @@ impl Groups {
         let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
-                    self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
-                let group_key = format!("groups/{group_id}");
-                let seq_key =
-                    make_id_seq_key(project_ns(project_id, group_key.as_bytes()).as_slice());
-                tx.put(seq_key, anonymous_id.to_string().as_bytes())?;
+                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                 let group = GroupValues {
                     id: anonymous_id,
                     values,
-- 
2.43.0


From 4a7aa40b1aa45cea93a3f232254079b3cb465d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 036/106] fix: updating a custom event counts the levels above
 it

---
 src/metadata/src/custom_events.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 861dc85..0bce79c 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -111,6 +111,30 @@ impl CustomEvents {
         Ok(())
     }
 
+    // number of levels of custom events above the event
+    fn level_of(&self, project_id: u64, id: u64) -> Result<usize> {
+        let list = self.list(project_id)?.data;
+        let mut level = 0;
+        let mut ids = vec![id];
+        while level <= list.len() {
+            ids = list
+                .iter()
+                .filter(|c| {
+                    c.events
+                        .iter()
+                        .any(|e| matches!(&e.event, EventRef::Custom(id) if ids.contains(id)))
+                })
+                .map(|c| c.id)
+                .collect();
+            if ids.is_empty() {
+                break;
+            }
+            level += 1;
+        }
+
+        Ok(level)
+    }
+
     fn get_by_id_(
         &self,
         tx: &Transaction<TransactionDB>,
@@ -255,7 +279,8 @@ impl CustomEvents {
             }
 
             let mut ids = vec![event.id];
-            self.validate_events(project_id, &events, 0, &mut ids)?;
+            let level = self.level_of(project_id, event.id)?;
+            self.validate_events(project_id, &events, level, &mut ids)?;
 
             event.events = events;
         }
-- 
2.43.0


From 372f7f90d54b153b8c5c38e7d251d4506c4833c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 037/106] fix: concurrent changes of custom events exclude each
 other

---
 src/metadata/src/custom_events.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0bce79c..383c88f 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -111,6 +111,11 @@ impl CustomEvents {
         Ok(())
     }
 
+    // changes of what custom events contain exclude each other until the end of the transaction
+    fn lock_events(&self, tx: &Transaction<TransactionDB>, project_id: u64) -> Result<()> {
+        lock(tx, make_data_key(project_ns(project_id, NAMESPACE).as_slice()))
+    }
+
     // number of levels of custom events above the event
     fn level_of(&self, project_id: u64, id: u64) -> Result<usize> {
         let list = self.list(project_id)?.data;
@@ -156,12 +161,14 @@ impl CustomEvents {
             return Err(MetadataError::BadRequest("empty events".to_string()));
         }
 
+        let tx = self.db.transaction();
+        self.lock_events(&tx, project_id)?;
+
         let mut ids = Vec::new();
         self.validate_events(project_id, &req.events, 0, &mut ids)?;
 
         let idx_keys = index_keys(project_id, &req.name);
 
-        let tx = self.db.transaction();
         check_insert_constraints(&tx, idx_keys.as_ref())?;
 
         let created_at = Utc::now();
@@ -244,6 +251,9 @@ impl CustomEvents {
     ) -> Result<CustomEvent> {
         let tx = self.db.transaction();
 
+        if matches!(req.events, OptionalProperty::Some(_)) {
+            self.lock_events(&tx, project_id)?;
+        }
         lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id))?;
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
-- 
2.43.0


From b26a0d0c115ca1eee404e6c5115e9ed850b9b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 038/106] fix: do not share a property column of another type

---
 src/metadata/src/properties.rs | 124 ++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 57 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index 0dc3bc2..45d68c2 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -241,6 +241,36 @@ impl Properties {
         }
     }
 
+    // makes sure that the column exists, false if there is one of another type
+    fn add_column(&self, name: &str, dt: &DType, nullable: bool) -> Result<bool> {
+        let mut tables = vec![TABLE_EVENTS.to_string()];
+        if let Type::Group(g) = self.typ {
+            tables.push(group_col(g));
+        }
+        for table in tables {
+            match self
+                .opti_db
+                .add_field(table.as_str(), name, dt.clone(), nullable)
+            {
+                Ok(_) => {}
+                Err(StoreError::AlreadyExists(_)) => {
+                    let schema = self.opti_db.schema(table.as_str())?;
+                    let field = schema.fields.iter().find(|f| f.name == name);
+                    if let Some(field) = field {
+                        let existing = DType::try_from(field.data_type.clone())
+                            .map_err(|e| MetadataError::Internal(e.to_string()))?;
+                        if existing != *dt {
+                            return Ok(false);
+                        }
+                    }
+                }
+                Err(err) => return Err(err.into()),
+            }
+        }
+
+        Ok(true)
+    }
+
     fn create_(
         &self,
         tx: &Transaction<TransactionDB>,
@@ -262,19 +292,9 @@ impl Properties {
             make_id_seq_key(project_ns(project_id, self.typ.path().as_bytes()).as_slice()),
         )?;
 
-        let order = next_zero_seq(
-            tx,
-            make_id_seq_key(
-                project_ns(
-                    project_id,
-                    format!("properties/order/{}", req.data_type.short_name()).as_bytes(),
-                )
-                .as_slice(),
-            ),
-        )?;
         let created_at = Utc::now();
 
-        let prop = Property {
+        let mut prop = Property {
             id,
             created_at,
             updated_at: None,
@@ -285,7 +305,7 @@ impl Properties {
             name: req.name,
             description: req.description,
             display_name: req.display_name,
-            order,
+            order: 0,
             typ: req.typ.clone(),
             data_type: req.data_type.clone(),
             status: req.status,
@@ -297,6 +317,40 @@ impl Properties {
             is_system: req.is_system,
         };
 
+        let dt = if let Some(dt) = &req.dictionary_type {
+            match dt {
+                DictionaryType::Int8 => DType::Int8,
+                DictionaryType::Int16 => DType::Int16,
+                DictionaryType::Int32 => DType::Int32,
+                DictionaryType::Int64 => DType::Int64,
+            }
+        } else {
+            req.data_type.clone()
+        };
+
+        // columns are shared with other projects: take the next one when the type does not match
+        loop {
+            prop.order = next_zero_seq(
+                tx,
+                make_id_seq_key(
+                    project_ns(
+                        project_id,
+                        format!("properties/order/{}", req.data_type.short_name()).as_bytes(),
+                    )
+                    .as_slice(),
+                ),
+            )?;
+            if self.add_column(prop.column_name().as_str(), &dt, req.nullable)? {
+                break;
+            }
+            if prop.is_system {
+                return Err(MetadataError::AlreadyExists(format!(
+                    "column {} of another type",
+                    prop.column_name()
+                )));
+            }
+        }
+
         let idx_key = make_data_value_key(
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
@@ -315,51 +369,7 @@ impl Properties {
 
         insert_index(tx, idx_keys.as_ref(), prop.id)?;
 
-        let dt = if let Some(dt) = &req.dictionary_type {
-            match dt {
-                DictionaryType::Int8 => DType::Int8,
-                DictionaryType::Int16 => DType::Int16,
-                DictionaryType::Int32 => DType::Int32,
-                DictionaryType::Int64 => DType::Int64,
-            }
-        } else {
-            req.data_type.clone()
-        };
-
-        return if let Type::Group(g) = self.typ {
-            match self.opti_db.add_field(
-                TABLE_EVENTS,
-                prop.column_name().as_str(),
-                dt.clone(),
-                req.nullable,
-            ) {
-                Err(StoreError::AlreadyExists(_)) => {}
-                Err(err) => return Err(err.into()),
-                _ => {}
-            };
-
-            match self.opti_db.add_field(
-                group_col(g).as_str(),
-                prop.column_name().as_str(),
-                dt,
-                req.nullable,
-            ) {
-                Ok(_) => Ok(prop),
-                Err(StoreError::AlreadyExists(_)) => Ok(prop),
-                Err(err) => Err(err.into()),
-            }
-        } else {
-            match self.opti_db.add_field(
-                TABLE_EVENTS,
-                prop.column_name().as_str(),
-                dt,
-                req.nullable,
-            ) {
-                Ok(_) => Ok(prop),
-                Err(StoreError::AlreadyExists(_)) => Ok(prop),
-                Err(err) => Err(err.into()),
-            }
-        };
+        Ok(prop)
     }
 
     pub fn create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
-- 
2.43.0


From ec516616e4c0e0d8ddd5d95ada37af4f136b63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 039/106] fix: leave the columns of other aggregates null

---
 .../src/physical_plan/segmented_aggregate.rs  | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index d505d7d..4709098 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -483,23 +483,8 @@ impl Stream for PartialAggregateStream {
                         |field| match batch.schema().index_of(field.name().as_str()) {
                             Ok(col_idx) => Ok(batch.column(col_idx).clone()),
                             Err(_) => {
-                                let v = match field.data_type() {
-                                    DataType::Int8 => ScalarValue::Int8(Some(0)),
-                                    DataType::Int16 => ScalarValue::Int16(Some(0)),
-                                    DataType::Int32 => ScalarValue::Int32(Some(0)),
-                                    DataType::Int64 => ScalarValue::Int64(Some(0)),
-                                    DataType::UInt8 => ScalarValue::UInt8(Some(0)),
-                                    DataType::UInt16 => ScalarValue::UInt16(Some(0)),
-                                    DataType::UInt32 => ScalarValue::UInt32(Some(0)),
-                                    DataType::UInt64 => ScalarValue::UInt64(Some(0)),
-                                    DataType::Decimal128(_, _) => ScalarValue::Decimal128(
-                                        Some(0),
-                                        DECIMAL_PRECISION,
-                                        DECIMAL_SCALE,
-                                    ),
-                                    DataType::Float64 => ScalarValue::Float64(Some(0.)),
-                                    _ => unimplemented!("{:?}", field.data_type()),
-                                };
+                                // the column belongs to another aggregate: no value here
+                                let v = ScalarValue::try_from(field.data_type())?;
                                 Ok(v.to_array_of_size(batch.column(0).len())?)
                             }
                         },
-- 
2.43.0


From 7336883335c407ee819528e1c3e1bffaea7f83c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 040/106] fix: compute averages over a single partition

---
 src/query/src/physical_plan/segmented_aggregate.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index 4709098..13fe584 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -244,6 +244,14 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
 
     fn required_input_distribution(&self) -> Vec<Distribution> {
         // todo make it configurable, don't use project_id and user_id entities
+        // averages of partitions can't be combined into the average of the whole
+        if self
+            .agg_expr
+            .iter()
+            .any(|(agg, _)| agg.lock().unwrap().op() == "avg")
+        {
+            return vec![Distribution::SinglePartition];
+        }
         vec![Distribution::HashPartitioned(vec![
             Arc::new(Column::new_with_schema("project_id", &self.input.schema()).unwrap()),
             Arc::new(self.partition_col.clone()) as PhysicalExprRef,
-- 
2.43.0


From da1e3d817d296f2108d62932d884d110b7e59087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 041/106] fix: match users against their segments

---
 src/query/src/physical_plan/planner/mod.rs      |  2 +-
 .../src/physical_plan/segmented_aggregate.rs    | 17 +++++++----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/query/src/physical_plan/planner/mod.rs b/src/query/src/physical_plan/planner/mod.rs
index fc205ef..0948e1b 100644
--- a/src/query/src/physical_plan/planner/mod.rs
+++ b/src/query/src/physical_plan/planner/mod.rs
@@ -220,7 +220,7 @@ impl DFExtensionPlanner for ExtensionPlanner {
             let partition_inputs = node
                 .partition_inputs
                 .clone()
-                .map(|c| physical_inputs[1..c.len()].to_vec());
+                .map(|c| physical_inputs[1..=c.len()].to_vec());
 
             let partition_col = Column::new(
                 node.partition_col.name.as_str(),
diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index 13fe584..5e2bb9f 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -286,7 +286,8 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
             if let Some(inputs) = &self.segment_inputs {
                 inputs
                     .iter()
-                    .map(|input| input.execute(partition, context.clone()))
+                    // a segment has one partition: its users belong to every partition of the input
+                    .map(|input| input.execute(0, context.clone()))
                     .collect::<DFResult<_>>()?
             } else {
                 vec![]
@@ -297,7 +298,6 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
             stream: self.input.execute(partition, context.clone())?,
             segment_streams: RefCell::new(segment_streams),
             schema: self.schema.clone(),
-            partition_col: self.partition_col.clone(),
             named_agg_expr: self.agg_expr.clone(),
             agg_expr: vec![],
             agg_schemas: self.agg_schemas.clone(),
@@ -344,7 +344,6 @@ struct PartialAggregateStream {
     stream: SendableRecordBatchStream,
     segment_streams: RefCell<Vec<SendableRecordBatchStream>>,
     schema: SchemaRef,
-    partition_col: Column,
     named_agg_expr: Vec<NamedAggExpr>,
     #[allow(clippy::type_complexity)]
     agg_expr: Vec<Vec<Arc<Mutex<Box<dyn PartitionedAggregateExpr>>>>>,
@@ -371,7 +370,6 @@ impl Stream for PartialAggregateStream {
         }
 
         if self.stage == Stage::CollectSegments {
-            let partition_col = self.partition_col.clone();
             // collect segments
             {
                 let mut streams = self.segment_streams.borrow_mut();
@@ -379,17 +377,16 @@ impl Stream for PartialAggregateStream {
                     loop {
                         match stream.poll_next_unpin(cx) {
                             Poll::Ready(Some(Ok(batch))) => {
-                                let vals = partition_col
-                                    .evaluate(&batch)?
-                                    .into_array(batch.num_rows())?
+                                // the partition is the only column of a segment
+                                let vals = batch
+                                    .column(0)
                                     .as_any()
                                     .downcast_ref::<Int64Array>()
                                     .unwrap()
                                     .clone();
 
-                                for val in vals.iter() {
-                                    self.segment_partitions.borrow_mut()[id]
-                                        .insert(val.unwrap(), ());
+                                for val in vals.iter().flatten() {
+                                    self.segment_partitions.borrow_mut()[id].insert(val, ());
                                 }
                             }
                             Poll::Ready(None) => break,
-- 
2.43.0


From d9d4c1f85f457f9183145b7bf6931c0f25eb0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 042/106] fix: aggregate every user of a segment once

---
 .../aggregate/partitioned/aggregate.rs        | 19 +++++++----
 .../aggregate/partitioned/count.rs            | 33 ++++++++++---------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index ee8b263..cf8acaa 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -216,10 +216,21 @@ macro_rules! agg {
                     if let Some(exists) = partition_exist {
                         if !exists.contains_key(&partition) {
                             self.skip = true;
+                            self.skip_partition = partition;
                             continue;
                         }
                     }
 
+                    if let Some(filter) = &filter {
+                        if !check_filter(filter, row_id) {
+                            continue;
+                        }
+                    }
+
+                    if predicate.is_null(row_id) {
+                        continue;
+                    }
+
                     let bucket = if let Some(groups) = &mut self.groups {
                         groups
                             .groups
@@ -238,12 +249,6 @@ macro_rules! agg {
                         bucket.last_partition = partition;
                     }
 
-                    if let Some(filter) = &filter {
-                        if !check_filter(filter, row_id) {
-                            continue;
-                        }
-                    }
-
                     if bucket.last_partition != partition {
                         let v = bucket.inner_fn.result();
                         // for float multiply will be 1., which will be optimized in release mode
@@ -283,7 +288,7 @@ macro_rules! agg {
                     let mut res_col_b = $b::with_capacity(1);
                     self.single_group
                         .outer_fn
-                        .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty);
+                        .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty * $mul);
                     res_col_b.append_value(self.single_group.outer_fn.result());
                     let res_col = res_col_b.finish();
                     let res_col = Arc::new(res_col) as ArrayRef;
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
index 675796f..df41137 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
@@ -170,6 +170,13 @@ macro_rules! count {
                     if let Some(exists) = partition_exist {
                         if !exists.contains_key(&partition) {
                             self.skip = true;
+                            self.skip_partition = partition;
+                            continue;
+                        }
+                    }
+
+                    if let Some(filter) = &filter {
+                        if !check_filter(filter, row_id) {
                             continue;
                         }
                     }
@@ -191,12 +198,6 @@ macro_rules! count {
                         bucket.last_partition = partition;
                     }
 
-                    if let Some(filter) = &filter {
-                        if !check_filter(filter, row_id) {
-                            continue;
-                        }
-                    }
-
                     if bucket.last_partition != partition {
                         let v = bucket.count;
                         bucket.outer_fn.accumulate(v as $acc_ty);
@@ -207,7 +208,6 @@ macro_rules! count {
 
                     if self.distinct {
                         bucket.count = 1;
-                        self.skip = true;
                         // bucket.hll.add(partition)
                     } else {
                         bucket.count += 1;
@@ -365,6 +365,13 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
             if let Some(exists) = partition_exist {
                 if !exists.contains_key(&partition) {
                     self.skip = true;
+                    self.skip_partition = partition;
+                    continue;
+                }
+            }
+
+            if let Some(filter) = &filter {
+                if !check_filter(filter, row_id) {
                     continue;
                 }
             }
@@ -383,12 +390,6 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
                 bucket.last_partition = partition;
             }
 
-            if let Some(filter) = &filter {
-                if !check_filter(filter, row_id) {
-                    continue;
-                }
-            }
-
             if bucket.last_partition != partition {
                 let v = bucket.count;
                 bucket
@@ -398,10 +399,10 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
 
                 bucket.count = 0;
             }
-            bucket.count += 1;
             if self.distinct {
-                self.skip = true;
-                continue;
+                bucket.count = 1;
+            } else {
+                bucket.count += 1;
             }
         }
 
-- 
2.43.0


From 4d6c9fbee3cec08be9e2491925318edcd71610e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 043/106] fix: evaluate a segment for every user

---
 .../expressions/segmentation/aggregate.rs     | 48 +++++++++++++++----
 .../expressions/segmentation/count.rs         | 20 ++++----
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
index deb0825..6b17c86 100644
--- a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
@@ -144,6 +144,8 @@ where T: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Display
     last_partition: i64,
     res: Int64Builder,
     first: bool,
+    // no values in current partition
+    is_empty: bool,
 }
 
 #[derive(Debug)]
@@ -178,6 +180,7 @@ where OT: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Displa
             last_partition: 0,
             res: Int64Builder::with_capacity(1000),
             first: true,
+            is_empty: true,
         };
         Self {
             filter,
@@ -193,6 +196,20 @@ where OT: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Displa
     }
 }
 
+impl<T, OT, Op> Aggregate<T, OT, Op>
+where
+    OT: Copy + Num + Bounded + NumCast + PartialOrd + Clone + std::fmt::Display,
+    Op: ComparisonOp<OT>,
+{
+    /// checks the condition for current partition. Aggregate of nothing satisfies no condition
+    fn check(&self, inner: &Inner<OT>) -> bool {
+        match inner.agg {
+            AggregateFunction::Count(_) => Op::perform(inner.agg.result(), self.right),
+            _ => !inner.is_empty && Op::perform(inner.agg.result(), self.right),
+        }
+    }
+}
+
 macro_rules! agg {
     ($ty:ty,$array_ty:ident,$acc_ty:ty) => {
         impl<Op> SegmentExpr for Aggregate<$ty, $acc_ty, Op>
@@ -240,16 +257,8 @@ macro_rules! agg {
                         inner.first = false;
                         inner.last_partition = partition.unwrap();
                     }
-                    if !self.time_range.check_bounds(ts.value(row_id)) {
-                        continue;
-                    }
-
-                    if !check_filter(&filter, row_id) {
-                        continue;
-                    }
-
                     if inner.last_partition != partition.unwrap() {
-                        let res = Op::perform(inner.agg.result(), self.right);
+                        let res = self.check(&inner);
 
                         if !res {
                             inner.res.append_null();
@@ -259,8 +268,23 @@ macro_rules! agg {
                         }
 
                         inner.agg.reset();
+                        inner.is_empty = true;
                         inner.last_partition = partition.unwrap();
                     }
+
+                    if !self.time_range.check_bounds(ts.value(row_id)) {
+                        continue;
+                    }
+
+                    if !check_filter(&filter, row_id) {
+                        continue;
+                    }
+
+                    if predicate.is_null(row_id) {
+                        continue;
+                    }
+
+                    inner.is_empty = false;
                     inner.agg.accumulate(predicate.value(row_id) as $acc_ty);
                 }
                 Ok(())
@@ -268,7 +292,11 @@ macro_rules! agg {
 
             fn finalize(&self) -> Result<Int64Array> {
                 let mut inner = self.inner.lock().unwrap();
-                let res = Op::perform(inner.agg.result(), self.right);
+                if inner.first {
+                    // there were no partitions
+                    return Ok(inner.res.finish());
+                }
+                let res = self.check(&inner);
                 if !res {
                     inner.res.append_null();
                 } else {
diff --git a/src/query/src/physical_plan/expressions/segmentation/count.rs b/src/query/src/physical_plan/expressions/segmentation/count.rs
index 73079e8..307e6e8 100644
--- a/src/query/src/physical_plan/expressions/segmentation/count.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/count.rs
@@ -98,14 +98,6 @@ where Op: ComparisonOp<i64>
                 inner.first = false;
                 inner.last_partition = partition.unwrap();
             }
-            if !self.time_range.check_bounds(ts.value(row_id)) {
-                continue;
-            }
-
-            if !check_filter(&filter, row_id) {
-                continue;
-            }
-
             if inner.last_partition != partition.unwrap() {
                 let res = match Op::op() {
                     Operator::Lt => inner.count < self.right,
@@ -126,6 +118,14 @@ where Op: ComparisonOp<i64>
 
                 inner.count = 0;
             }
+
+            if !self.time_range.check_bounds(ts.value(row_id)) {
+                continue;
+            }
+
+            if !check_filter(&filter, row_id) {
+                continue;
+            }
             inner.count += 1;
         }
         Ok(())
@@ -133,6 +133,10 @@ where Op: ComparisonOp<i64>
 
     fn finalize(&self) -> Result<Int64Array> {
         let mut inner = self.inner.lock().unwrap();
+        if inner.first {
+            // there were no partitions
+            return Ok(inner.res.finish());
+        }
         let res = match Op::op() {
             Operator::Lt => inner.count < self.right,
             Operator::LtEq => inner.count <= self.right,
-- 
2.43.0


From b6eb9001125a839f0b8341b5c211e1413815b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 044/106] fix: pivot groups beyond the first buffer

---
 src/query/src/physical_plan/pivot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/pivot.rs b/src/query/src/physical_plan/pivot.rs
index 2a2b363..477e15c 100644
--- a/src/query/src/physical_plan/pivot.rs
+++ b/src/query/src/physical_plan/pivot.rs
@@ -285,9 +285,9 @@ impl PivotStream {
                     .into());
                 }
                 Some(values) => {
-                    if values.len() - 1 < group_idx {
+                    if values.len() <= group_idx {
                         values.resize(
-                            values.len() + BUFFER_LENGTH,
+                            group_idx + BUFFER_LENGTH,
                             ScalarValue::try_from(&self.value_type)?,
                         );
                     }
-- 
2.43.0


From 06211895aff5553a2ccdb9672d85b0a8e738898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 045/106] fix: unpivot missing values

---
 src/query/src/logical_plan/unpivot.rs  | 2 +-
 src/query/src/physical_plan/unpivot.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/logical_plan/unpivot.rs b/src/query/src/logical_plan/unpivot.rs
index 706273a..e9cabd1 100644
--- a/src/query/src/logical_plan/unpivot.rs
+++ b/src/query/src/logical_plan/unpivot.rs
@@ -49,7 +49,7 @@ impl UnpivotNode {
 
             let name_field = Arc::new(Field::new(name_col.as_str(), DataType::Utf8, false));
             fields.push(name_field);
-            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, false));
+            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, true));
             fields.push(value_field);
 
             Arc::new(DFSchema::from_unqualifed_fields(
diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 490af00..0b4477c 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -111,7 +111,7 @@ impl UnpivotExec {
 
             let name_field = Field::new(name_col.as_str(), DataType::Utf8, false);
             fields.push(FieldRef::new(name_field));
-            let value_field = Field::new(value_col.as_str(), value_type, false);
+            let value_field = Field::new(value_col.as_str(), value_type, true);
             fields.push(FieldRef::new(value_field));
 
             Arc::new(Schema::new(fields))
-- 
2.43.0


From c5915aea956a9bae4f877717b51c6ba313f0ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 046/106] verif hook: export PartitionExec under
 cfg(optiprism_verif)

---
 src/query/src/physical_plan/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/query/src/physical_plan/mod.rs b/src/query/src/physical_plan/mod.rs
index 05bf1cd..40a7d26 100644
--- a/src/query/src/physical_plan/mod.rs
+++ b/src/query/src/physical_plan/mod.rs
@@ -9,6 +9,8 @@ mod pivot;
 // mod partitioned_aggregate;
 // mod segmented_aggregate;
 mod partition;
+#[cfg(optiprism_verif)]
+pub use partition::PartitionExec;
 pub mod planner;
 mod segment;
 mod segmented_aggregate;
-- 
2.43.0


From 62659a16f8fe9ab7127d463dd7839778ac8bdbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 047/106] fix: compare exact averages in segments

---
 .../src/physical_plan/expressions/segmentation/aggregate.rs   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
index 6b17c86..1dee8f5 100644
--- a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
@@ -205,6 +205,10 @@ where
     fn check(&self, inner: &Inner<OT>) -> bool {
         match inner.agg {
             AggregateFunction::Count(_) => Op::perform(inner.agg.result(), self.right),
+            // the quotient itself may not be representable
+            AggregateFunction::Avg(sum, count) => {
+                !inner.is_empty && Op::perform(sum, self.right * count)
+            }
             _ => !inner.is_empty && Op::perform(inner.agg.result(), self.right),
         }
     }
-- 
2.43.0


From a8bcef97e48256f2a47ff654119af6bf0aa63d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 048/106] fix: describe the users of a segment the same in both
 plans

---
 src/query/src/logical_plan/segment.rs  | 7 ++++++-
 src/query/src/physical_plan/segment.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/query/src/logical_plan/segment.rs b/src/query/src/logical_plan/segment.rs
index 4e173b8..dc313be 100644
--- a/src/query/src/logical_plan/segment.rs
+++ b/src/query/src/logical_plan/segment.rs
@@ -97,7 +97,12 @@ pub struct SegmentNode {
 
 impl SegmentNode {
     pub fn try_new(input: LogicalPlan, expr: SegmentExpr, partition_col: Column) -> Result<Self> {
-        let field = input.schema().field_from_column(&partition_col)?.to_owned();
+        // users out of the segment are null
+        let field = input
+            .schema()
+            .field_from_column(&partition_col)?
+            .to_owned()
+            .with_nullable(true);
         let schema = DFSchema::from_unqualifed_fields(vec![field].into(), Default::default())?;
         Ok(Self {
             input,
diff --git a/src/query/src/physical_plan/segment.rs b/src/query/src/physical_plan/segment.rs
index cebe082..4000eda 100644
--- a/src/query/src/physical_plan/segment.rs
+++ b/src/query/src/physical_plan/segment.rs
@@ -51,7 +51,7 @@ impl SegmentExec {
         expr: Arc<dyn SegmentExpr>,
         partition_col: Column,
     ) -> Result<Self> {
-        let field = Field::new("partition", DataType::Int64, true);
+        let field = Field::new(partition_col.name(), DataType::Int64, true);
         let schema = Arc::new(Schema::new(vec![field]));
         let cache = Self::compute_properties(&input, schema.clone())?;
         Ok(Self {
-- 
2.43.0


From 38b4a5a6d32be711aa4f7fff27007a5f30d38823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 049/106] fix: describe the output of unpivot

---
 src/query/src/physical_plan/unpivot.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 0b4477c..9eaecf4 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -48,6 +48,7 @@ use datafusion::arrow::array::UInt32Array;
 use datafusion::arrow::array::UInt64Array;
 use datafusion::arrow::array::UInt8Array;
 use datafusion::execution::context::TaskContext;
+use datafusion::physical_expr::EquivalenceProperties;
 use datafusion::physical_plan::metrics::BaselineMetrics;
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::metrics::MetricsSet;
@@ -117,7 +118,7 @@ impl UnpivotExec {
             Arc::new(Schema::new(fields))
         };
 
-        let cache = Self::compute_properties(&input)?;
+        let cache = Self::compute_properties(&input, schema.clone())?;
         Ok(Self {
             input,
             schema,
@@ -129,8 +130,11 @@ impl UnpivotExec {
         })
     }
 
-    fn compute_properties(input: &Arc<dyn ExecutionPlan>) -> Result<PlanProperties> {
-        let eq_properties = input.equivalence_properties().clone();
+    fn compute_properties(
+        input: &Arc<dyn ExecutionPlan>,
+        schema: SchemaRef,
+    ) -> Result<PlanProperties> {
+        let eq_properties = EquivalenceProperties::new(schema);
 
         Ok(PlanProperties::new(
             eq_properties,
-- 
2.43.0


From 5f3b19e21b39f1ebb9a282a525554f3c52d6f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 050/106] fix: unpivot values under their own names

---
 src/query/src/physical_plan/unpivot.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 9eaecf4..287c9c0 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -441,12 +441,11 @@ pub fn unpivot(
     let value_type = DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE);
 
     // cast unpivot cols to value type
-    let unpivot_arrs: Vec<ArrayRef> = batch
-        .columns()
+    // in the order of their names
+    let unpivot_arrs: Vec<ArrayRef> = cols
         .iter()
-        .enumerate()
-        .filter(|(idx, _)| cols.contains(batch.schema().field(*idx).name()))
-        .map(|(_, arr)| match arr.data_type() {
+        .filter_map(|name| batch.column_by_name(name))
+        .map(|arr| match arr.data_type() {
             DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE) => arr.clone(),
             DataType::UInt64 => {
                 // first cast uint to int because Arrow 9.1.0 doesn't support casting from uint to decimal
-- 
2.43.0


From 2d78fdf6ee9c1f91e67b7bc462b2355f1a6fc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 051/106] fix: keep pivoted groups apart by their values

---
 src/query/src/physical_plan/pivot.rs | 36 ++++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/query/src/physical_plan/pivot.rs b/src/query/src/physical_plan/pivot.rs
index 477e15c..6cdeb50 100644
--- a/src/query/src/physical_plan/pivot.rs
+++ b/src/query/src/physical_plan/pivot.rs
@@ -5,7 +5,6 @@ use std::sync::Arc;
 use std::task::Context;
 use std::task::Poll;
 
-use ahash::RandomState;
 use arrow::array::Array;
 use arrow::array::ArrayRef;
 use arrow::array::StringArray;
@@ -19,7 +18,6 @@ use axum::async_trait;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::EquivalenceProperties;
 use datafusion::physical_plan::expressions::Column;
-use datafusion::physical_plan::hash_utils::create_hashes;
 use datafusion::physical_plan::metrics::BaselineMetrics;
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::metrics::MetricsSet;
@@ -205,8 +203,8 @@ struct PivotStream {
     name_col: Column,
     value_col: Column,
     value_type: DataType,
-    group_map: FnvHashMap<u64, u32>,
-    unique_groups: Vec<(u64, Vec<ScalarValue>)>,
+    group_map: FnvHashMap<Vec<ScalarValue>, u32>,
+    unique_groups: Vec<Vec<ScalarValue>>,
     result_map: FnvHashMap<String, Vec<ScalarValue>>,
     finished: bool,
     baseline_metrics: BaselineMetrics,
@@ -247,9 +245,6 @@ impl RecordBatchStream for PivotStream {
 
 impl PivotStream {
     fn pivot_batch(&mut self, batch: &RecordBatch) -> ArrowResult<()> {
-        let random_state = RandomState::with_seeds(0, 0, 0, 0);
-        let mut batch_hashes = vec![0; batch.num_rows()];
-
         let c = arrow::compute::cast(batch.column(self.name_col.index()), &DataType::Utf8)?;
         let name_arr = c
             .as_any()
@@ -262,17 +257,22 @@ impl PivotStream {
             .iter()
             .map(|col| batch.column(col.index()).clone())
             .collect();
-        create_hashes(&group_arrs, &random_state, &mut batch_hashes)?;
 
-        for (row, hash) in batch_hashes.into_iter().enumerate() {
-            let group_idx = *self.group_map.entry(hash).or_insert_with(|| {
-                let group_values = group_arrs
-                    .iter()
-                    .map(|arr| ScalarValue::try_from_array(arr, row).unwrap())
-                    .collect();
-                self.unique_groups.push((hash, group_values));
-                self.unique_groups.len() as u32 - 1
-            });
+        for row in 0..batch.num_rows() {
+            // hashes of different groups may collide
+            let group_values = group_arrs
+                .iter()
+                .map(|arr| ScalarValue::try_from_array(arr, row))
+                .collect::<DFResult<Vec<_>>>()?;
+            let group_idx = match self.group_map.get(&group_values) {
+                Some(group_idx) => *group_idx,
+                None => {
+                    let group_idx = self.unique_groups.len() as u32;
+                    self.unique_groups.push(group_values.clone());
+                    self.group_map.insert(group_values, group_idx);
+                    group_idx
+                }
+            };
 
             let group_idx = group_idx as usize;
             let col_name = name_arr.value(row);
@@ -312,7 +312,7 @@ impl PivotStream {
                 let scalars: Vec<ScalarValue> = self
                     .unique_groups
                     .iter()
-                    .map(|(_, values)| values[idx].to_owned())
+                    .map(|values| values[idx].to_owned())
                     .collect();
                 ScalarValue::iter_to_array(scalars)
             })
-- 
2.43.0


From 853233836d775d678e9cdb310f1625233e666a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 052/106] fix: evaluate a segment once for all the partitions

---
 src/query/src/physical_plan/segmented_aggregate.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index 5e2bb9f..4b869ab 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -244,11 +244,13 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
 
     fn required_input_distribution(&self) -> Vec<Distribution> {
         // todo make it configurable, don't use project_id and user_id entities
-        // averages of partitions can't be combined into the average of the whole
-        if self
-            .agg_expr
-            .iter()
-            .any(|(agg, _)| agg.lock().unwrap().op() == "avg")
+        // averages of partitions can't be combined into the average of the whole and a segment
+        // can be evaluated only once
+        if self.segment_inputs.is_some()
+            || self
+                .agg_expr
+                .iter()
+                .any(|(agg, _)| agg.lock().unwrap().op() == "avg")
         {
             return vec![Distribution::SinglePartition];
         }
-- 
2.43.0


From ee754bf0de7ba8b0ca2bc7a554bf17d6af159f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 053/106] fix: filter values by plain comparison

Negative filters with several values kept a row that differs from any of them,
a string that is not in the dictionary failed the query, and equality after a
pattern filter compared strings with dictionary codes.
---
 src/query/src/event_records.rs      |   4 +-
 src/query/src/event_segmentation.rs |  20 ++--
 src/query/src/expr.rs               | 142 ++++++++++++++--------------
 src/query/src/funnel.rs             |  10 +-
 src/query/src/group_records.rs      |   2 +-
 src/query/src/lib.rs                |   3 +-
 src/query/src/properties.rs         |   3 +-
 7 files changed, 94 insertions(+), 90 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index da18973..4368407 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -282,14 +282,14 @@ pub fn build_search_plan(
         let mut exprs = vec![];
         for event in events {
             // event expression
-            let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema().as_ref(), &event.event)?;
             // apply event filters
             if let Some(filters) = &event.filters
                 && !filters.is_empty()
             {
                 expr = and(
                     expr.clone(),
-                    event_filters_expression(&ctx, &metadata, filters)?,
+                    event_filters_expression(&ctx, &metadata, input.schema().as_ref(), filters)?,
                 )
             }
 
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 127c8ea..6ea5693 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -21,6 +21,7 @@ use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
 use datafusion::functions::datetime::date_trunc::DateTruncFunc;
 use datafusion_common::Column;
+use datafusion_common::DFSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
@@ -264,7 +265,11 @@ impl LogicalPlanBuilder {
                 for conditions in segment.conditions {
                     let mut and: Option<SegmentExpr> = None;
                     for condition in conditions {
-                        let expr = builder.build_segment_condition(&condition, es.group_id)?;
+                        let expr = builder.build_segment_condition(
+                            &condition,
+                            es.group_id,
+                            input.schema().as_ref(),
+                        )?;
                         and = match and {
                             None => Some(expr),
                             Some(e) => Some(SegmentExpr::And(Box::new(e), Box::new(expr))),
@@ -457,6 +462,7 @@ impl LogicalPlanBuilder {
         &self,
         condition: &SegmentCondition,
         group_id: usize,
+        schema: &DFSchema,
     ) -> Result<SegmentExpr> {
         let expr = match condition {
             SegmentCondition::HasPropertyValue { .. } => unimplemented!(),
@@ -469,6 +475,7 @@ impl LogicalPlanBuilder {
                 let filter = property_expression(
                     &self.ctx,
                     &self.metadata,
+                    schema,
                     TABLE_EVENTS,
                     property,
                     operation,
@@ -491,12 +498,12 @@ impl LogicalPlanBuilder {
                 aggregate,
             } => {
                 // event expression
-                let mut event_expr = event_expression(&self.ctx, &self.metadata, event)?;
+                let mut event_expr = event_expression(&self.ctx, &self.metadata, schema, event)?;
                 // apply event filters
                 if let Some(filters) = &filters {
                     event_expr = and(
                         event_expr.clone(),
-                        event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                        event_filters_expression(&self.ctx, &self.metadata, schema, filters)?,
                     )
                 }
                 match aggregate {
@@ -734,6 +741,7 @@ impl LogicalPlanBuilder {
     /// builds filter plan
     fn build_filter_logical_plan(&self, input: LogicalPlan, event: &Event) -> Result<LogicalPlan> {
         let cur_time = self.ctx.cur_time;
+        let schema = input.schema().as_ref();
         // todo add project_id filtering
         let mut expr = binary_expr(
             col(COLUMN_PROJECT_ID),
@@ -748,13 +756,13 @@ impl LogicalPlanBuilder {
         // event expression
         expr = and(
             expr,
-            event_expression(&self.ctx, &self.metadata, &event.event)?,
+            event_expression(&self.ctx, &self.metadata, schema, &event.event)?,
         );
         // apply event filters
         if let Some(filters) = &event.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, schema, filters)?,
             )
         }
 
@@ -762,7 +770,7 @@ impl LogicalPlanBuilder {
         if let Some(filters) = &self.es.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, schema, filters)?,
             );
         }
 
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d7c78e2..12942ce 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -25,6 +25,7 @@ use datafusion_expr::ExprSchemable;
 use datafusion_expr::Operator;
 use metadata::dictionaries::Dictionaries;
 use metadata::properties::DictionaryType;
+use metadata::error::MetadataError;
 use metadata::MetadataProvider;
 
 use crate::error::QueryError;
@@ -57,9 +58,10 @@ pub fn time_expression<S: ExprSchema>(
 }
 
 /// builds expression for event
-pub fn event_expression(
+pub fn event_expression<S: ExprSchema>(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &S,
     event: &EventRef,
 ) -> Result<Expr> {
     Ok(match &event {
@@ -84,20 +86,20 @@ pub fn event_expression(
             for event in e.events.iter() {
                 let mut expr = match &event.event {
                     EventRef::RegularName(name) => {
-                        event_expression(ctx, metadata, &EventRef::RegularName(name.to_owned()))?
+                        event_expression(ctx, metadata, schema, &EventRef::RegularName(name.to_owned()))?
                     }
                     EventRef::Regular(id) => {
-                        event_expression(ctx, metadata, &EventRef::Regular(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Regular(*id))?
                     }
                     EventRef::Custom(id) => {
-                        event_expression(ctx, metadata, &EventRef::Custom(*id))?
+                        event_expression(ctx, metadata, schema, &EventRef::Custom(*id))?
                     }
                 };
 
                 if let Some(filters) = &event.filters {
                     expr = and(
                         expr.clone(),
-                        event_filters_expression(ctx, metadata, filters)?,
+                        event_filters_expression(ctx, metadata, schema, filters)?,
                     );
                 }
 
@@ -115,9 +117,10 @@ pub fn event_expression(
 }
 
 /// builds event filters expression
-pub fn event_filters_expression(
+pub fn event_filters_expression<S: ExprSchema>(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
+    schema: &S,
     filters: &[PropValueFilter],
 ) -> Result<Expr> {
     // iterate over filters
@@ -136,7 +139,15 @@ pub fn event_filters_expression(
                         PropertyRef::Event(_) => TABLE_EVENTS.to_string(),
                         PropertyRef::Custom(_) => unimplemented!(),
                     };
-                    property_expression(ctx, metadata, &tbl, property, operation, value.clone())
+                    property_expression(
+                        ctx,
+                        metadata,
+                        schema,
+                        &tbl,
+                        property,
+                        operation,
+                        value.clone(),
+                    )
                 }
             }
         })
@@ -177,8 +188,17 @@ pub fn encode_property_dict_values(
     for value in values.iter() {
         if let ScalarValue::Utf8(inner) = value {
             if let Some(str_value) = inner {
-                let key =
-                    dictionaries.get_key(ctx.project_id, tbl, col_name, str_value.as_str())?;
+                let key = match dictionaries.get_key(
+                    ctx.project_id,
+                    tbl,
+                    col_name,
+                    str_value.as_str(),
+                ) {
+                    Ok(key) => key,
+                    // no row has a value that is not in the dictionary
+                    Err(MetadataError::NotFound(_)) => continue,
+                    Err(err) => return Err(err.into()),
+                };
 
                 let scalar_value = match dict_type {
                     DictionaryType::Int8 => ScalarValue::Int8(Some(key as i8)),
@@ -203,8 +223,9 @@ pub fn encode_property_dict_values(
     Ok(ret)
 }
 
-fn prop_expression(
+fn prop_expression<S: ExprSchema>(
     ctx: &Context,
+    schema: &S,
     tbl: &str,
     prop: &Arc<metadata::properties::Properties>,
     dicts: &Arc<metadata::dictionaries::Dictionaries>,
@@ -230,7 +251,11 @@ fn prop_expression(
         _ => {}
     }
 
-    if let Some(dict_type) = prop.dictionary_type {
+    // the column holds strings if it has been decoded for another filter
+    let is_decoded = col.get_type(schema)? == DataType::Utf8;
+    if let Some(dict_type) = prop.dictionary_type
+        && !is_decoded
+    {
         let dict_values = encode_property_dict_values(
             ctx,
             tbl,
@@ -246,9 +271,10 @@ fn prop_expression(
 }
 
 /// builds name [property] [operation] [value] expression
-pub fn property_expression(
+pub fn property_expression<S: ExprSchema>(
     ctx: &Context,
     md: &Arc<MetadataProvider>,
+    schema: &S,
     tbl: &str,
     property: &PropertyRef,
     operation: &PropValueOperation,
@@ -257,6 +283,7 @@ pub fn property_expression(
     match property {
         PropertyRef::Group(prop_name, group) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.group_properties[*group],
             &md.dictionaries,
@@ -266,6 +293,7 @@ pub fn property_expression(
         ),
         PropertyRef::Event(prop_name) => prop_expression(
             ctx,
+            schema,
             tbl,
             &md.event_properties,
             &md.dictionaries,
@@ -308,77 +336,45 @@ pub fn named_property_expression(
         | PropValueOperation::Gte
         | PropValueOperation::Lt
         | PropValueOperation::Lte
+        | PropValueOperation::Like
+        | PropValueOperation::NotLike
         | PropValueOperation::Regex
         | PropValueOperation::NotRegex => {
-            // expressions for OR
-            let values_vec = values.ok_or_else(|| {
-                QueryError::Plan(format!(
-                    "value should be defined for \"{operation:?}\" operation"
-                ))
-            })?;
-
-            Ok(match values_vec.len() {
-                1 => binary_expr(
-                    prop_col,
-                    operation.to_owned().try_into()?,
-                    lit(values_vec[0].to_owned()),
-                ),
-                _ => {
-                    // iterate over all possible values
-                    let exprs = values_vec
-                        .iter()
-                        .map(|v| {
-                            binary_expr(
-                                prop_col.clone(),
-                                operation.clone().try_into().unwrap(),
-                                lit(v.to_owned()),
-                            )
-                        })
-                        .collect();
-
-                    multi_or(exprs)
-                }
-            })
-        }
-        PropValueOperation::Like => {
-            // expressions for OR
             let values_vec = values.ok_or_else(|| {
                 QueryError::Plan(format!(
                     "value should be defined for \"{operation:?}\" operation"
                 ))
             })?;
 
-            Ok(match values_vec.len() {
-                1 => prop_col.like(lit(values_vec[0].to_owned())),
-                _ => {
-                    // iterate over all possible values
-                    let exprs = values_vec
-                        .iter()
-                        .map(|v| prop_col.to_owned().like(lit(v.to_owned())))
-                        .collect();
-
-                    multi_or(exprs)
+            // iterate over all possible values
+            let exprs = values_vec
+                .into_iter()
+                .map(|v| {
+                    Ok(match operation {
+                        PropValueOperation::Like => prop_col.clone().like(lit(v)),
+                        PropValueOperation::NotLike => prop_col.clone().not_like(lit(v)),
+                        _ => binary_expr(prop_col.clone(), operation.to_owned().try_into()?, lit(v)),
+                    })
+                })
+                .collect::<Result<Vec<_>>>()?;
+
+            Ok(match operation {
+                // the value must differ from each of the given ones
+                PropValueOperation::Neq
+                | PropValueOperation::NotLike
+                | PropValueOperation::NotRegex => {
+                    if exprs.is_empty() {
+                        prop_col.is_not_null()
+                    } else {
+                        multi_and(exprs)
+                    }
                 }
-            })
-        }
-        PropValueOperation::NotLike => {
-            // expressions for OR
-            let values_vec = values.ok_or_else(|| {
-                QueryError::Plan(format!(
-                    "value should be defined for \"{operation:?}\" operation"
-                ))
-            })?;
-
-            Ok(match values_vec.len() {
-                1 => prop_col.not_like(lit(values_vec[0].to_owned())),
                 _ => {
-                    // iterate over all possible values
-                    let exprs = values_vec
-                        .iter()
-                        .map(|v| prop_col.to_owned().not_like(lit(v.to_owned())))
-                        .collect();
-
-                    multi_or(exprs)
+                    if exprs.is_empty() {
+                        lit(false)
+                    } else {
+                        multi_or(exprs)
+                    }
                 }
             })
         }
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4a1bf68..eb89c48 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -259,7 +259,7 @@ pub fn build(
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
     if let Some(filters) = &req.filters {
-        expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
+        expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema().as_ref(), filters)?)
     }
     let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
 
@@ -273,9 +273,9 @@ pub fn build(
         for step in req.steps.iter() {
             let mut exprs = vec![];
             for event in step.events.iter() {
-                let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+                let mut expr = event_expression(&ctx, &metadata, input.schema().as_ref(), &event.event)?;
                 if let Some(filters) = &event.filters {
-                    expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                    expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema().as_ref(), filters)?);
                 }
                 exprs.push(expr)
             }
@@ -293,9 +293,9 @@ pub fn build(
     let exclude = if let Some(excludes) = &req.exclude {
         let mut out = vec![];
         for exclude in excludes {
-            let mut expr = event_expression(&ctx, &metadata, &exclude.event)?;
+            let mut expr = event_expression(&ctx, &metadata, input.schema().as_ref(), &exclude.event)?;
             if let Some(filters) = &exclude.filters {
-                expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                expr = and(expr, event_filters_expression(&ctx, &metadata, input.schema().as_ref(), filters)?);
             }
             let steps = if let Some(steps) = &exclude.steps {
                 let steps = match steps {
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3cacf3e..5e91f8d 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -265,7 +265,7 @@ pub fn build_search_plan(
     }
 
     if let Some(filters) = &req.filters {
-        let expr = event_filters_expression(&ctx, &metadata, filters)?;
+        let expr = event_filters_expression(&ctx, &metadata, input.schema().as_ref(), filters)?;
         filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
     }
 
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6564a0a..b2f603c 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -488,11 +488,10 @@ pub fn decode_filter_single_dictionary(
                     metadata.dictionaries.clone(),
                 );
                 let col = datafusion_common::Column::from_name(col_name);
-                decode_cols.push((col, Arc::new(dict)));
-
                 if cols_hash.contains_key(prop.column_name().as_str()) {
                     return Ok(());
                 }
+                decode_cols.push((col, Arc::new(dict)));
                 cols_hash.insert(prop.column_name(), ());
             }
             _ => {}
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index c252562..4b22f66 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -129,7 +129,7 @@ impl LogicalPlanBuilder {
         );
 
         if let Some(event) = &req.event {
-            expr = and(expr, event_expression(&ctx, &metadata, event)?);
+            expr = and(expr, event_expression(&ctx, &metadata, input.schema().as_ref(), event)?);
         }
 
         let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
@@ -166,6 +166,7 @@ impl LogicalPlanBuilder {
                 property_expression(
                     &ctx,
                     &metadata,
+                    input.schema().as_ref(),
                     TABLE_EVENTS,
                     &req.property,
                     &filter.operation,
-- 
2.43.0


From 2e1b79b0cd72701a70a47b1d72e70ecb65348b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 054/106] fix: take the filters of a custom event into account

The columns its events are filtered by were neither read nor decoded.
---
 src/query/src/event_records.rs      | 28 +++++++++------
 src/query/src/event_segmentation.rs | 34 +++++++++---------
 src/query/src/funnel.rs             | 53 +++++++++++++++++------------
 src/query/src/lib.rs                | 23 +++++++++++++
 src/query/src/properties.rs         | 52 +++++++++++++++++++++++++---
 5 files changed, 137 insertions(+), 53 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 4368407..6cc106b 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -53,6 +53,7 @@ use tracing::debug;
 
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::event_filters;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -503,16 +504,14 @@ fn decode_filter_dictionaries(
 
     if let Some(events) = events {
         for event in events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
+                decode_filter_single_dictionary(
+                    ctx,
+                    metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
     }
@@ -542,6 +541,15 @@ fn projection(
         COLUMN_CREATED_AT.to_string(),
         COLUMN_EVENT_ID.to_string(),
     ];
+    for event in req.events.iter().flatten() {
+        for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
+                }
+            }
+        }
+    }
     if let Some(filters) = &req.filters {
         for filter in filters {
             match filter {
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 6ea5693..756e21f 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -47,6 +47,7 @@ use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::context::Format;
 use crate::decode_filter_single_dictionary;
+use crate::event_filters;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -177,12 +178,10 @@ fn projection(
     ];
 
     for event in &req.events {
-        if let Some(filters) = &event.filters {
-            for filter in filters {
-                match filter {
-                    PropValueFilter::Property { property, .. } => {
-                        fields.push(col_name(ctx, property, md)?)
-                    }
+        for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
                 }
             }
         }
@@ -559,16 +558,19 @@ impl LogicalPlanBuilder {
         let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
         for event in &self.es.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        &self.ctx,
-                        &self.metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in event_filters(
+                &self.ctx,
+                &self.metadata,
+                &event.event,
+                event.filters.as_ref(),
+            )? {
+                decode_filter_single_dictionary(
+                    &self.ctx,
+                    &self.metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
 
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index eb89c48..d184b45 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -49,6 +49,7 @@ use tracing::debug;
 use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::event_filters;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -436,16 +437,28 @@ fn decode_filter_dictionaries(
 
     for step in &funnel.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
+                decode_filter_single_dictionary(
+                    ctx,
+                    metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
+            }
+        }
+    }
+
+    if let Some(excludes) = &funnel.exclude {
+        for exclude in excludes {
+            for filter in event_filters(ctx, metadata, &exclude.event, exclude.filters.as_ref())? {
+                decode_filter_single_dictionary(
+                    ctx,
+                    metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
     }
@@ -499,12 +512,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     for step in &req.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+                match filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, &property, md)?)
                     }
                 }
             }
@@ -519,12 +530,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     if let Some(exclude) = &req.exclude {
         for e in exclude {
-            if let Some(filters) = &e.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in event_filters(ctx, md, &e.event, e.filters.as_ref())? {
+                match filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, &property, md)?)
                     }
                 }
             }
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index b2f603c..1464314 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -51,6 +51,7 @@ use arrow::datatypes::SchemaRef;
 use arrow::datatypes::TimeUnit;
 use arrow2::array::Int128Array;
 use common::group_col;
+use common::query::EventRef;
 use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
@@ -501,6 +502,28 @@ pub fn decode_filter_single_dictionary(
     Ok(())
 }
 
+/// Filters an event depends on: the given ones and, for a custom event, those of its events.
+pub fn event_filters(
+    ctx: &Context,
+    md: &Arc<MetadataProvider>,
+    event: &EventRef,
+    filters: Option<&Vec<PropValueFilter>>,
+) -> Result<Vec<PropValueFilter>> {
+    let mut out = filters.cloned().unwrap_or_default();
+    if let EventRef::Custom(id) = event {
+        for event in md.custom_events.get_by_id(ctx.project_id, *id)?.events {
+            out.append(&mut event_filters(
+                ctx,
+                md,
+                &event.event,
+                event.filters.as_ref(),
+            )?);
+        }
+    }
+
+    Ok(out)
+}
+
 fn segment_projection(
     ctx: &Context,
     segments: &Vec<Segment>,
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 4b22f66..bb2af56 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -5,6 +5,7 @@ use std::time::Instant;
 use arrow::array::ArrayRef;
 use common::group_col;
 use common::query::EventRef;
+use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
 use common::types::COLUMN_EVENT;
@@ -37,6 +38,8 @@ use storage::db::OptiDBImpl;
 use tracing::debug;
 
 use crate::col_name;
+use crate::decode_filter_single_dictionary;
+use crate::event_filters;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -84,7 +87,7 @@ impl PropertiesProvider {
 pub struct LogicalPlanBuilder {}
 
 macro_rules! property_col {
-    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr) => {{
+    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr,$cols_hash:expr) => {{
         let col_name = $prop.column_name();
         let expr = col(col_name.as_str());
         let _aggr_schema = DFSchema::new_with_metadata(
@@ -95,7 +98,7 @@ macro_rules! property_col {
         let input = LogicalPlan::Aggregate(agg_fn);
 
         match $prop.dictionary_type {
-            Some(_) => {
+            Some(_) if !$cols_hash.contains_key(&col_name) => {
                 let dict = SingleDictionaryProvider::new(
                     $ctx.project_id,
                     $tbl,
@@ -110,7 +113,7 @@ macro_rules! property_col {
                     )])?),
                 })
             }
-            None => input,
+            _ => input,
         }
     }};
 }
@@ -122,6 +125,14 @@ impl LogicalPlanBuilder {
         input: LogicalPlan,
         req: PropertyValues,
     ) -> Result<LogicalPlan> {
+        let mut cols_hash: HashMap<String, ()> = HashMap::new();
+        let input = decode_filter_dictionaries(
+            &ctx,
+            &metadata,
+            req.event.as_ref(),
+            input,
+            &mut cols_hash,
+        )?;
         let mut expr = binary_expr(
             col(COLUMN_PROJECT_ID),
             Operator::Eq,
@@ -140,7 +151,7 @@ impl LogicalPlanBuilder {
                     metadata.group_properties[*group].get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, group_col(*group), input, prop),
+                    property_col!(ctx, metadata, group_col(*group), input, prop, cols_hash),
                     col_name,
                 )
             }
@@ -150,7 +161,7 @@ impl LogicalPlanBuilder {
                     .get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, TABLE_EVENTS.to_string(), input, prop),
+                    property_col!(ctx, metadata, TABLE_EVENTS.to_string(), input, prop, cols_hash),
                     col_name,
                 )
             }
@@ -196,6 +207,28 @@ impl LogicalPlanBuilder {
     }
 }
 
+fn decode_filter_dictionaries(
+    ctx: &Context,
+    metadata: &Arc<MetadataProvider>,
+    event: Option<&EventRef>,
+    input: LogicalPlan,
+    cols_hash: &mut HashMap<String, ()>,
+) -> Result<LogicalPlan> {
+    let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
+    if let Some(event) = event {
+        for filter in event_filters(ctx, metadata, event, None)? {
+            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, &filter)?;
+        }
+    }
+    if decode_cols.is_empty() {
+        return Ok(input);
+    }
+
+    Ok(LogicalPlan::Extension(Extension {
+        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
+    }))
+}
+
 #[derive(Clone, Debug)]
 pub struct Filter {
     pub operation: PropValueOperation,
@@ -215,6 +248,15 @@ fn projection(
     md: &Arc<MetadataProvider>,
 ) -> Result<Vec<String>> {
     let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
+    if let Some(event) = &req.event {
+        for filter in event_filters(ctx, md, event, None)? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
+                }
+            }
+        }
+    }
     fields.push(col_name(ctx, &req.property, md)?);
     fields.dedup();
     Ok(fields)
-- 
2.43.0


From 70cd28faa76c54e54255d73ce4c67f5fa01a5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 055/106] fix: query rows of the requested project only

Funnels counted the events of all projects, segments saw them, and filters
were decoded with the dictionary of one project for the rows of all.
---
 src/query/src/event_records.rs      |  4 ++--
 src/query/src/event_segmentation.rs |  2 +-
 src/query/src/funnel.rs             |  2 +-
 src/query/src/group_records.rs      |  4 ++--
 src/query/src/lib.rs                | 17 +++++++++++++++++
 src/query/src/properties.rs         |  2 +-
 6 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 6cc106b..93cf6f7 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -87,7 +87,7 @@ impl EventRecordsProvider {
         let projection = (0..schema.fields.len()).collect::<Vec<_>>();
 
         let (session_ctx, state, plan) =
-            initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
+            initial_plan(&ctx, &self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, id)?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
@@ -186,7 +186,7 @@ impl EventRecordsProvider {
         proj.sort();
         proj.dedup();
         // todo make tests for schema evolution: add property here. Move initial plan behind build_search_plan
-        let (session_ctx, state, plan) = initial_plan(&self.db, TABLE_EVENTS.to_string(), proj)?;
+        let (session_ctx, state, plan) = initial_plan(&ctx, &self.db, TABLE_EVENTS.to_string(), proj)?;
         let (plan, props) = build_search_plan(ctx, self.metadata.clone(), plan, req.clone())?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 756e21f..8135086 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -108,7 +108,7 @@ impl EventSegmentationProvider {
             .map(|x| schema.index_of(x).unwrap())
             .collect();
         let (session_ctx, state, plan) =
-            initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
+            initial_plan(&ctx, &self.db, TABLE_EVENTS.to_string(), projection)?;
         let _segment_plan = if let Some(segments) = &req.segments {
             let segment_projection =
                 segment_projection(&ctx, segments, req.group_id, &self.metadata)?;
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index d184b45..54e9d20 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -86,7 +86,7 @@ impl FunnelProvider {
             .collect();
 
         let (session_ctx, state, plan) =
-            initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
+            initial_plan(&ctx, &self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = build(ctx.clone(), self.metadata.clone(), plan, req.clone())?;
 
         println!("{plan:?}");
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 5e91f8d..66586b2 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -86,7 +86,7 @@ impl GroupRecordsProvider {
         let schema = self.db.schema1(&group_col(group_id))?;
         let projection = (0..schema.fields.len()).collect::<Vec<_>>();
 
-        let (session_ctx, state, plan) = initial_plan(&self.db, group_col(group_id), projection)?;
+        let (session_ctx, state, plan) = initial_plan(&ctx, &self.db, group_col(group_id), projection)?;
         let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id)?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
@@ -181,7 +181,7 @@ impl GroupRecordsProvider {
         projection.sort();
         projection.dedup();
         let (session_ctx, state, plan) =
-            initial_plan(&self.db, group_col(req.group_id), projection)?;
+            initial_plan(&ctx, &self.db, group_col(req.group_id), projection)?;
         let (plan, props) = build_search_plan(ctx, self.metadata.clone(), plan, req.clone())?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 1464314..6440c6e 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -70,8 +70,13 @@ use datafusion::physical_plan::display::DisplayableExecutionPlan;
 use datafusion::prelude::SessionConfig;
 use datafusion::prelude::SessionContext;
 use datafusion_common::ScalarValue;
+use datafusion_expr::binary_expr;
+use datafusion_expr::col;
+use datafusion_expr::lit;
 use datafusion_expr::Extension;
+use datafusion_expr::Filter;
 use datafusion_expr::LogicalPlan;
+use datafusion_expr::Operator;
 pub use error::Result;
 use metadata::dictionaries::SingleDictionaryProvider;
 use metadata::MetadataProvider;
@@ -391,7 +396,10 @@ pub struct PropertyAndValue {
     pub value: ScalarValue,
 }
 
+/// Scans the rows of the project. Nothing else in a plan may see rows of other projects: neither
+/// results nor dictionaries of one project are meaningful for another.
 pub fn initial_plan(
+    ctx: &Context,
     db: &Arc<OptiDBImpl>,
     table: String,
     projection: Vec<usize>,
@@ -412,6 +420,15 @@ pub fn initial_plan(
         )?),
     });
 
+    let plan = LogicalPlan::Filter(Filter::try_new(
+        binary_expr(
+            col(COLUMN_PROJECT_ID),
+            Operator::Eq,
+            lit(ScalarValue::from(ctx.project_id as i64)),
+        ),
+        Arc::new(plan),
+    )?);
+
     Ok((exec_ctx, state, plan))
 }
 
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index bb2af56..689e48f 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -68,7 +68,7 @@ impl PropertiesProvider {
             .map(|x| schema.index_of(x).unwrap())
             .collect();
         let (session_ctx, state, plan) =
-            initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
+            initial_plan(&ctx, &self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = LogicalPlanBuilder::build(ctx, self.metadata.clone(), plan, req.clone())?;
 
         let res = execute(session_ctx, state, plan).await?;
-- 
2.43.0


From 3a89d691a20111199af2a796b91a83a03ae14dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 056/106] fix: search events by all the given conditions

Filters on all events were ignored, an event without filters of its own matched
nothing, and columns stood under the names of other properties.
---
 src/query/src/event_records.rs | 129 ++++++++++++++-------------------
 1 file changed, 55 insertions(+), 74 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 93cf6f7..8c7bb6a 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -227,37 +227,46 @@ pub fn build_search_plan(
     input: LogicalPlan,
     req: EventRecordsSearchRequest,
 ) -> Result<(LogicalPlan, Vec<Property>)> {
-    let mut properties = vec![];
-    let mut exprs = vec![];
-    if let Some(props) = &req.properties {
-        let mut prop_names = vec![];
-
-        for prop in props {
-            let p = match prop {
-                PropertyRef::Group(n, group_id) => {
-                    metadata.group_properties[*group_id].get_by_name(ctx.project_id, n.as_ref())?
-                }
-                PropertyRef::Event(n) => metadata
-                    .event_properties
-                    .get_by_name(ctx.project_id, n.as_ref())?,
-                _ => {
-                    return Err(QueryError::Unimplemented(
-                        "invalid property type".to_string(),
-                    ));
-                }
-            };
-            if prop_names.contains(&p.column_name()) {
-                continue;
-            }
-            prop_names.push(p.column_name());
-            properties.push(p.clone());
-            exprs.push(col(Column {
-                relation: None,
-                name: p.column_name(),
-            }));
+    let props = if let Some(props) = &req.properties {
+        props
+            .iter()
+            .map(|prop| {
+                Ok(match prop {
+                    PropertyRef::Group(n, group_id) => metadata.group_properties[*group_id]
+                        .get_by_name(ctx.project_id, n.as_ref())?,
+                    PropertyRef::Event(n) => metadata
+                        .event_properties
+                        .get_by_name(ctx.project_id, n.as_ref())?,
+                    _ => {
+                        return Err(QueryError::Unimplemented(
+                            "invalid property type".to_string(),
+                        ));
+                    }
+                })
+            })
+            .collect::<Result<Vec<_>>>()?
+    } else {
+        // all properties of the project
+        let mut props = metadata.event_properties.list(ctx.project_id)?.data;
+        for g in 0..GROUPS_COUNT {
+            props.append(&mut metadata.group_properties[g].list(ctx.project_id)?.data);
         }
+        props
     };
 
+    let mut properties: Vec<Property> = vec![];
+    let mut exprs = vec![];
+    for prop in props {
+        if properties
+            .iter()
+            .any(|p| p.column_name() == prop.column_name())
+        {
+            continue;
+        }
+        exprs.push(col(Column::from_name(prop.column_name())));
+        properties.push(prop);
+    }
+
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = decode_filter_dictionaries(
         &ctx,
@@ -299,30 +308,22 @@ pub fn build_search_plan(
         filter_exprs.push(multi_or(exprs))
     }
 
+    if let Some(filters) = &req.filters
+        && !filters.is_empty()
+    {
+        filter_exprs.push(event_filters_expression(
+            &ctx,
+            &metadata,
+            input.schema().as_ref(),
+            filters,
+        )?);
+    }
+
     let input = LogicalPlan::Filter(PlanFilter::try_new(
         multi_and(filter_exprs),
         Arc::new(input),
     )?);
 
-    let input = if exprs.is_empty() {
-        input
-    } else {
-        if !exprs.iter().any(|v| match v {
-            Expr::Column(c) => c.name == *COLUMN_EVENT_ID,
-            _ => unreachable!(),
-        }) {
-            exprs = [
-                vec![col(Column {
-                    relation: None,
-                    name: COLUMN_EVENT_ID.to_string(),
-                })],
-                exprs.to_vec(),
-            ]
-            .concat();
-        }
-        LogicalPlan::Projection(Projection::try_new(exprs.clone(), Arc::new(input))?)
-    };
-
     let input = {
         let s = Expr::Sort(expr::Sort {
             expr: Box::new(col(COLUMN_EVENT_ID)),
@@ -337,26 +338,13 @@ pub fn build_search_plan(
         })
     };
 
-    let input = if exprs.is_empty() {
-        input
-    } else {
-        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
-    };
+    let input = LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?);
     let input = LogicalPlan::Limit(Limit {
         skip: 0,
         fetch: Some(100),
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.event_properties.list(ctx.project_id)?.data;
-        properties.append(&mut (l));
-        for g in 0..GROUPS_COUNT {
-            let mut l = metadata.group_properties[g].list(ctx.project_id)?.data;
-            properties.append(&mut (l));
-        }
-    }
-
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
@@ -584,20 +572,13 @@ pub fn fix_search_request(
         let mut oe = vec![];
         for event in events.iter() {
             let mut of = vec![];
-            if let Some(filters) = &event.filters {
-                if filters.is_empty() {
-                } else {
-                    for filter in filters.iter() {
-                        let f = fix_filter(md, project_id, filter)?;
-                        of.push(f);
-                    }
-                }
-                let e = Event {
-                    event: event.event.clone(),
-                    filters: if of.is_empty() { None } else { Some(of) },
-                };
-                oe.push(e);
+            for filter in event.filters.iter().flatten() {
+                of.push(fix_filter(md, project_id, filter)?);
             }
+            oe.push(Event {
+                event: event.event.clone(),
+                filters: if of.is_empty() { None } else { Some(of) },
+            });
         }
         out.events = Some(oe);
     }
-- 
2.43.0


From 30068d29e5c58933f959d5d66427af1b9c6d469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 057/106] fix: search groups by all the given conditions

---
 src/query/src/group_records.rs | 103 +++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 45 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 66586b2..80c4eae 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -27,7 +27,6 @@ use common::DECIMAL_PRECISION;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
-use datafusion_expr::and;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::expr;
@@ -223,36 +222,42 @@ pub fn build_search_plan(
     input: LogicalPlan,
     req: GroupRecordsSearchRequest,
 ) -> Result<(LogicalPlan, Vec<Property>)> {
-    let mut properties = vec![];
-    let mut exprs = vec![];
-    if let Some(props) = &req.properties {
-        let mut prop_names = vec![];
+    let props = if let Some(props) = &req.properties {
+        props
+            .iter()
+            .map(|prop| {
+                Ok(match prop {
+                    PropertyRef::Group(n, group_id) => metadata.group_properties[*group_id]
+                        .get_by_name(ctx.project_id, n.as_ref())?,
+                    _ => {
+                        return Err(QueryError::Unimplemented(
+                            "invalid property type".to_string(),
+                        ));
+                    }
+                })
+            })
+            .collect::<Result<Vec<_>>>()?
+    } else {
+        metadata.group_properties[req.group_id]
+            .list(ctx.project_id)?
+            .data
+    };
 
-        for prop in props {
-            let p = match prop {
-                PropertyRef::Group(n, group_id) => {
-                    metadata.group_properties[*group_id].get_by_name(ctx.project_id, n.as_ref())?
-                }
-                _ => {
-                    return Err(QueryError::Unimplemented(
-                        "invalid property type".to_string(),
-                    ));
-                }
-            };
-            if prop_names.contains(&p.column_name()) {
-                continue;
-            }
-            prop_names.push(p.column_name());
-            properties.push(p.clone());
-            exprs.push(col(Column {
-                relation: None,
-                name: p.column_name(),
-            }));
+    let mut properties: Vec<Property> = vec![];
+    let mut exprs = vec![];
+    for prop in props {
+        if properties
+            .iter()
+            .any(|p| p.column_name() == prop.column_name())
+        {
+            continue;
         }
-    };
+        exprs.push(col(Column::from_name(prop.column_name())));
+        properties.push(prop);
+    }
+
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
-    let input =
-        decode_filter_dictionaries(&ctx, &metadata, req.filters.as_ref(), input, &mut cols_hash)?;
+    let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
     let mut filter_exprs = vec![binary_expr(
         col(GROUP_COLUMN_PROJECT_ID),
         Operator::Eq,
@@ -266,7 +271,7 @@ pub fn build_search_plan(
 
     if let Some(filters) = &req.filters {
         let expr = event_filters_expression(&ctx, &metadata, input.schema().as_ref(), filters)?;
-        filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
+        filter_exprs.push(expr);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
@@ -274,12 +279,6 @@ pub fn build_search_plan(
         Arc::new(input),
     )?);
 
-    let input = if exprs.is_empty() {
-        input
-    } else {
-        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
-    };
-
     let input = if let Some((prop, sort)) = &req.sort {
         let s = Expr::Sort(expr::Sort {
             expr: Box::new(property_col(&ctx, &metadata, prop)?),
@@ -296,18 +295,13 @@ pub fn build_search_plan(
         input
     };
 
+    let input = LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?);
     let input = LogicalPlan::Limit(Limit {
         skip: 0,
         fetch: Some(100),
         input: Arc::new(input),
     });
 
-    if properties.is_empty() {
-        let mut l = metadata.group_properties[req.group_id]
-            .list(ctx.project_id)?
-            .data;
-        properties.append(&mut (l));
-    }
     let dict_props = properties
         .iter()
         .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
@@ -437,15 +431,30 @@ pub fn build_get_by_id_plan(
 fn decode_filter_dictionaries(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
-    filters: Option<&Vec<PropValueFilter>>,
+    req: &GroupRecordsSearchRequest,
     input: LogicalPlan,
     cols_hash: &mut HashMap<String, ()>,
 ) -> Result<LogicalPlan> {
     let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
-    if let Some(filters) = filters {
-        for filter in filters {
-            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
+    for filter in req.filters.iter().flatten() {
+        decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
+    }
+
+    // records are ordered by strings, not by their dictionary keys
+    if let Some((PropertyRef::Group(name, group_id), _)) = &req.sort {
+        let prop =
+            metadata.group_properties[*group_id].get_by_name(ctx.project_id, name.as_str())?;
+        let col_name = prop.column_name();
+        if prop.is_dictionary && !cols_hash.contains_key(&col_name) {
+            let dict = SingleDictionaryProvider::new(
+                ctx.project_id,
+                group_col(*group_id),
+                col_name.clone(),
+                metadata.dictionaries.clone(),
+            );
+            decode_cols.push((Column::from_name(col_name.clone()), Arc::new(dict)));
+            cols_hash.insert(col_name, ());
         }
     }
 
@@ -482,6 +491,10 @@ fn projection(
         fields.push(col_name(ctx, &prop, md)?);
     }
 
+    if let Some((prop, _)) = &req.sort {
+        fields.push(col_name(ctx, prop, md)?);
+    }
+
     Ok(fields)
 }
 
-- 
2.43.0


From 2a70bbb0cb69addbbb2c5eaced55d65a0f38f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 058/106] fix: patterns do not match missing values

---
 src/query/src/expr.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 12942ce..68c82fc 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -369,13 +369,12 @@ pub fn named_property_expression(
                         multi_and(exprs)
                     }
                 }
-                _ => {
-                    if exprs.is_empty() {
-                        lit(false)
-                    } else {
-                        multi_or(exprs)
-                    }
+                _ if exprs.is_empty() => lit(false),
+                // a pattern like "%" is simplified to true, but a missing value has no match
+                PropValueOperation::Like | PropValueOperation::Regex => {
+                    and(prop_col.is_not_null(), multi_or(exprs))
                 }
+                _ => multi_or(exprs),
             })
         }
         // for isNull and isNotNull we don't need values at all
-- 
2.43.0


From d303dd566c94afb298f380eb1b00997fc8bfccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 059/106] fix: keep the scale of numbers in filters of custom
 events

---
 src/metadata/src/custom_events.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 383c88f..05c138f 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -372,6 +372,17 @@ pub struct UpdateCustomEventRequest {
     pub events: OptionalProperty<Vec<Event>>,
 }
 
+// decimals are stored without a scale, all of them have the same one
+fn to_common_scale(v: i128, scale: i8) -> i128 {
+    let diff = (DECIMAL_SCALE - scale) as i32;
+    let factor = 10i128.pow(diff.unsigned_abs());
+    if diff >= 0 {
+        v.saturating_mul(factor)
+    } else {
+        v / factor
+    }
+}
+
 fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
     let status = match v.status {
         Status::Enabled => custom_event::Status::Enabled as i32,
@@ -453,13 +464,15 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         bool: v.map(|v| v as u32),
                                         timestamp: None,
                                     },
-                                    ScalarValue::Decimal128(v, _, _) => custom_event::Value {
+                                    ScalarValue::Decimal128(v, _, scale) => custom_event::Value {
                                         string: None,
                                         int8: None,
                                         int16: None,
                                         int32: None,
                                         int64: None,
-                                        decimal: v.map(|v| v.to_le_bytes().to_vec()),
+                                        decimal: v.map(|v| {
+                                            to_common_scale(v, *scale).to_le_bytes().to_vec()
+                                        }),
                                         bool: None,
                                         timestamp: None,
                                     },
-- 
2.43.0


From b8747fbe5b90d07825537e7bf6b23b99f2215fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 060/106] fix: break results down by properties of every type

---
 src/query/src/physical_plan/limit_groups.rs | 44 ++++-----------------
 1 file changed, 7 insertions(+), 37 deletions(-)

diff --git a/src/query/src/physical_plan/limit_groups.rs b/src/query/src/physical_plan/limit_groups.rs
index deba152..54e25d7 100644
--- a/src/query/src/physical_plan/limit_groups.rs
+++ b/src/query/src/physical_plan/limit_groups.rs
@@ -8,13 +8,9 @@ use std::task::Poll;
 
 use arrow::array::Array;
 use arrow::array::ArrayRef;
-use arrow::array::Decimal128Array;
-use arrow::array::Int64Array;
 use arrow::array::Int64Builder;
 use arrow::array::RecordBatch;
-use arrow::array::StringArray;
 use arrow::compute::take;
-use arrow::datatypes::DataType;
 use arrow::datatypes::SchemaRef;
 use async_trait::async_trait;
 use datafusion::execution::RecordBatchStream;
@@ -27,19 +23,13 @@ use datafusion::physical_plan::ExecutionPlanProperties;
 use datafusion::physical_plan::PlanProperties;
 use datafusion_common::DataFusionError;
 use datafusion_common::Result as DFResult;
+use datafusion_common::ScalarValue;
 use futures::Stream;
 use futures::StreamExt;
 
 use crate::error::QueryError;
 use crate::Result;
 
-#[derive(Clone, Debug, Hash, PartialEq, Eq)]
-enum Value {
-    Int64(Option<i64>),
-    Decimal(Option<i128>),
-    String(Option<String>),
-}
-
 #[derive(Debug)]
 pub struct LimitGroupsExec {
     input: Arc<dyn ExecutionPlan>,
@@ -148,34 +138,14 @@ impl Stream for AggregateAndSortColumnsStream {
                     .iter()
                     .skip(self.skip) // skip segment col
                     .take(self.groups) // get all groups, ignore agg_name
-                    .zip(batch.schema().fields().iter().skip(self.skip))
-                    .map(|(col, f)| match f.data_type() {
-                        DataType::Int64 => col
-                            .as_any()
-                            .downcast_ref::<Int64Array>()
-                            .unwrap()
-                            .iter()
-                            .map(Value::Int64)
-                            .collect::<Vec<_>>(),
-                        DataType::Decimal128(_, _) => col
-                            .as_any()
-                            .downcast_ref::<Decimal128Array>()
-                            .unwrap()
-                            .iter()
-                            .map(Value::Decimal)
-                            .collect::<Vec<_>>(),
-                        DataType::Utf8 => col
-                            .as_any()
-                            .downcast_ref::<StringArray>()
-                            .unwrap()
-                            .iter()
-                            .map(|v| Value::String(v.map(|v| v.to_string())))
-                            .collect::<Vec<_>>(),
-                        _ => unimplemented!(),
+                    .map(|col| {
+                        (0..col.len())
+                            .map(|row_id| ScalarValue::try_from_array(col, row_id))
+                            .collect::<DFResult<Vec<_>>>()
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<DFResult<Vec<_>>>()?;
 
-                let mut counters: Vec<HashMap<Value, usize>> =
+                let mut counters: Vec<HashMap<ScalarValue, usize>> =
                     vec![HashMap::default(); self.groups];
 
                 let mut to_take = Int64Builder::with_capacity(batch.num_rows());
-- 
2.43.0


From 8975cc2e5e75c88ed1174d993a92adad623cda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 061/106] fix: answer with not found for a missing record and
 keep its missing values missing

---
 src/platform/src/error.rs      |  1 +
 src/query/src/error.rs         |  2 ++
 src/query/src/event_records.rs | 55 +++-----------------------------
 src/query/src/group_records.rs | 57 ++++------------------------------
 4 files changed, 14 insertions(+), 101 deletions(-)

diff --git a/src/platform/src/error.rs b/src/platform/src/error.rs
index 00d467e..5eb8680 100644
--- a/src/platform/src/error.rs
+++ b/src/platform/src/error.rs
@@ -110,6 +110,7 @@ impl PlatformError {
             },
             PlatformError::Query(err) => match err {
                 QueryError::Internal(err) => ApiError::internal(err),
+                QueryError::NotFound(_) => ApiError::not_found(err.to_string()),
                 QueryError::Plan(err) => ApiError::internal(err),
                 QueryError::Execution(err) => ApiError::internal(err),
                 QueryError::DataFusion(err) => ApiError::internal(err.to_string()),
diff --git a/src/query/src/error.rs b/src/query/src/error.rs
index 6932a31..561d4b6 100644
--- a/src/query/src/error.rs
+++ b/src/query/src/error.rs
@@ -13,6 +13,8 @@ pub type Result<T> = result::Result<T, QueryError>;
 pub enum QueryError {
     #[error("internal {0:?}")]
     Internal(String),
+    #[error("{0} not found")]
+    NotFound(String),
     #[error("unimplemented {0:?}")]
     Unimplemented(String),
     #[error("plan {0:?}")]
diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 8c7bb6a..3b49ff2 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::EventRef;
 use common::query::PropValueFilter;
@@ -24,8 +14,6 @@ use common::types::COLUMN_PROJECT_ID;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use common::GROUPS_COUNT;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
@@ -97,6 +85,10 @@ impl EventRecordsProvider {
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"event_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
 
+        if result.num_rows() == 0 {
+            return Err(QueryError::NotFound(format!("event {id}")));
+        }
+
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -120,44 +112,7 @@ impl EventRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
+                let value = ScalarValue::try_from_array(col, 0)?;
 
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 80c4eae..d3d9def 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::PropValueFilter;
 use common::query::PropertyRef;
@@ -23,8 +13,6 @@ use common::types::GROUP_COLUMN_PROJECT_ID;
 use common::types::GROUP_COLUMN_VERSION;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
@@ -86,7 +74,7 @@ impl GroupRecordsProvider {
         let projection = (0..schema.fields.len()).collect::<Vec<_>>();
 
         let (session_ctx, state, plan) = initial_plan(&ctx, &self.db, group_col(group_id), projection)?;
-        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id)?;
+        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id.clone())?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
@@ -96,6 +84,10 @@ impl GroupRecordsProvider {
             .record(elapsed);
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"group_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
+        if result.num_rows() == 0 {
+            return Err(QueryError::NotFound(format!("group record {id}")));
+        }
+
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -111,44 +103,7 @@ impl GroupRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
+                let value = ScalarValue::try_from_array(col, 0)?;
 
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
-- 
2.43.0


From 6024c2c2b7174a05254a5adca5883f4fe3547a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 062/106] fix: let merged columns be empty in rows of inputs
 without them

---
 src/query/src/logical_plan/merge.rs  | 17 +++++++++++++++++
 src/query/src/physical_plan/merge.rs | 15 +++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/query/src/logical_plan/merge.rs b/src/query/src/logical_plan/merge.rs
index d92ae45..4069070 100644
--- a/src/query/src/logical_plan/merge.rs
+++ b/src/query/src/logical_plan/merge.rs
@@ -30,6 +30,23 @@ impl MergeNode {
         for input in inputs.iter() {
             schema.merge(input.schema());
         }
+        // rows of an input without the column get nulls
+        let fields = schema
+            .fields()
+            .iter()
+            .map(|f| {
+                let nullable = inputs.iter().any(|input| {
+                    input
+                        .schema()
+                        .fields()
+                        .iter()
+                        .find(|i| i.name() == f.name())
+                        .map_or(true, |i| i.is_nullable())
+                });
+                Arc::new(f.as_ref().clone().with_nullable(nullable))
+            })
+            .collect::<Vec<_>>();
+        schema = DFSchema::from_unqualifed_fields(fields.into(), HashMap::default())?;
 
         schema = if let Some((col_name, _)) = names.clone() {
             let fields = [
diff --git a/src/query/src/physical_plan/merge.rs b/src/query/src/physical_plan/merge.rs
index 9dc5611..c97a605 100644
--- a/src/query/src/physical_plan/merge.rs
+++ b/src/query/src/physical_plan/merge.rs
@@ -52,6 +52,21 @@ impl MergeExec {
     ) -> Result<Self> {
         let schemas: Vec<Schema> = inputs.iter().map(|i| i.schema().deref().clone()).collect();
         let schema = Schema::try_merge(schemas)?;
+        // rows of an input without the column get nulls
+        let fields = schema
+            .fields
+            .iter()
+            .map(|f| {
+                let nullable = inputs.iter().any(|input| {
+                    input
+                        .schema()
+                        .field_with_name(f.name())
+                        .map_or(true, |i| i.is_nullable())
+                });
+                f.deref().to_owned().with_nullable(nullable)
+            })
+            .collect::<Vec<_>>();
+        let schema = Schema::new(fields);
         let schema = if let Some((col, _names)) = &names {
             let fields = [
                 vec![Field::new(col, DataType::Utf8, false)],
-- 
2.43.0


From 00a9dcf0585970970b240c3d78ae0fa2e2fec71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 063/106] fix: skip rows without a group where groups are
 counted

---
 .../src/physical_plan/expressions/aggregate/count.rs | 12 ++++++++----
 .../src/physical_plan/expressions/aggregate/mod.rs   | 12 ++++++++----
 .../expressions/aggregate/partitioned/aggregate.rs   |  6 +++++-
 .../expressions/aggregate/partitioned/count.rs       | 12 ++++++++++--
 .../expressions/segmentation/aggregate.rs            | 11 ++++++++---
 .../physical_plan/expressions/segmentation/count.rs  | 11 ++++++++---
 6 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/count.rs b/src/query/src/physical_plan/expressions/aggregate/count.rs
index de99a9a..4519da3 100644
--- a/src/query/src/physical_plan/expressions/aggregate/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/count.rs
@@ -149,19 +149,23 @@ macro_rules! count {
                     .unwrap()
                     .clone();
 
-                let mut skip_partition = 0;
+                let mut skip_partition = None;
                 let mut skip = false;
                 for (row_id, val) in predicate.into_iter().enumerate() {
+                    let pid = if partitions.is_null(row_id) {
+                        None
+                    } else {
+                        Some(partitions.value(row_id))
+                    };
                     if skip {
-                        if partitions.value(row_id) == skip_partition {
+                        if skip_partition == pid {
                             continue;
                         } else {
                             skip = false;
                         }
                     }
                     if let Some(exists) = partition_exist {
-                        let pid = partitions.value(row_id);
-                        if !exists.contains_key(&pid) {
+                        if !pid.map_or(false, |pid| exists.contains_key(&pid)) {
                             skip = true;
                             skip_partition = pid;
                             continue;
diff --git a/src/query/src/physical_plan/expressions/aggregate/mod.rs b/src/query/src/physical_plan/expressions/aggregate/mod.rs
index 15367a9..ec61ef7 100644
--- a/src/query/src/physical_plan/expressions/aggregate/mod.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/mod.rs
@@ -237,19 +237,23 @@ macro_rules! agg {
                     .downcast_ref::<Int64Array>()
                     .unwrap()
                     .clone();
-                let mut skip_partition = 0;
+                let mut skip_partition = None;
                 let mut skip = false;
                 for (row_id, val) in predicate.into_iter().enumerate() {
+                    let pid = if partitions.is_null(row_id) {
+                        None
+                    } else {
+                        Some(partitions.value(row_id))
+                    };
                     if skip {
-                        if partitions.value(row_id) == skip_partition {
+                        if skip_partition == pid {
                             continue;
                         } else {
                             skip = false;
                         }
                     }
                     if let Some(exists) = partition_exist {
-                        let pid = partitions.value(row_id);
-                        if !exists.contains_key(&pid) {
+                        if !pid.map_or(false, |pid| exists.contains_key(&pid)) {
                             skip = true;
                             skip_partition = pid;
                             continue;
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index cf8acaa..f574c45 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -205,7 +205,11 @@ macro_rules! agg {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
+                    // the row belongs to no group
+                    let partition = match partition {
+                        None => continue,
+                        Some(partition) => partition,
+                    };
                     if self.skip {
                         if self.skip_partition != partition {
                             self.skip = false;
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
index df41137..2a303a2 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs
@@ -159,7 +159,11 @@ macro_rules! count {
                     .clone();
 
                 for (row_id, partition) in partitions.into_iter().enumerate() {
-                    let partition = partition.unwrap();
+                    // the row belongs to no group
+                    let partition = match partition {
+                        None => continue,
+                        Some(partition) => partition,
+                    };
                     if self.skip {
                         if self.skip_partition != partition {
                             self.skip = false;
@@ -354,7 +358,11 @@ impl PartitionedAggregateExpr for PartitionedCount<i128> {
             .clone();
 
         for (row_id, partition) in partitions.into_iter().enumerate() {
-            let partition = partition.unwrap();
+            // the row belongs to no group
+            let partition = match partition {
+                None => continue,
+                Some(partition) => partition,
+            };
             if self.skip {
                 if self.skip_partition != partition {
                     self.skip = false;
diff --git a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
index 1dee8f5..37c7171 100644
--- a/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/aggregate.rs
@@ -257,11 +257,16 @@ macro_rules! agg {
                     .unwrap()
                     .clone();
                 for (row_id, partition) in partition.into_iter().enumerate() {
+                    // the row belongs to no group
+                    let partition = match partition {
+                        None => continue,
+                        Some(partition) => partition,
+                    };
                     if inner.first {
                         inner.first = false;
-                        inner.last_partition = partition.unwrap();
+                        inner.last_partition = partition;
                     }
-                    if inner.last_partition != partition.unwrap() {
+                    if inner.last_partition != partition {
                         let res = self.check(&inner);
 
                         if !res {
@@ -273,7 +278,7 @@ macro_rules! agg {
 
                         inner.agg.reset();
                         inner.is_empty = true;
-                        inner.last_partition = partition.unwrap();
+                        inner.last_partition = partition;
                     }
 
                     if !self.time_range.check_bounds(ts.value(row_id)) {
diff --git a/src/query/src/physical_plan/expressions/segmentation/count.rs b/src/query/src/physical_plan/expressions/segmentation/count.rs
index 307e6e8..9122fb7 100644
--- a/src/query/src/physical_plan/expressions/segmentation/count.rs
+++ b/src/query/src/physical_plan/expressions/segmentation/count.rs
@@ -94,11 +94,16 @@ where Op: ComparisonOp<i64>
             .unwrap()
             .clone();
         for (row_id, partition) in partition.into_iter().enumerate() {
+            // the row belongs to no group
+            let partition = match partition {
+                None => continue,
+                Some(partition) => partition,
+            };
             if inner.first {
                 inner.first = false;
-                inner.last_partition = partition.unwrap();
+                inner.last_partition = partition;
             }
-            if inner.last_partition != partition.unwrap() {
+            if inner.last_partition != partition {
                 let res = match Op::op() {
                     Operator::Lt => inner.count < self.right,
                     Operator::LtEq => inner.count <= self.right,
@@ -114,7 +119,7 @@ where Op: ComparisonOp<i64>
                     let v = inner.last_partition;
                     inner.res.append_value(v);
                 }
-                inner.last_partition = partition.unwrap();
+                inner.last_partition = partition;
 
                 inner.count = 0;
             }
-- 
2.43.0


From 796fc93dbe734c13e18b86537fa1357cf3e39862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 064/106] fix: keep keys of events, projects and groups when
 filters need their names

---
 src/query/src/event_records.rs      | 20 +++--------
 src/query/src/event_segmentation.rs | 14 ++------
 src/query/src/expr.rs               |  8 ++++-
 src/query/src/funnel.rs             | 30 ++++------------
 src/query/src/group_records.rs      | 55 +++++++++++++++--------------
 src/query/src/lib.rs                | 48 +++++++++++++++++++++++--
 src/query/src/properties.rs         | 21 +++--------
 7 files changed, 100 insertions(+), 96 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 3b49ff2..c6913bf 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -40,6 +40,7 @@ use storage::db::OptiDBImpl;
 use tracing::debug;
 
 use crate::col_name;
+use crate::decode_filter_columns;
 use crate::decode_filter_single_dictionary;
 use crate::event_filters;
 use crate::error::QueryError;
@@ -229,7 +230,6 @@ pub fn build_search_plan(
         req.events.as_ref(),
         req.filters.as_ref(),
         input,
-        &mut cols_hash,
     )?;
 
     let mut filter_exprs = vec![
@@ -441,36 +441,24 @@ fn decode_filter_dictionaries(
     events: Option<&Vec<Event>>,
     filters: Option<&Vec<PropValueFilter>>,
     input: LogicalPlan,
-    cols_hash: &mut HashMap<String, ()>,
 ) -> Result<LogicalPlan> {
     let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
     if let Some(events) = events {
         for event in events {
             for filter in event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
-                decode_filter_single_dictionary(
-                    ctx,
-                    metadata,
-                    cols_hash,
-                    &mut decode_cols,
-                    &filter,
-                )?;
+                decode_filter_single_dictionary(ctx, metadata, &mut decode_cols, &filter)?;
             }
         }
     }
 
     if let Some(filters) = filters {
         for filter in filters {
-            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
+            decode_filter_single_dictionary(ctx, metadata, &mut decode_cols, filter)?;
         }
     }
 
-    if decode_cols.is_empty() {
-        return Ok(input);
-    }
-    Ok(LogicalPlan::Extension(Extension {
-        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-    }))
+    decode_filter_columns(input, decode_cols)
 }
 
 fn projection(
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 8135086..617a543 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -46,6 +46,7 @@ use tracing::debug;
 use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::context::Format;
+use crate::decode_filter_columns;
 use crate::decode_filter_single_dictionary;
 use crate::event_filters;
 use crate::error::QueryError;
@@ -299,7 +300,7 @@ impl LogicalPlanBuilder {
 
         let mut cols_hash: HashMap<String, ()> = HashMap::new();
 
-        let mut input = builder.decode_filter_dictionaries(input, &mut cols_hash)?;
+        let mut input = builder.decode_filter_dictionaries(input)?;
         // build main query
         input = match events.len() {
             1 => {
@@ -553,7 +554,6 @@ impl LogicalPlanBuilder {
     fn decode_filter_dictionaries(
         &self,
         input: LogicalPlan,
-        cols_hash: &mut HashMap<String, ()>,
     ) -> Result<LogicalPlan> {
         let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
@@ -567,7 +567,6 @@ impl LogicalPlanBuilder {
                 decode_filter_single_dictionary(
                     &self.ctx,
                     &self.metadata,
-                    cols_hash,
                     &mut decode_cols,
                     &filter,
                 )?;
@@ -579,20 +578,13 @@ impl LogicalPlanBuilder {
                 decode_filter_single_dictionary(
                     &self.ctx,
                     &self.metadata,
-                    cols_hash,
                     &mut decode_cols,
                     filter,
                 )?;
             }
         }
 
-        if decode_cols.is_empty() {
-            return Ok(input);
-        }
-
-        Ok(LogicalPlan::Extension(Extension {
-            node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-        }))
+        decode_filter_columns(input, decode_cols)
     }
 
     fn decode_breakdowns_dictionaries(
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 68c82fc..d3df8ad 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -28,6 +28,7 @@ use metadata::properties::DictionaryType;
 use metadata::error::MetadataError;
 use metadata::MetadataProvider;
 
+use crate::decoded_col;
 use crate::error::QueryError;
 use crate::logical_plan::expr::lit_timestamp;
 use crate::logical_plan::expr::multi_and;
@@ -77,7 +78,7 @@ pub fn event_expression<S: ExprSchema>(
         EventRef::Regular(id) => binary_expr(
             col(COLUMN_EVENT),
             Operator::Eq,
-            lit(ScalarValue::from(*id as u16)),
+            lit(ScalarValue::from(*id as i64)),
         ),
 
         EventRef::Custom(id) => {
@@ -246,6 +247,11 @@ fn prop_expression<S: ExprSchema>(
         | PropValueOperation::NotLike
         | PropValueOperation::Regex
         | PropValueOperation::NotRegex => {
+            let decoded = Expr::Column(Column::from_name(decoded_col(col_name.as_str())));
+            let col = match decoded.get_type(schema) {
+                Ok(_) => decoded,
+                Err(_) => col,
+            };
             return named_property_expression(col, operation, values);
         }
         _ => {}
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 54e9d20..67e2a04 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -48,6 +48,7 @@ use tracing::debug;
 
 use crate::breakdowns_to_dicts;
 use crate::col_name;
+use crate::decode_filter_columns;
 use crate::decode_filter_single_dictionary;
 use crate::event_filters;
 use crate::error::QueryError;
@@ -256,7 +257,7 @@ pub fn build(
     req: Funnel,
 ) -> Result<LogicalPlan> {
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
-    let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
+    let input = decode_filter_dictionaries(&ctx, &metadata, &req, input)?;
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
     if let Some(filters) = &req.filters {
@@ -431,20 +432,13 @@ fn decode_filter_dictionaries(
     metadata: &Arc<MetadataProvider>,
     funnel: &Funnel,
     input: LogicalPlan,
-    cols_hash: &mut HashMap<String, ()>,
 ) -> Result<LogicalPlan> {
     let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
     for step in &funnel.steps {
         for event in &step.events {
             for filter in event_filters(ctx, metadata, &event.event, event.filters.as_ref())? {
-                decode_filter_single_dictionary(
-                    ctx,
-                    metadata,
-                    cols_hash,
-                    &mut decode_cols,
-                    &filter,
-                )?;
+                decode_filter_single_dictionary(ctx, metadata, &mut decode_cols, &filter)?;
             }
         }
     }
@@ -452,28 +446,18 @@ fn decode_filter_dictionaries(
     if let Some(excludes) = &funnel.exclude {
         for exclude in excludes {
             for filter in event_filters(ctx, metadata, &exclude.event, exclude.filters.as_ref())? {
-                decode_filter_single_dictionary(
-                    ctx,
-                    metadata,
-                    cols_hash,
-                    &mut decode_cols,
-                    &filter,
-                )?;
+                decode_filter_single_dictionary(ctx, metadata, &mut decode_cols, &filter)?;
             }
         }
     }
 
     if let Some(filters) = &funnel.filters {
         for filter in filters {
-            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
+            decode_filter_single_dictionary(ctx, metadata, &mut decode_cols, filter)?;
         }
     }
-    if decode_cols.is_empty() {
-        return Ok(input);
-    }
-    Ok(LogicalPlan::Extension(Extension {
-        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-    }))
+
+    decode_filter_columns(input, decode_cols)
 }
 
 #[derive(Clone, Debug)]
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index d3d9def..e590dd5 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -36,6 +36,7 @@ use storage::db::OptiDBImpl;
 use tracing::debug;
 
 use crate::col_name;
+use crate::decode_filter_columns;
 use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
@@ -212,7 +213,7 @@ pub fn build_search_plan(
     }
 
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
-    let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
+    let input = decode_filter_dictionaries(&ctx, &metadata, &req, input)?;
     let mut filter_exprs = vec![binary_expr(
         col(GROUP_COLUMN_PROJECT_ID),
         Operator::Eq,
@@ -234,6 +235,31 @@ pub fn build_search_plan(
         Arc::new(input),
     )?);
 
+    // records are ordered by strings, not by their dictionary keys
+    let mut sort_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
+    if let Some((PropertyRef::Group(name, group_id), _)) = &req.sort {
+        let prop =
+            metadata.group_properties[*group_id].get_by_name(ctx.project_id, name.as_str())?;
+        let col_name = prop.column_name();
+        if prop.is_dictionary {
+            let dict = SingleDictionaryProvider::new(
+                ctx.project_id,
+                group_col(*group_id),
+                col_name.clone(),
+                metadata.dictionaries.clone(),
+            );
+            sort_cols.push((Column::from_name(col_name.clone()), Arc::new(dict)));
+            cols_hash.insert(col_name, ());
+        }
+    }
+    let input = if !sort_cols.is_empty() {
+        LogicalPlan::Extension(Extension {
+            node: Arc::new(DictionaryDecodeNode::try_new(input, sort_cols)?),
+        })
+    } else {
+        input
+    };
+
     let input = if let Some((prop, sort)) = &req.sort {
         let s = Expr::Sort(expr::Sort {
             expr: Box::new(property_col(&ctx, &metadata, prop)?),
@@ -388,37 +414,14 @@ fn decode_filter_dictionaries(
     metadata: &Arc<MetadataProvider>,
     req: &GroupRecordsSearchRequest,
     input: LogicalPlan,
-    cols_hash: &mut HashMap<String, ()>,
 ) -> Result<LogicalPlan> {
     let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
     for filter in req.filters.iter().flatten() {
-        decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
-    }
-
-    // records are ordered by strings, not by their dictionary keys
-    if let Some((PropertyRef::Group(name, group_id), _)) = &req.sort {
-        let prop =
-            metadata.group_properties[*group_id].get_by_name(ctx.project_id, name.as_str())?;
-        let col_name = prop.column_name();
-        if prop.is_dictionary && !cols_hash.contains_key(&col_name) {
-            let dict = SingleDictionaryProvider::new(
-                ctx.project_id,
-                group_col(*group_id),
-                col_name.clone(),
-                metadata.dictionaries.clone(),
-            );
-            decode_cols.push((Column::from_name(col_name.clone()), Arc::new(dict)));
-            cols_hash.insert(col_name, ());
-        }
+        decode_filter_single_dictionary(ctx, metadata, &mut decode_cols, filter)?;
     }
 
-    if decode_cols.is_empty() {
-        return Ok(input);
-    }
-    Ok(LogicalPlan::Extension(Extension {
-        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-    }))
+    decode_filter_columns(input, decode_cols)
 }
 
 fn projection(
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6440c6e..0fa17d1 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -73,6 +73,7 @@ use datafusion_common::ScalarValue;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::lit;
+use datafusion_expr::Expr;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter;
 use datafusion_expr::LogicalPlan;
@@ -463,10 +464,52 @@ pub async fn execute(
     Ok(res)
 }
 
+/// name of the column that holds the strings of a dictionary column for filters
+pub fn decoded_col(col_name: &str) -> String {
+    format!("{col_name} decoded")
+}
+
+/// decodes dictionary columns for filters into columns of their own. Keys stay where they are, as
+/// events, projects and groups are still told apart by them
+pub fn decode_filter_columns(
+    input: LogicalPlan,
+    decode_cols: Vec<(datafusion_common::Column, Arc<SingleDictionaryProvider>)>,
+) -> crate::Result<LogicalPlan> {
+    if decode_cols.is_empty() {
+        return Ok(input);
+    }
+
+    let keep = input
+        .schema()
+        .fields()
+        .iter()
+        .map(|f| Expr::Column(datafusion_common::Column::from_name(f.name())));
+    let copy = decode_cols
+        .iter()
+        .map(|(c, _)| Expr::Column(c.clone()).alias(decoded_col(&c.name)));
+    let exprs = keep.chain(copy).collect::<Vec<_>>();
+    let input = LogicalPlan::Projection(datafusion_expr::Projection::try_new(exprs, Arc::new(input))?);
+    let decode_cols = decode_cols
+        .into_iter()
+        .map(|(c, dict)| {
+            (
+                datafusion_common::Column::from_name(decoded_col(&c.name)),
+                dict,
+            )
+        })
+        .collect::<Vec<_>>();
+
+    Ok(LogicalPlan::Extension(Extension {
+        node: Arc::new(logical_plan::dictionary_decode::DictionaryDecodeNode::try_new(
+            input,
+            decode_cols,
+        )?),
+    }))
+}
+
 pub fn decode_filter_single_dictionary(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
-    cols_hash: &mut HashMap<String, ()>,
     decode_cols: &mut Vec<(datafusion_common::Column, Arc<SingleDictionaryProvider>)>,
     filter: &PropValueFilter,
 ) -> crate::Result<()> {
@@ -506,11 +549,10 @@ pub fn decode_filter_single_dictionary(
                     metadata.dictionaries.clone(),
                 );
                 let col = datafusion_common::Column::from_name(col_name);
-                if cols_hash.contains_key(prop.column_name().as_str()) {
+                if decode_cols.iter().any(|(c, _)| *c == col) {
                     return Ok(());
                 }
                 decode_cols.push((col, Arc::new(dict)));
-                cols_hash.insert(prop.column_name(), ());
             }
             _ => {}
         },
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 689e48f..77b6bfc 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -38,6 +38,7 @@ use storage::db::OptiDBImpl;
 use tracing::debug;
 
 use crate::col_name;
+use crate::decode_filter_columns;
 use crate::decode_filter_single_dictionary;
 use crate::event_filters;
 use crate::error::QueryError;
@@ -125,14 +126,8 @@ impl LogicalPlanBuilder {
         input: LogicalPlan,
         req: PropertyValues,
     ) -> Result<LogicalPlan> {
-        let mut cols_hash: HashMap<String, ()> = HashMap::new();
-        let input = decode_filter_dictionaries(
-            &ctx,
-            &metadata,
-            req.event.as_ref(),
-            input,
-            &mut cols_hash,
-        )?;
+        let cols_hash: HashMap<String, ()> = HashMap::new();
+        let input = decode_filter_dictionaries(&ctx, &metadata, req.event.as_ref(), input)?;
         let mut expr = binary_expr(
             col(COLUMN_PROJECT_ID),
             Operator::Eq,
@@ -212,21 +207,15 @@ fn decode_filter_dictionaries(
     metadata: &Arc<MetadataProvider>,
     event: Option<&EventRef>,
     input: LogicalPlan,
-    cols_hash: &mut HashMap<String, ()>,
 ) -> Result<LogicalPlan> {
     let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
     if let Some(event) = event {
         for filter in event_filters(ctx, metadata, event, None)? {
-            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, &filter)?;
+            decode_filter_single_dictionary(ctx, metadata, &mut decode_cols, &filter)?;
         }
     }
-    if decode_cols.is_empty() {
-        return Ok(input);
-    }
 
-    Ok(LogicalPlan::Extension(Extension {
-        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-    }))
+    decode_filter_columns(input, decode_cols)
 }
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From 0a69e3c2920960950588cfd03e3692977bf2a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 065/106] fix: convert values in filters of funnel steps and
 exclusions

---
 src/query/src/funnel.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 67e2a04..036eb10 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -556,9 +556,8 @@ pub fn fix_request(
     for (step_id, step) in req.steps.iter().enumerate() {
         for (event_id, event) in step.events.iter().enumerate() {
             if let Some(filters) = &event.filters {
-                if filters.is_empty() {
-                    out.steps[step_id].events[event_id].filters = None;
-                }
+                out.steps[step_id].events[event_id].filters =
+                    fix_filters(md, project_id, filters)?;
             }
         }
     }
@@ -570,9 +569,7 @@ pub fn fix_request(
             let mut out_exclude = exclude.to_vec();
             for (exclude_id, exclude) in exclude.iter().enumerate() {
                 if let Some(filters) = &exclude.filters {
-                    if filters.is_empty() {
-                        out_exclude[exclude_id].filters = None;
-                    }
+                    out_exclude[exclude_id].filters = fix_filters(md, project_id, filters)?;
                 }
             }
 
@@ -593,16 +590,24 @@ pub fn fix_request(
     }
 
     if let Some(filters) = &req.filters {
-        let mut of = vec![];
-        if filters.is_empty() {
-            out.filters = None;
-        } else {
-            for filter in filters.iter() {
-                let f = fix_filter(md, project_id, filter)?;
-                of.push(f);
-            }
-            out.filters = Some(of);
-        }
+        out.filters = fix_filters(md, project_id, filters)?;
     }
     Ok(out)
 }
+
+fn fix_filters(
+    md: &Arc<MetadataProvider>,
+    project_id: u64,
+    filters: &[PropValueFilter],
+) -> crate::Result<Option<Vec<PropValueFilter>>> {
+    if filters.is_empty() {
+        return Ok(None);
+    }
+
+    let filters = filters
+        .iter()
+        .map(|filter| fix_filter(md, project_id, filter))
+        .collect::<crate::Result<Vec<_>>>()?;
+
+    Ok(Some(filters))
+}
-- 
2.43.0


From 519298b3abcab9700a56402357aaa295c9550f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 066/106] fix: name funnel steps of custom events

---
 src/query/src/funnel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 036eb10..ba8fd60 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -196,7 +196,12 @@ impl FunnelProvider {
             let name = match &step.events[0].event {
                 EventRef::RegularName(n) => n.clone(),
                 EventRef::Regular(id) => self.metadata.events.get_by_id(ctx.project_id, *id)?.name,
-                EventRef::Custom(_) => unimplemented!(),
+                EventRef::Custom(id) => {
+                    self.metadata
+                        .custom_events
+                        .get_by_id(ctx.project_id, *id)?
+                        .name
+                }
             };
             let mut step = Step {
                 step: name.clone(),
-- 
2.43.0


From a79bf2956cdfa3e2a054d9941181fa616f546974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 067/106] fix: leave breakdown of a funnel empty where a
 decimal is missing

---
 src/query/src/funnel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index ba8fd60..58ea9c6 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -141,6 +141,10 @@ impl FunnelProvider {
                             .unwrap();
                         let mut builder = StringBuilder::new();
                         for i in 0..arr.len() {
+                            if arr.is_null(i) {
+                                builder.append_null();
+                                continue;
+                            }
                             let v = arr.value(i);
                             let vv = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
                                 .round_dp(ROUND_DIGITS.into());
-- 
2.43.0


From a7f2399d19b4601ecf5b9bf153ad3958105acea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 068/106] fix: bring types together in conditions of funnel
 steps

---
 src/query/src/physical_plan/planner/funnel.rs | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/query/src/physical_plan/planner/funnel.rs b/src/query/src/physical_plan/planner/funnel.rs
index 5a15531..b2e8eb4 100644
--- a/src/query/src/physical_plan/planner/funnel.rs
+++ b/src/query/src/physical_plan/planner/funnel.rs
@@ -3,10 +3,15 @@ use std::sync::Mutex;
 
 use arrow_row::SortField;
 use datafusion::execution::context::ExecutionProps;
+use datafusion::optimizer::simplify_expressions::ExprSimplifier;
 use datafusion::physical_expr::create_physical_expr;
 use datafusion::physical_expr::expressions::Column;
+use datafusion::physical_expr::PhysicalExprRef;
 use datafusion::physical_plan::ExecutionPlan;
+use datafusion_common::DFSchema;
 use datafusion_common::ToDFSchema;
+use datafusion_expr::simplify::SimplifyContext;
+use datafusion_expr::Expr;
 use datafusion_expr::LogicalPlan;
 
 use crate::error::Result;
@@ -23,6 +28,18 @@ use crate::physical_plan::expressions::aggregate::partitioned::funnel::Touch;
 use crate::physical_plan::funnel::FunnelFinalExec;
 use crate::physical_plan::funnel::FunnelPartialExec;
 
+// conditions of funnels aren't seen by the analyzer, so types of both sides are brought together here
+fn physical_condition(
+    expr: &Expr,
+    schema: &DFSchema,
+    props: &ExecutionProps,
+) -> Result<PhysicalExprRef> {
+    let ctx = SimplifyContext::new(props).with_schema(Arc::new(schema.to_owned()));
+    let expr = ExprSimplifier::new(ctx).coerce(expr.to_owned(), schema)?;
+
+    Ok(create_physical_expr(&expr, schema, props)?)
+}
+
 pub(crate) fn build_funnel(
     logical_inputs: &[&LogicalPlan],
     physical_inputs: &[Arc<dyn ExecutionPlan>],
@@ -53,19 +70,19 @@ pub(crate) fn build_funnel(
         .steps
         .iter()
         .map(|(expr, order)| {
-            let expr = create_physical_expr(expr, &dfschema, &execution_props).unwrap();
+            let expr = physical_condition(expr, &dfschema, &execution_props)?;
             let order = match order {
                 logical_plan::funnel::StepOrder::Exact => StepOrder::Exact,
                 logical_plan::funnel::StepOrder::Any(v) => StepOrder::Any(v.to_vec()),
             };
-            (expr, order)
+            Ok((expr, order))
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>>>()?;
 
     let exclude = if let Some(exclude) = f.exclude {
         let mut out = vec![];
         for exclude in exclude {
-            let expr = create_physical_expr(&exclude.expr, &dfschema, &execution_props)?;
+            let expr = physical_condition(&exclude.expr, &dfschema, &execution_props)?;
             let steps = exclude.steps.map(|steps| ExcludeSteps {
                 from: steps.from,
                 to: steps.to,
-- 
2.43.0


From 02d14f527169640a5eebc6aa8ebe0c98b87208b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 069/106] fix: apply exclusions between funnel steps

---
 .../aggregate/partitioned/funnel/funnel.rs         | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 5385def..57112e2 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -141,20 +141,14 @@ impl Group {
         }
     }
 
-    #[allow(unused_assignments)]
     fn check_exclude(&self, exclude: &[Exclude], cur_row_id: usize) -> bool {
         for excl in exclude.iter() {
-            let mut to_check = false;
             // check if this exclude is relevant to current step
-            if let Some(steps) = &excl.steps {
-                if steps.from <= self.cur_step && steps.to >= self.cur_step {
-                    to_check = true;
-                    break;
-                }
-            } else {
+            let to_check = match &excl.steps {
+                Some(steps) => steps.from <= self.cur_step && steps.to >= self.cur_step,
                 // check anyway
-                to_check = true;
-            }
+                None => true,
+            };
 
             if to_check && excl.exists.value(cur_row_id) {
                 return false;
-- 
2.43.0


From 4c51dced55e618bcb863ec4265c100fb973723df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 070/106] fix: count funnels of every month and year

---
 .../aggregate/partitioned/funnel/funnel.rs    | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 57112e2..3592b4e 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -19,6 +19,7 @@ use arrow_row::SortField;
 use chrono::DateTime;
 use chrono::Duration;
 use chrono::Utc;
+use chronoutil::DateRule;
 use common::query::date_trunc;
 use common::query::TimeIntervalUnit;
 use common::types::TIME_UNIT;
@@ -303,20 +304,12 @@ impl Funnel {
         let buckets = if opts.time_interval.is_some() {
             let from = date_trunc(&opts.time_interval.clone().unwrap(), opts.from)?;
             let to = date_trunc(&opts.time_interval.clone().unwrap(), opts.to)?;
-            let mut buckets = (from.timestamp_millis()..=to.timestamp_millis())
-                .step_by(
-                    opts.time_interval
-                        .clone()
-                        .unwrap()
-                        .duration(1)
-                        .num_milliseconds() as usize,
-                )
-                .collect::<Vec<i64>>();
-            // case where bucket size is bigger than time range
-            if buckets.is_empty() {
-                buckets.push(from.timestamp_millis());
-            }
-            buckets
+            // months and years are of different lengths
+            let unit = opts.time_interval.clone().unwrap();
+            DateRule::new(from, unit.relative_duration(1))
+                .take_while(|ts| *ts <= to)
+                .map(|ts| ts.timestamp_millis())
+                .collect::<Vec<i64>>()
         } else {
             vec![opts.from.timestamp_millis()]
         };
-- 
2.43.0


From dff556005a7ebf3104ae04743b452950a8801219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 071/106] fix: make funnel ratios and averages of all
 partitions out of their totals

---
 .../aggregate/partitioned/funnel/funnel.rs    | 101 +++++++++---------
 src/query/src/physical_plan/funnel.rs         |  43 +++++++-
 2 files changed, 92 insertions(+), 52 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 3592b4e..0a07a5e 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -76,6 +76,44 @@ struct StepResult {
     total_time_to_convert_from_start: i64,
 }
 
+// decimals with DECIMAL_SCALE
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct StepRatios {
+    pub conversion: i128,
+    pub drop_off: i128,
+    pub avg_time_to_convert: i128,
+    pub avg_time_to_convert_from_start: i128,
+}
+
+impl StepRatios {
+    pub fn new(
+        step_id: usize,
+        total: i64,
+        first_total: i64,
+        time_to_convert: i64,
+        time_to_convert_from_start: i64,
+    ) -> Self {
+        let decimal = |v: f64| {
+            let mut v = Decimal::from_f64(v).unwrap();
+            v.rescale(DECIMAL_SCALE as u32);
+            v
+        };
+        let ratio = |v: i64, of: i64| if of > 0 { v as f64 / of as f64 } else { 0. };
+        let conversion = match step_id {
+            0 => decimal(100.),
+            _ => decimal(ratio(total, first_total) * 100.),
+        };
+
+        Self {
+            conversion: conversion.mantissa(),
+            drop_off: decimal(100. - conversion.to_f64().unwrap()).mantissa(),
+            avg_time_to_convert: decimal(ratio(time_to_convert, total)).mantissa(),
+            avg_time_to_convert_from_start: decimal(ratio(time_to_convert_from_start, total))
+                .mantissa(),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Eq, PartialEq)]
 struct BucketResult {
     steps: Vec<StepResult>,
@@ -747,58 +785,19 @@ impl Funnel {
             for bucket in buckets.values() {
                 for (step_id, step) in bucket.steps.iter().enumerate() {
                     step_total[step_id].append_value(step.total);
-                    let mut scr = if step_id == 0 {
-                        Decimal::from_f64(100.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.total as f64 / bucket.steps[0].total as f64 * 100.
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    scr.rescale(DECIMAL_SCALE as u32);
-                    step_conversion_ratio[step_id].append_value(scr.mantissa());
+                    let ratios = StepRatios::new(
+                        step_id,
+                        step.total,
+                        bucket.steps[0].total,
+                        step.total_time_to_convert,
+                        step.total_time_to_convert_from_start,
+                    );
+                    step_conversion_ratio[step_id].append_value(ratios.conversion);
                     step_dropped_off[step_id].append_value(step.dropped_off);
-                    let mut v = if step_id == 0 {
-                        Decimal::from_f64(0.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.dropped_off as f64 / step.total as f64 * 100.
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    v.rescale(DECIMAL_SCALE as u32);
-                    let mut dor = Decimal::from_f64(100. - scr.to_f64().unwrap()).unwrap();
-                    dor.rescale(DECIMAL_SCALE as u32);
-                    step_drop_off_ratio[step_id].append_value(dor.mantissa());
-                    let mut v = if step_id == 0 {
-                        Decimal::from_f64(0.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert as f64 / step.total as f64 * 100.
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    v.rescale(DECIMAL_SCALE as u32);
-                    step_avg_time_to_convert[step_id].append_value(v.mantissa());
-
-                    let mut v = if step_id == 0 {
-                        Decimal::from_f64(0.).unwrap()
-                    } else {
-                        Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert_from_start as f64 / step.total as f64 * 100.
-                        } else {
-                            0.
-                        })
-                        .unwrap()
-                    };
-                    v.rescale(DECIMAL_SCALE as u32);
-                    step_avg_time_to_convert_from_start[step_id].append_value(v.mantissa());
+                    step_drop_off_ratio[step_id].append_value(ratios.drop_off);
+                    step_avg_time_to_convert[step_id].append_value(ratios.avg_time_to_convert);
+                    step_avg_time_to_convert_from_start[step_id]
+                        .append_value(ratios.avg_time_to_convert_from_start);
 
                     step_time_to_convert[step_id].append_value(step.total_time_to_convert);
                     step_time_to_convert_from_start[step_id]
diff --git a/src/query/src/physical_plan/funnel.rs b/src/query/src/physical_plan/funnel.rs
index 0db852a..31d2268 100644
--- a/src/query/src/physical_plan/funnel.rs
+++ b/src/query/src/physical_plan/funnel.rs
@@ -57,6 +57,7 @@ use futures::StreamExt;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::physical_plan::expressions::aggregate::partitioned::funnel::funnel::Funnel;
+use crate::physical_plan::expressions::aggregate::partitioned::funnel::funnel::StepRatios;
 
 #[derive(Debug, Clone)]
 enum Agg {
@@ -73,6 +74,10 @@ impl Agg {
     }
 }
 
+// columns of a step: total, conversion ratio, average time to convert, average time to convert from
+// start, dropped off, drop off ratio, time to convert, time to convert from start
+const STEP_COLS: usize = 8;
+
 struct Group {
     aggs: Vec<Agg>,
 }
@@ -265,6 +270,39 @@ fn aggregate(
     Ok(cols)
 }
 
+// ratios and averages over all partitions. Partitions have different totals, so they can't be made
+// from ratios and averages of the partitions
+fn average(cols: &mut [ArrayRef], steps: usize) -> Result<()> {
+    let ints = |col: &ArrayRef| col.as_any().downcast_ref::<Int64Array>().unwrap().clone();
+    let first_total = ints(&cols[0]);
+    for step_id in 0..steps {
+        let step = &mut cols[step_id * STEP_COLS..(step_id + 1) * STEP_COLS];
+        let (total, time, time_from_start) = (ints(&step[0]), ints(&step[6]), ints(&step[7]));
+        let ratios = (0..total.len())
+            .map(|row_id| {
+                StepRatios::new(
+                    step_id,
+                    total.value(row_id),
+                    first_total.value(row_id),
+                    time.value(row_id),
+                    time_from_start.value(row_id),
+                )
+            })
+            .collect::<Vec<_>>();
+        let decimals = |f: fn(&StepRatios) -> i128| -> Result<ArrayRef> {
+            let arr = Decimal128Array::from_iter_values(ratios.iter().map(f))
+                .with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE)?;
+            Ok(Arc::new(arr) as ArrayRef)
+        };
+        step[1] = decimals(|r| r.conversion)?;
+        step[2] = decimals(|r| r.avg_time_to_convert)?;
+        step[3] = decimals(|r| r.avg_time_to_convert_from_start)?;
+        step[5] = decimals(|r| r.drop_off)?;
+    }
+
+    Ok(())
+}
+
 #[derive(Eq, PartialEq, Clone, Debug)]
 enum Stage {
     CollectSegments,
@@ -724,7 +762,10 @@ impl Stream for FinalFunnelStream {
             .collect::<Vec<_>>();
 
         let final_batch = concat_batches(&self.schema, &self.final_batches.borrow().to_vec())?;
-        let agg_arrs = aggregate(&final_batch, groups, aggs)
+        let groups_len = groups.len();
+        let mut agg_arrs = aggregate(&final_batch, groups, aggs)
+            .map_err(QueryError::into_datafusion_execution_error)?;
+        average(&mut agg_arrs[groups_len..], self.steps)
             .map_err(QueryError::into_datafusion_execution_error)?;
         let result = RecordBatch::try_new(self.schema.clone(), agg_arrs)?;
         self.finished = true;
-- 
2.43.0


From 4385125bb1cfc51ef9974210ecad234b84723e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 072/106] fix: end funnel attempts by users, times and
 constants of their own

Steps of any order are matched by each of their ranges.
---
 src/query/src/lib.rs                          |  9 +-
 .../aggregate/partitioned/funnel/funnel.rs    | 88 ++++++++-----------
 2 files changed, 44 insertions(+), 53 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 0fa17d1..0a7f5e3 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -163,7 +163,10 @@ macro_rules! impl_into_static_array {
         impl StaticArray {
     fn eq_values(&self, left_row_id: usize, right:&StaticArray,right_row_id: usize) -> bool {
         match (self,right) {
-             $((StaticArray::$ident(a),StaticArray::$ident(b))=>a.value(left_row_id) == b.value(right_row_id)),+,
+             $((StaticArray::$ident(a),StaticArray::$ident(b))=> match (a.is_null(left_row_id), b.is_null(right_row_id)) {
+                 (false, false) => a.value(left_row_id) == b.value(right_row_id),
+                 (left, right) => left == right,
+             }),+,
             _=>unreachable!()
         }
         }
@@ -171,9 +174,9 @@ macro_rules! impl_into_static_array {
     }
 }
 
-impl_into_static_array!( Int8 Int16 Int32 Int64 Int128 UInt8 UInt16 UInt32 UInt64 Float16 Float32 Float64 Boolean
+impl_into_static_array!( Int8 Int16 Int32 Int64 UInt8 UInt16 UInt32 UInt64 Float16 Float32 Float64 Boolean
     TimestampNanosecond TimestampMicrosecond TimestampMillisecond  Time32Second Time32Millisecond  Time64Microsecond Time64Nanosecond DurationSecond DurationMillisecond DurationMicrosecond IntervalYearMonth IntervalDayTime IntervalMonthDayNano Date32 Date64 DurationNanosecond
-    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString);
+    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString Decimal128 Decimal256);
 
 impl From<ArrayRef> for StaticArray {
     fn from(arr: ArrayRef) -> Self {
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 0a07a5e..51fb4f9 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -128,7 +128,8 @@ struct Group {
     _cur_row_id: i64,
     partition_start: Row,
     _partition_len: i64,
-    const_row: Option<Row>,
+    // row with constants of the first step, along with the constants of its batch
+    const_row: Option<(usize, Vec<StaticArray>)>,
     cur_step: usize,
     steps: Vec<Step>,
     buckets: HashMap<i64, BucketResult, RandomState>,
@@ -198,11 +199,10 @@ impl Group {
     }
 
     fn check_constants(&self, constants: &[StaticArray], cur_row_id: usize) -> bool {
-        let const_row = self.const_row.as_ref().unwrap();
-        for (const_idx, first_const) in constants.iter().enumerate() {
+        let (const_row_id, first_constants) = self.const_row.as_ref().unwrap();
+        for (first_const, cur_const) in first_constants.iter().zip(constants.iter()) {
             // compare the const values of current row and first row
-            let cur_const = &constants[const_idx];
-            if !first_const.eq_values(const_row.row_id, cur_const, cur_row_id) {
+            if !first_const.eq_values(*const_row_id, cur_const, cur_row_id) {
                 return false;
             }
         }
@@ -566,6 +566,31 @@ impl Funnel {
 
             let batch = self.buf.get(&batch_id).unwrap();
             let cur_ts = batch.ts.value(row_id);
+            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
+                group.push_result(&self.filter, &self.time_interval);
+                #[cfg(test)]
+                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
+                group.cur_partition = partitions.value(row_id);
+                self.cur_partition = partitions.value(row_id);
+                group.partition_start = Row {
+                    row_id: 0,
+                    _batch_id: self.batch_id,
+                };
+                group.cur_step = 0;
+                group.skip = false;
+                group.steps_completed = 0;
+            }
+            if group.cur_step > 0 {
+                if cur_ts - group.steps[0].ts > self.window.num_milliseconds() {
+                    group.push_result(&self.filter, &self.time_interval);
+                    #[cfg(test)]
+                    self.debug.push(batch_id, row_id, DebugStep::OutOfWindow);
+                    group.steps[0] = group.steps[group.cur_step].clone();
+                    group.cur_step = 0;
+                    group.steps_completed = 0;
+                    // don't continue
+                }
+            }
             if group.cur_step > 0 {
                 if let Some(exclude) = &batch.exclude {
                     if !group.check_exclude(exclude, row_id) {
@@ -580,23 +605,10 @@ impl Funnel {
                         continue;
                     }
                 }
-
-                if cur_ts - group.steps[0].ts > self.window.num_milliseconds() {
-                    group.push_result(&self.filter, &self.time_interval);
-                    #[cfg(test)]
-                    self.debug.push(batch_id, row_id, DebugStep::OutOfWindow);
-                    group.steps[0] = group.steps[group.cur_step].clone();
-                    group.cur_step = 0;
-                    group.steps_completed = 0;
-                    // don't continue
-                }
             }
             if group.cur_step == 0 {
-                if batch.constants.is_some() {
-                    group.const_row = Some(Row {
-                        row_id,
-                        _batch_id: batch_id,
-                    })
+                if let Some(constants) = &batch.constants {
+                    group.const_row = Some((row_id, constants.to_owned()))
                 }
             } else {
                 // compare current value with constant
@@ -615,36 +627,12 @@ impl Funnel {
                 }
             }
 
-            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
-                group.push_result(&self.filter, &self.time_interval);
-                #[cfg(test)]
-                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
-                group.cur_partition = partitions.value(row_id);
-                self.cur_partition = partitions.value(row_id);
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_step = 0;
-                group.skip = false;
-                group.steps_completed = 0;
-            }
-            let mut matched = false;
-            match &self.steps_orders[group.cur_step] {
-                StepOrder::Exact => {
-                    matched = batch.steps[group.cur_step].value(row_id);
-                }
-                StepOrder::Any(pairs) => {
-                    for (from, to) in pairs {
-                        for step in *from..=*to {
-                            matched = batch.steps[step].value(row_id);
-                            if matched {
-                                break;
-                            }
-                        }
-                    }
-                }
-            }
+            let matched = match &self.steps_orders[group.cur_step] {
+                StepOrder::Exact => batch.steps[group.cur_step].value(row_id),
+                StepOrder::Any(pairs) => pairs.iter().any(|(from, to)| {
+                    (*from..=*to).any(|step| batch.steps[step].value(row_id))
+                }),
+            };
             if matched {
                 group.steps_completed += 1;
 
-- 
2.43.0


From 20946bf493df8753970d18e193b8633ffa54a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 073/106] fix: skip all rows of users that have completed a
 funnel

---
 .../aggregate/partitioned/funnel/funnel.rs        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 51fb4f9..f93ba9c 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -529,19 +529,22 @@ impl Funnel {
         let mut batch_id = self.batch_id;
         loop {
             if self.skip_partition {
-                while self.cur_partition == partitions.value(row_id)
-                    && row_id < batch.num_rows() - 1
-                {
+                while row_id < batch.num_rows() && self.cur_partition == partitions.value(row_id) {
                     row_id += 1;
                 }
+                // partition may go on in the next batch
+                if row_id >= batch.num_rows() {
+                    break;
+                }
                 self.skip_partition = false;
             }
             if let Some(exists) = partition_exist {
-                while !exists.contains_key(&partitions.value(row_id))
-                    && row_id < batch.num_rows() - 1
-                {
+                while row_id < batch.num_rows() && !exists.contains_key(&partitions.value(row_id)) {
                     row_id += 1;
                 }
+                if row_id >= batch.num_rows() {
+                    break;
+                }
             }
             let group = if let Some(groups) = &mut self.groups {
                 groups
-- 
2.43.0


From 159242ef985258c6efb299c7bba78491554b5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 074/106] fix: leave rows without a user and unknown conditions
 out of funnels

---
 .../aggregate/partitioned/funnel/funnel.rs    | 11 +++++++
 .../aggregate/partitioned/funnel/mod.rs       | 31 +++++++++----------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index f93ba9c..db937e5 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -9,6 +9,8 @@ use arrow::array::Int64Array;
 use arrow::array::Int64Builder;
 use arrow::array::TimestampMillisecondArray;
 use arrow::compute::concat;
+use arrow::compute::filter_record_batch;
+use arrow::compute::is_not_null;
 use arrow::compute::take;
 use arrow::datatypes::DataType;
 use arrow::datatypes::Field;
@@ -484,6 +486,15 @@ impl Funnel {
         batch: &RecordBatch,
         partition_exist: Option<&HashMap<i64, (), RandomState>>,
     ) -> crate::Result<()> {
+        // rows of no partition don't take part in funnels
+        let partitions = self
+            .partition_col
+            .evaluate(batch)?
+            .into_array(batch.num_rows())?;
+        let batch = &filter_record_batch(batch, &is_not_null(&partitions)?)?;
+        if batch.num_rows() == 0 {
+            return Ok(());
+        }
         let funnel_batch = evaluate_batch(
             batch.to_owned(),
             &self.steps_expr,
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
index 6d00086..6af75ab 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
@@ -1,8 +1,10 @@
 use std::sync::Arc;
 
+use arrow::array::Array;
 use arrow::array::BooleanArray;
 use arrow::array::Int64Array;
 use arrow::array::TimestampMillisecondArray;
+use arrow::compute::prep_null_mask_filter;
 use arrow::datatypes::Schema;
 use arrow::record_batch::RecordBatch;
 use chrono::Duration;
@@ -111,6 +113,17 @@ impl Batch {
     }
 }
 
+// evaluate expr to bool result. Unknown is not a match
+fn evaluate_bool(batch: &RecordBatch, expr: &PhysicalExprRef) -> Result<BooleanArray> {
+    let arr = expr.evaluate(batch)?.into_array(batch.num_rows())?;
+    let arr = arr.as_any().downcast_ref::<BooleanArray>().unwrap();
+
+    Ok(match arr.null_count() {
+        0 => arr.clone(),
+        _ => prep_null_mask_filter(arr),
+    })
+}
+
 // calculate expressions
 fn evaluate_batch(
     batch: RecordBatch,
@@ -123,14 +136,7 @@ fn evaluate_batch(
     let mut steps = vec![];
     // evaluate steps
     for expr in steps_expr.iter() {
-        // evaluate expr to bool result
-        let arr = expr
-            .evaluate(&batch)?
-            .into_array(0)?
-            .as_any()
-            .downcast_ref::<BooleanArray>()
-            .unwrap()
-            .clone();
+        let arr = evaluate_bool(&batch, expr)?;
         // add steps to state
         steps.push(arr);
     }
@@ -138,14 +144,7 @@ fn evaluate_batch(
     let mut exclude = Some(vec![]);
     if let Some(exprs) = &exclude_expr {
         for expr in exprs.iter() {
-            let arr = expr
-                .expr
-                .evaluate(&batch)?
-                .into_array(0)?
-                .as_any()
-                .downcast_ref::<BooleanArray>()
-                .unwrap()
-                .clone();
+            let arr = evaluate_bool(&batch, &expr.expr)?;
             if let Some(exclude) = &mut exclude {
                 let excl = Exclude {
                     exists: arr,
-- 
2.43.0


From aca48c1f8655e5a2df9c16a9a12ef341c020d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 075/106] fix: store session events at their time in
 milliseconds

---
 src/cmd/src/lib.rs                           | 2 +-
 src/ingester/src/destinations/local/track.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 1ada380..2ebe804 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -397,7 +397,7 @@ fn init_session_cleaner(
                             vec![
                                 NamedValue::new(
                                     COLUMN_CREATED_AT.to_string(),
-                                    Value::Timestamp(Some(now.timestamp())),
+                                    Value::Timestamp(Some(now.timestamp_millis())),
                                 ),
                                 NamedValue::new(
                                     COLUMN_EVENT_ID.to_string(),
diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index fbf3398..9641450 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -238,7 +238,7 @@ impl Destination<Track> for Local {
                 vec![
                     NamedValue::new(
                         COLUMN_CREATED_AT.to_string(),
-                        Value::Timestamp(Some(req.timestamp.timestamp())),
+                        Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                     ),
                     NamedValue::new(
                         COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From c2e13a5fbc91f65ba1db6f27caffcbbef152471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 076/106] fix: merge a visitor with the user named in the same
 request

---
 src/ingester/src/executor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index aa7dea7..d0af1d5 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -167,7 +167,7 @@ impl Executor<Track> {
 
                 (id, None)
             }
-            (Some(aid), Some(uid)) => {
+            (Some(uid), Some(aid)) => {
                 let group = self.md.groups.merge_with_anonymous(
                     ctx.project_id.unwrap(),
                     GROUP_USER_ID as u64,
@@ -175,7 +175,14 @@ impl Executor<Track> {
                     uid.as_str(),
                     vec![],
                 )?;
-                (group.id, None)
+                self.md.dictionaries.create_key(
+                    ctx.project_id.unwrap(),
+                    TABLE_EVENTS,
+                    group_col(GROUP_USER_ID).as_str(),
+                    group.id,
+                    uid.as_str(),
+                )?;
+                (group.id, Some(group))
             }
             _ => {
                 return Err(IngesterError::BadRequest(
-- 
2.43.0


From 0ed72d7e8e84c2e088c814c48e2718e15a43ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 077/106] fix: encode texts of group records in the dictionary
 of their group

---
 src/ingester/src/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index d0af1d5..72ff6be 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -314,7 +314,7 @@ impl Executor<Identify> {
             for prop in props {
                 let v = property_to_value(
                     &ctx,
-                    group_col(req.group_id as usize).as_str(),
+                    group_col(group.id as usize).as_str(),
                     prop,
                     &self.md.dictionaries,
                 )?;
-- 
2.43.0


From 9d2509105c3cd953ffb3ac26506cdd65ee1c926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 078/106] fix: refuse events of nobody before anything is
 created

---
 src/ingester/src/executor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 72ff6be..6fdd437 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -120,6 +120,11 @@ impl Executor<Track> {
     pub fn execute(&self, ctx: &RequestContext, mut req: Track) -> Result<()> {
         let init_time = Instant::now();
 
+        if req.user_id.is_none() && req.anonymous_id.is_none() {
+            return Err(IngesterError::BadRequest(
+                "user_id or anonymous_id must be set".to_string(),
+            ));
+        }
         let project = self.md.projects.get_by_token(ctx.token.as_str())?;
         let mut ctx = ctx.to_owned();
         ctx.project_id = Some(project.id);
-- 
2.43.0


From 95f5b91aea2de2ee2d0a11808d0464bfa3b5d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 079/106] fix: refuse properties that the system sets

---
 src/ingester/src/executor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 6fdd437..c9b0160 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -73,6 +73,11 @@ fn resolve_property(
     };
 
     let prop = properties.get_or_create(ctx.project_id.unwrap(), req)?;
+    if prop.is_system {
+        return Err(IngesterError::BadRequest(format!(
+            "property \"{name}\" is set by the system"
+        )));
+    }
 
     Ok(PropertyAndValue {
         property: prop,
-- 
2.43.0


From cfeb1be63577ac578cd0ccd49dbcc8ec60b6d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 080/106] fix: begin a session only when its event can be
 stored

---
 src/ingester/src/destinations/local/track.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index 9641450..2053ff5 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -43,13 +43,6 @@ impl Local {
 
 impl Destination<Track> for Local {
     fn send(&self, ctx: &RequestContext, req: Track) -> Result<()> {
-        let ts = Utc::now();
-        let is_new_session = self.md.sessions.set_current_time(
-            ctx.project_id.unwrap(),
-            req.resolved_user_id.unwrap() as u64,
-            ts,
-        )?;
-
         // fill group id for each of GROUPS_COUNT groups
         let groups = if let Some(groups) = &req.resolved_group_values {
             let mut found = HashMap::new();
@@ -210,6 +203,12 @@ impl Destination<Track> for Local {
         } else {
             vec![]
         };
+        let ts = Utc::now();
+        let is_new_session = self.md.sessions.set_current_time(
+            ctx.project_id.unwrap(),
+            req.resolved_user_id.unwrap() as u64,
+            ts,
+        )?;
         if is_new_session {
             let record_id = self
                 .md
-- 
2.43.0


From b0a2eff7a77c6f0333bd7d9266330a219fd2e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 081/106] fix: store values in the form of their columns,
 refuse those that do not fit

---
 src/ingester/src/error.rs    |  1 +
 src/ingester/src/executor.rs |  2 +-
 src/ingester/src/lib.rs      | 47 +++++++++++++++++++++++++++---------
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/ingester/src/error.rs b/src/ingester/src/error.rs
index 57fa152..b0549f9 100644
--- a/src/ingester/src/error.rs
+++ b/src/ingester/src/error.rs
@@ -36,6 +36,7 @@ impl IntoResponse for IngesterError {
             IngesterError::Metadata(err) => match err {
                 MetadataError::AlreadyExists(err) => ApiError::conflict(err).into_response(),
                 MetadataError::NotFound(err) => ApiError::not_found(err).into_response(),
+                MetadataError::BadRequest(err) => ApiError::bad_request(err).into_response(),
                 MetadataError::Internal(err) => ApiError::internal(err).into_response(),
                 _ => ApiError::internal(err.to_string()).into_response(),
             },
diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index c9b0160..aa59630 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -44,7 +44,7 @@ fn resolve_property(
     val: PropValue,
 ) -> Result<PropertyAndValue> {
     let data_type = match val {
-        PropValue::Date(_) => DType::Int64,
+        PropValue::Date(_) => DType::Timestamp,
         PropValue::String(_) => DType::String,
         PropValue::Number(_) => DType::Decimal,
         PropValue::Bool(_) => DType::Boolean,
diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0f0717a..51589dd 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -5,6 +5,8 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::types::DType;
+use common::DECIMAL_PRECISION;
+use common::DECIMAL_SCALE;
 use error::Result;
 use metadata::dictionaries::Dictionaries;
 use metadata::events;
@@ -112,24 +114,45 @@ fn property_to_value(
                 DictionaryType::Int64 => Value::Int64(Some(dict_id as i64)),
             }
         } else {
-            return Err(IngesterError::Internal(
-                "property should be string".to_string(),
-            ));
+            return Err(IngesterError::BadRequest(format!(
+                "value of property \"{}\" should be a string",
+                prop.property.name
+            )));
         }
     } else {
+        let out_of_range = || {
+            IngesterError::BadRequest(format!(
+                "value of property \"{}\" is out of range",
+                prop.property.name
+            ))
+        };
         match (&prop.property.data_type, &prop.value) {
             (DType::String, PropValue::String(v)) => Value::String(Some(v.to_owned())),
-            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().unwrap())), /* todo change to mantissa */
-            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
-            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
-            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
-            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
+            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().ok_or_else(out_of_range)?)), /* todo change to mantissa */
+            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().ok_or_else(out_of_range)?)),
+            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().ok_or_else(out_of_range)?)),
+            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().ok_or_else(out_of_range)?)),
+            (DType::Decimal, PropValue::Number(v)) => {
+                // columns hold mantissas of the engine's scale
+                let mut v = *v;
+                v.rescale(DECIMAL_SCALE as u32);
+                let mantissa = v.mantissa();
+                if v.scale() != DECIMAL_SCALE as u32
+                    || mantissa.abs() >= 10i128.pow(DECIMAL_PRECISION as u32)
+                {
+                    return Err(out_of_range());
+                }
+                Value::Decimal(Some(mantissa))
+            }
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
-            (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
+            (DType::Timestamp, PropValue::Date(v)) => {
+                Value::Timestamp(Some(v.timestamp_millis()))
+            }
             _ => {
-                return Err(IngesterError::Internal(
-                    "property should be a string".to_string(),
-                ));
+                return Err(IngesterError::BadRequest(format!(
+                    "value of property \"{}\" should be of type {:?}",
+                    prop.property.name, prop.property.data_type
+                )));
             }
         }
     };
-- 
2.43.0


From 12bfda6b45ae419bbf56dc7d6ba75d017c89a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 082/106] fix: refuse filter values that have no meaning and
 keep the exact numbers of others

---
 src/platform/src/lib.rs        | 50 ++++++++++++++++++++++++++++++----
 src/platform/src/properties.rs |  2 ++
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index d5e934b..9ac65db 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -66,6 +66,7 @@ use query::properties::PropertiesProvider;
 use rust_decimal::prelude::ToPrimitive;
 use rust_decimal::Decimal;
 use serde::Deserialize;
+use serde::Deserializer;
 use serde::Serialize;
 use serde_json::json;
 use serde_json::Number;
@@ -306,11 +307,41 @@ where
     }
 }
 
+fn number_to_decimal(n: &Number) -> Option<Decimal> {
+    if let Some(v) = n.as_i64() {
+        Some(Decimal::from(v))
+    } else if let Some(v) = n.as_u64() {
+        Some(Decimal::from(v))
+    } else {
+        Decimal::try_from(n.as_f64()?).ok()
+    }
+}
+
+/// Values of filters can be booleans, strings and numbers in the range of decimals
+pub(crate) fn deserialize_filter_values<'de, D>(
+    deserializer: D,
+) -> std::result::Result<Option<Vec<Value>>, D::Error>
+where D: Deserializer<'de> {
+    let values = Option::<Vec<Value>>::deserialize(deserializer)?;
+    for value in values.iter().flatten() {
+        match value {
+            Value::Bool(_) | Value::String(_) => {}
+            Value::Number(n) if number_to_decimal(n).is_some() => {}
+            _ => {
+                return Err(serde::de::Error::custom(format!(
+                    "unsupported filter value \"{value}\""
+                )));
+            }
+        }
+    }
+    Ok(values)
+}
+
 pub fn json_value_to_scalar(v: &Value) -> ScalarValue {
     match v {
         Value::Bool(v) => ScalarValue::Boolean(Some(*v)),
         Value::Number(n) => {
-            let dec = Decimal::try_from(n.as_f64().unwrap()).unwrap();
+            let dec = number_to_decimal(n).expect("number is out of range");
             ScalarValue::Decimal128(Some(dec.mantissa()), DECIMAL_PRECISION, dec.scale() as i8)
         }
         Value::String(v) => ScalarValue::Utf8(Some(v.to_string())),
@@ -323,9 +354,14 @@ pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
         ScalarValue::Decimal128(None, _, _) => Value::Null,
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
-        ScalarValue::Decimal128(Some(v), _p, s) => Value::Number(
-            Number::from_f64(Decimal::new(*v as i64, *s as u32).to_f64().unwrap()).unwrap(),
-        ),
+        ScalarValue::Decimal128(Some(v), _p, s) => {
+            let dec = Decimal::from_i128_with_scale(*v, *s as u32);
+            match (dec.scale(), dec.to_i64(), dec.to_u64()) {
+                (0, Some(v), _) => json!(v),
+                (0, _, Some(v)) => json!(v),
+                _ => Value::Number(Number::from_f64(dec.to_f64().unwrap()).unwrap()),
+            }
+        }
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
         ScalarValue::Utf8(Some(v)) => Value::String(v.to_owned()),
         _ => unreachable!("unexpected value"),
@@ -507,7 +543,11 @@ pub enum PropValueFilter {
         #[serde(flatten)]
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            skip_serializing_if = "Option::is_none",
+            deserialize_with = "deserialize_filter_values"
+        )]
         value: Option<Vec<Value>>,
     },
     // #[serde(rename_all = "camelCase")]
diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 4b56e2f..596fc11 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -15,6 +15,7 @@ use serde::Serialize;
 use serde_json::Value;
 
 use crate::array_ref_to_json_values;
+use crate::deserialize_filter_values;
 use crate::json_value_to_scalar;
 use crate::validate_event_filter_property;
 use crate::Context;
@@ -342,6 +343,7 @@ pub struct UpdatePropertyRequest {
 #[serde(rename_all = "camelCase")]
 pub struct Filter {
     pub operation: PropValueOperation,
+    #[serde(default, deserialize_with = "deserialize_filter_values")]
     pub value: Option<Vec<Value>>,
 }
 
-- 
2.43.0


From 461d3a4232cab36356a10a310bf92e11091c0364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 083/106] fix: accept filters comparing 32-bit integers and
 filters that need no value

---
 src/platform/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 9ac65db..4bb48ff 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1496,7 +1496,12 @@ pub fn validate_event_filter_property(
         | PropValueOperation::Gte
         | PropValueOperation::Lt
         | PropValueOperation::Lte => match prop.data_type {
-            DType::Int8 | DType::Int16 | DType::Int64 | DType::Decimal | DType::Timestamp => {}
+            DType::Int8
+            | DType::Int16
+            | DType::Int32
+            | DType::Int64
+            | DType::Decimal
+            | DType::Timestamp => {}
             _ => {
                 return Err(PlatformError::BadRequest(format!(
                     "{err_prefix}property \"{}\" is not numeric, but operation is \"{:?}\"",
@@ -1537,7 +1542,7 @@ pub fn validate_event_filter_property(
     }
     match value {
         None => {
-            if !prop.nullable {
+            if !allow_empty_values && !prop.nullable {
                 return Err(PlatformError::BadRequest(format!(
                     "{err_prefix}property \"{}\" is not nullable",
                     prop.name
-- 
2.43.0


From 2b550a159159b208b558a8f960925475d38ecaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 084/106] fix: validate groups, properties and filters wherever
 requests name them

---
 src/platform/src/event_records.rs      | 13 ++++-----
 src/platform/src/event_segmentation.rs | 37 ++++++++++++++++++++++----
 src/platform/src/funnel.rs             | 19 +++++++++----
 src/platform/src/group_records.rs      | 15 ++++++-----
 src/platform/src/http/mod.rs           | 10 +++++++
 src/platform/src/http/properties.rs    | 12 ++++-----
 src/platform/src/lib.rs                | 13 +++++++--
 src/platform/src/properties.rs         |  3 ++-
 8 files changed, 91 insertions(+), 31 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 4eed8b4..9827611 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -11,6 +11,7 @@ use serde::Deserialize;
 use serde::Serialize;
 
 use crate::scalar_to_json;
+use crate::group_properties;
 use crate::validate_event;
 use crate::validate_event_filter;
 use crate::Context;
@@ -241,12 +242,12 @@ pub(crate) fn validate_search_request(
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 if filter_group.filters.is_empty() {
                     return Err(PlatformError::BadRequest(
                         "filters field can't be empty".to_string(),
@@ -267,7 +268,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 095dfd0..79f393d 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -583,22 +583,49 @@ pub(crate) fn validate_request(
             None => {}
         }
 
+        for (idx, breakdown) in event.breakdowns.iter().flatten().enumerate() {
+            match breakdown {
+                Breakdown::Property { property } => {
+                    validate_event_property(
+                        md,
+                        project_id,
+                        property,
+                        format!("event #{event_id}, breakdown {idx}"),
+                    )?;
+                }
+            }
+        }
+
         if event.queries.is_empty() {
             return Err(PlatformError::BadRequest(
                 format!("event #{event_id}, \"queries\" field can't be empty").to_string(),
             ));
         }
+        for (idx, query) in event.queries.iter().enumerate() {
+            match query {
+                Query::AggregatePropertyPerGroup { property, .. }
+                | Query::AggregateProperty { property, .. } => {
+                    validate_event_property(
+                        md,
+                        project_id,
+                        property,
+                        format!("event #{event_id}, query {idx}"),
+                    )?;
+                }
+                _ => {}
+            }
+        }
     }
 
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 if filter_group.filters.is_empty() {
                     return Err(PlatformError::BadRequest(
                         "filters field can't be empty".to_string(),
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 5a64fe5..c381830 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -197,6 +197,15 @@ pub(crate) fn validate_request(
                 exclude_id,
                 format!("exclude #{exclude_id}, "),
             )?;
+            for (filter_id, filter) in exclude.filters.iter().flatten().enumerate() {
+                validate_event_filter(
+                    md,
+                    project_id,
+                    filter,
+                    filter_id,
+                    format!("exclude #{exclude_id}, "),
+                )?;
+            }
             match &exclude.steps {
                 Some(steps) => match steps {
                     ExcludeSteps::Between { from, to } => {
@@ -273,12 +282,12 @@ pub(crate) fn validate_request(
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 for (filter_id, filter) in filter_group.filters.iter().enumerate() {
                     validate_event_filter(md, project_id, filter, filter_id, "".to_string())?;
                 }
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 4b3ddc2..207da67 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -13,6 +13,7 @@ use serde::Deserialize;
 use serde::Serialize;
 use serde_json::Value;
 
+use crate::group_properties;
 use crate::validate_event_filter;
 use crate::Context;
 use crate::EventGroupedFilters;
@@ -48,6 +49,7 @@ impl GroupRecords {
             project_id,
             ProjectPermission::ExploreReports,
         )?;
+        group_properties(&self.md, group_id)?;
         let ctx = query::Context {
             project_id,
             format: Format::Regular,
@@ -145,6 +147,7 @@ pub(crate) fn validate_search_request(
     project_id: u64,
     req: &GroupRecordsSearchRequest,
 ) -> Result<()> {
+    group_properties(md, req.group)?;
     if let Some(QueryTime::Between { from, to }) = &req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
@@ -156,12 +159,12 @@ pub(crate) fn validate_search_request(
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 if filter_group.filters.is_empty() {
                     return Err(PlatformError::BadRequest(
                         "filters field can't be empty".to_string(),
@@ -187,7 +190,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/http/mod.rs b/src/platform/src/http/mod.rs
index 101ac02..85ba1b7 100644
--- a/src/platform/src/http/mod.rs
+++ b/src/platform/src/http/mod.rs
@@ -32,7 +32,9 @@ use tower_http::services::ServeFile;
 use tower_http::trace::TraceLayer;
 
 use crate::properties::Properties;
+use crate::PlatformError;
 use crate::PlatformProvider;
+use crate::Result;
 
 pub struct Service {}
 
@@ -42,6 +44,14 @@ pub struct PropertiesLayer {
     groups: Vec<Arc<Properties>>,
 }
 
+impl PropertiesLayer {
+    fn group(&self, id: usize) -> Result<&Arc<Properties>> {
+        self.groups
+            .get(id)
+            .ok_or_else(|| PlatformError::NotFound(format!("group {id}")))
+    }
+}
+
 pub fn attach_routes(
     mut router: Router,
     md: &Arc<MetadataProvider>,
diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index c906d5e..94f114a 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -29,10 +29,10 @@ async fn get_event_by_id(
 async fn get_group_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
-    Path((project_id, property_id, group_id)): Path<(u64, u64, usize)>,
+    Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .get_by_id(ctx, project_id, property_id)
             .await?,
     ))
@@ -57,7 +57,7 @@ async fn get_group_by_name(
     Path((project_id, group_id, prop_name)): Path<(u64, usize, String)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .get_by_name(ctx, project_id, &prop_name)
             .await?,
     ))
@@ -76,7 +76,7 @@ async fn list_group(
     Extension(provider): Extension<PropertiesLayer>,
     Path((project_id, group_id)): Path<(u64, usize)>,
 ) -> Result<Json<ListResponse<Property>>> {
-    Ok(Json(provider.groups[group_id].list(ctx, project_id).await?))
+    Ok(Json(provider.group(group_id)?.list(ctx, project_id).await?))
 }
 
 async fn update_event(
@@ -100,7 +100,7 @@ async fn update_group(
     Json(request): Json<UpdatePropertyRequest>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .update(ctx, project_id, prop_id, request)
             .await?,
     ))
@@ -122,7 +122,7 @@ async fn delete_group(
     Path((project_id, group_id, prop_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .delete(ctx, project_id, prop_id)
             .await?,
     ))
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 4bb48ff..fad3a3c 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1436,6 +1436,15 @@ pub struct PropertyAndValue {
     value: Value,
 }
 
+pub(crate) fn group_properties(
+    md: &Arc<MetadataProvider>,
+    group: usize,
+) -> crate::Result<&Arc<metadata::properties::Properties>> {
+    md.group_properties
+        .get(group)
+        .ok_or_else(|| PlatformError::BadRequest("group id is out of range".to_string()))
+}
+
 pub fn validate_event_property(
     md: &Arc<MetadataProvider>,
     project_id: u64,
@@ -1447,7 +1456,7 @@ pub fn validate_event_property(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?;
         }
@@ -1477,7 +1486,7 @@ pub fn validate_event_filter_property(
         PropertyRef::Group {
             property_name,
             group,
-        } => md.group_properties[*group]
+        } => group_properties(md, *group)?
             .get_by_name(project_id, property_name)
             .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?,
         PropertyRef::Event { property_name } => md
diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 596fc11..d5d3dd5 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -16,6 +16,7 @@ use serde_json::Value;
 
 use crate::array_ref_to_json_values;
 use crate::deserialize_filter_values;
+use crate::group_properties;
 use crate::json_value_to_scalar;
 use crate::validate_event_filter_property;
 use crate::Context;
@@ -400,7 +401,7 @@ pub(crate) fn validate_request(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err}")))?;
         }
-- 
2.43.0


From 55c1542d9fad81b42669c2246fce94ca588095a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 085/106] fix: refuse query timestamps out of range

---
 src/platform/src/event_records.rs      |  6 +-----
 src/platform/src/event_segmentation.rs |  7 +------
 src/platform/src/funnel.rs             |  7 +------
 src/platform/src/group_records.rs      |  6 +-----
 src/platform/src/lib.rs                | 12 ++++++++++++
 5 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 9827611..baa3494 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -1,6 +1,5 @@
 use std::sync::Arc;
 
-use chrono::DateTime;
 use chrono::Utc;
 use common::rbac::ProjectPermission;
 use metadata::MetadataProvider;
@@ -68,10 +67,7 @@ impl EventRecords {
         )?;
         validate_search_request(&self.md, project_id, &req)?;
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 79f393d..0909380 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -1,7 +1,5 @@
 use std::sync::Arc;
 
-use chrono::DateTime;
-use chrono::Utc;
 use common::event_segmentation::NamedQuery;
 use common::rbac::ProjectPermission;
 use common::GROUPS_COUNT;
@@ -59,10 +57,7 @@ impl EventSegmentation {
         let lreq = fix_request(&self.md, project_id, lreq)?;
         dbg!(&lreq);
 
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index c381830..f483760 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -1,8 +1,6 @@
 use std::collections::HashMap;
 use std::sync::Arc;
 
-use chrono::DateTime;
-use chrono::Utc;
 use common::rbac::ProjectPermission;
 use common::GROUPS_COUNT;
 use metadata::MetadataProvider;
@@ -57,10 +55,7 @@ impl Funnel {
         validate_request(&self.md, project_id, &req)?;
         let req = fix_request(&self.md, project_id, req.into())?;
 
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 207da67..a804fb1 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -1,7 +1,6 @@
 use std::collections::HashMap;
 use std::sync::Arc;
 
-use chrono::DateTime;
 use chrono::Utc;
 use common::rbac::ProjectPermission;
 use metadata::MetadataProvider;
@@ -75,10 +74,7 @@ impl GroupRecords {
         )?;
         validate_search_request(&self.md, project_id, &req)?;
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
-        let cur_time = match query.timestamp {
-            None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
-        };
+        let cur_time = query.cur_time()?;
         let ctx = query::Context {
             project_id,
             format: match &query.format {
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index fad3a3c..382bfc6 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -756,6 +756,18 @@ pub struct QueryParams {
     pub timestamp: Option<i64>,
 }
 
+impl QueryParams {
+    pub(crate) fn cur_time(&self) -> Result<DateTime<Utc>> {
+        match self.timestamp {
+            None => Ok(Utc::now()),
+            Some(ts_sec) => ts_sec
+                .checked_mul(1000)
+                .and_then(DateTime::from_timestamp_millis)
+                .ok_or_else(|| PlatformError::BadRequest("timestamp is out of range".to_string())),
+        }
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
 #[serde(tag = "type", rename_all = "camelCase")]
 pub enum QueryTime {
-- 
2.43.0


From cc8cbc2ef336f08165b15ad6643cb45e5c52a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 086/106] fix: keep members of an organization out of the
 projects of others

---
 src/platform/src/context.rs  | 28 +++++++++++++++++++++++-----
 src/platform/src/http/mod.rs |  1 +
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/context.rs b/src/platform/src/context.rs
index 7ca36ff..6535170 100644
--- a/src/platform/src/context.rs
+++ b/src/platform/src/context.rs
@@ -31,6 +31,8 @@ pub struct Context {
     pub force_update_email: bool,
     pub role: Option<Role>,
     pub organizations: Option<Vec<(u64, OrganizationRole)>>,
+    /// projects of the current organization
+    pub organization_projects: Vec<u64>,
     pub projects: Option<Vec<(u64, ProjectRole)>>,
     pub teams: Option<Vec<(u64, Role)>>,
 }
@@ -102,11 +104,14 @@ impl Context {
         if self.check_permission(Permission::ManageProjects).is_ok() {
             return Ok(());
         }
-        if let Ok(role) = self.get_organization_role(org_id) {
-            match role {
-                OrganizationRole::Owner => return Ok(()),
-                OrganizationRole::Admin => return Ok(()),
-                OrganizationRole::Member => {}
+        // roles in an organization are about its own projects only
+        if self.organization_projects.contains(&project_id) {
+            if let Ok(role) = self.get_organization_role(org_id) {
+                match role {
+                    OrganizationRole::Owner => return Ok(()),
+                    OrganizationRole::Admin => return Ok(()),
+                    OrganizationRole::Member => {}
+                }
             }
         }
 
@@ -179,7 +184,19 @@ where S: Send + Sync
                 .await
                 .map_err(|err| PlatformError::Internal(err.to_string()))?;
 
+        let Extension(md_projects) =
+            Extension::<Arc<metadata::projects::Projects>>::from_request_parts(parts, state)
+                .await
+                .map_err(|err| PlatformError::Internal(err.to_string()))?;
+
         let acc = md_acc_prov.get_by_id(claims.account_id)?;
+        let organization_projects = md_projects
+            .list()?
+            .data
+            .into_iter()
+            .filter(|project| project.organization_id == claims.organization_id)
+            .map(|project| project.id)
+            .collect();
         let ctx = Context {
             account_id: acc.id,
             organization_id: claims.organization_id,
@@ -187,6 +204,7 @@ where S: Send + Sync
             force_update_email: acc.force_update_email,
             role: acc.role,
             organizations: acc.organizations,
+            organization_projects,
             projects: acc.projects,
             teams: acc.teams,
         };
diff --git a/src/platform/src/http/mod.rs b/src/platform/src/http/mod.rs
index 85ba1b7..bba8171 100644
--- a/src/platform/src/http/mod.rs
+++ b/src/platform/src/http/mod.rs
@@ -89,6 +89,7 @@ pub fn attach_routes(
         .layer(Extension(platform.backups.clone()))
         .layer(Extension(platform.settings.clone()))
         .layer(Extension(md.accounts.clone()))
+        .layer(Extension(md.projects.clone()))
         .layer(Extension(md.settings.clone()))
         .layer(Extension(platform.accounts.clone()))
         .layer(Extension(platform.auth.clone()))
-- 
2.43.0


From e29eceed3b05169332c236585c44649b5c623902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 087/106] fix: log in accounts whose last organization is gone

---
 src/platform/src/auth/provider.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 7055321..a6cbc0c 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -112,11 +112,10 @@ impl Auth {
 
         // if org_id is provided, check if the account is a member of the org
         let org_id = if let Some(org_id) = org_id {
-            let org = self.md.organizations.get_by_id(org_id)?;
-            if !org.is_member(account.id) {
-                0
-            } else {
-                org.id
+            match self.md.organizations.get_by_id(org_id) {
+                Ok(org) if org.is_member(account.id) => org.id,
+                Ok(_) | Err(MetadataError::NotFound(_)) => 0,
+                Err(err) => return Err(err.into()),
             }
         } else {
             // find first organization
-- 
2.43.0


From 69bce98bb05f304020d0459d3c9abbaa23549da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 088/106] fix: keep the kind of errors that come through
 queries

---
 src/platform/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/platform/src/error.rs b/src/platform/src/error.rs
index 5eb8680..133cef6 100644
--- a/src/platform/src/error.rs
+++ b/src/platform/src/error.rs
@@ -115,8 +115,8 @@ impl PlatformError {
                 QueryError::Execution(err) => ApiError::internal(err),
                 QueryError::DataFusion(err) => ApiError::internal(err.to_string()),
                 QueryError::Arrow(err) => ApiError::internal(err.to_string()),
-                QueryError::Metadata(err) => ApiError::internal(err.to_string()),
-                QueryError::Common(err) => ApiError::internal(err.to_string()),
+                QueryError::Metadata(err) => PlatformError::Metadata(err).into_api_error(),
+                QueryError::Common(err) => PlatformError::Common(err).into_api_error(),
                 QueryError::Store(err) => ApiError::internal(err.to_string()),
                 QueryError::Other(err) => ApiError::internal(err.to_string()),
                 QueryError::Unimplemented(_) => ApiError::unimplemented(err),
-- 
2.43.0


From acbca89c7fd525104c63eeabbf70147ac4dd4770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 089/106] fix: take requests without filter groups as ones
 without filters

---
 src/platform/src/event_records.rs      | 17 +----------------
 src/platform/src/event_segmentation.rs | 17 +----------------
 src/platform/src/funnel.rs             |  8 +-------
 src/platform/src/group_records.rs      | 17 +----------------
 src/platform/src/lib.rs                | 11 +++++++++++
 5 files changed, 15 insertions(+), 55 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index baa3494..d95f51b 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -171,22 +171,7 @@ impl Into<event_records::EventRecordsSearchRequest> for EventRecordsSearchReques
                     .map(|event| event.into())
                     .collect::<Vec<_>>()
             }),
-            filters: self.filters.map_or_else(
-                || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
-                },
-            ),
+            filters: self.filters.and_then(|v| v.into_filters()),
             properties: self.properties.map(|props| {
                 props
                     .iter()
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 0909380..7388144 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -459,22 +459,7 @@ impl Into<common::event_segmentation::EventSegmentationRequest> for EventSegment
             analysis: self.analysis.into(),
             compare: self.compare.map(|v| v.into()),
             events: self.events.iter().map(|v| v.into()).collect::<Vec<_>>(),
-            filters: self.filters.map_or_else(
-                || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
-                },
-            ),
+            filters: self.filters.and_then(|v| v.into_filters()),
             breakdowns: self.breakdowns.map_or_else(
                 || None,
                 |v| {
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index f483760..e6ffccb 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -749,13 +749,7 @@ impl Into<common::funnel::Funnel> for FunnelRequest {
             segments: self
                 .segments
                 .map(|s| s.iter().map(|s| s.to_owned().into()).collect::<Vec<_>>()),
-            filters: self.filters.map(|v| {
-                v.groups[0]
-                    .filters
-                    .iter()
-                    .map(|f| f.to_owned().into())
-                    .collect::<Vec<_>>()
-            }),
+            filters: self.filters.and_then(|v| v.into_filters()),
         }
     }
 }
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index a804fb1..28818fa 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -111,22 +111,7 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
         group_records::GroupRecordsSearchRequest {
             time: self.time.map(|t| t.into()),
             group_id: self.group,
-            filters: self.filters.map_or_else(
-                || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
-                },
-            ),
+            filters: self.filters.and_then(|v| v.into_filters()),
             properties: self.properties.map(|props| {
                 props
                     .iter()
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 382bfc6..c834997 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -741,6 +741,17 @@ pub struct EventGroupedFilters {
     pub groups: Vec<EventGroupedFilterGroup>,
 }
 
+impl EventGroupedFilters {
+    pub(crate) fn into_filters(self) -> Option<Vec<common::query::PropValueFilter>> {
+        let group = self.groups.into_iter().next()?;
+        if group.filters.is_empty() {
+            return None;
+        }
+
+        Some(group.filters.into_iter().map(|f| f.into()).collect())
+    }
+}
+
 // queries
 
 #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
-- 
2.43.0


From c73f3b1780c209ed1bb8a367f983dfb3d8b47e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 090/106] fix: let accounts be changed in part

---
 src/platform/src/accounts.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 645cb7f..c99b44e 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -75,6 +75,7 @@ impl Accounts {
             organizations: req.organizations,
             projects: req.projects,
             teams: req.teams,
+            force_update_password: req.force_update_password,
             ..Default::default()
         };
         if let OptionalProperty::Some(password) = req.password {
@@ -162,13 +163,22 @@ pub struct CreateAccountRequest {
 #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 #[serde(rename_all = "camelCase")]
 pub struct UpdateAccountRequest {
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub salt: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub password: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub email: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub name: OptionalProperty<Option<String>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub force_update_password: OptionalProperty<bool>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub role: OptionalProperty<Option<Role>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub organizations: OptionalProperty<Option<Vec<(u64, OrganizationRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub projects: OptionalProperty<Option<Vec<(u64, ProjectRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub teams: OptionalProperty<Option<Vec<(u64, Role)>>>,
 }
-- 
2.43.0


From c124f19c95a3b8dbcdb7ac9a78a85833090d99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 091/106] fix: find events by name

---
 src/platform/src/http/events.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/platform/src/http/events.rs b/src/platform/src/http/events.rs
index 0837c3c..064b794 100644
--- a/src/platform/src/http/events.rs
+++ b/src/platform/src/http/events.rs
@@ -38,8 +38,7 @@ async fn get_by_id(
 async fn get_by_name(
     ctx: Context,
     Extension(provider): Extension<Arc<Events>>,
-    Path(project_id): Path<u64>,
-    Path(event_name): Path<String>,
+    Path((project_id, event_name)): Path<(u64, String)>,
 ) -> Result<Json<Event>> {
     Ok(Json(
         provider.get_by_name(ctx, project_id, &event_name).await?,
-- 
2.43.0


From eabc19c7a7baf8f093d1ffc70b0c75b1dee2e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 092/106] fix: refuse addresses that accounts cannot log in
 with

---
 src/platform/src/accounts.rs      | 10 ++++++++++
 src/platform/src/auth/provider.rs |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index c99b44e..2e5fc59 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -10,11 +10,13 @@ use common::types::OptionalProperty;
 use metadata::accounts::Accounts as MDAccounts;
 use serde::Deserialize;
 use serde::Serialize;
+use validator::validate_email;
 
 use crate::auth::password::make_password_hash;
 use crate::auth::provider::Profile;
 use crate::Context;
 use crate::ListResponse;
+use crate::PlatformError;
 use crate::Result;
 
 pub struct Accounts {
@@ -28,6 +30,9 @@ impl Accounts {
 
     pub async fn create(&self, ctx: Context, req: CreateAccountRequest) -> Result<Account> {
         ctx.check_permission(Permission::ManageAccounts)?;
+        if !validate_email(&req.email) {
+            return Err(PlatformError::invalid_field("email", "invalid email"));
+        }
 
         let md_req = metadata::accounts::CreateAccountRequest {
             created_by: ctx.account_id,
@@ -66,6 +71,11 @@ impl Accounts {
         req: UpdateAccountRequest,
     ) -> Result<Account> {
         ctx.check_permission(Permission::ManageAccounts)?;
+        if let OptionalProperty::Some(email) = &req.email {
+            if !validate_email(email) {
+                return Err(PlatformError::invalid_field("email", "invalid email"));
+            }
+        }
 
         let mut md_req = metadata::accounts::UpdateAccountRequest {
             updated_by: ctx.account_id,
diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index a6cbc0c..850d06b 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -298,6 +298,9 @@ impl Auth {
         if !account.force_update_email {
             return Err(PlatformError::Forbidden("forbidden".to_string()));
         }
+        if !validate_email(&req.email) {
+            return Err(PlatformError::invalid_field("email", "invalid email"));
+        }
         let md_req = UpdateAccountRequest {
             updated_by: ctx.account_id,
             name: OptionalProperty::None,
-- 
2.43.0


From 5abbd3b230ed95ca924c54374ba15d9b364af136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 093/106] fix: number the steps of funnel exclusions from one
 both ways

---
 src/platform/src/funnel.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index e6ffccb..3221273 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::num::NonZeroUsize;
 use std::sync::Arc;
 
 use common::rbac::ProjectPermission;
@@ -204,12 +205,12 @@ pub(crate) fn validate_request(
             match &exclude.steps {
                 Some(steps) => match steps {
                     ExcludeSteps::Between { from, to } => {
-                        if *from >= req.steps.len() {
+                        if from.get() > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: from step index out of range".to_string(),
                             ));
                         }
-                        if *to >= req.steps.len() {
+                        if to.get() > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: to step index out of range".to_string(),
                             ));
@@ -494,7 +495,11 @@ impl Into<StepOrder> for common::funnel::StepOrder {
 #[serde(tag = "type", rename_all = "camelCase")]
 pub enum ExcludeSteps {
     All,
-    Between { from: usize, to: usize },
+    // numbers of steps, the first one is 1
+    Between {
+        from: NonZeroUsize,
+        to: NonZeroUsize,
+    },
 }
 
 #[allow(clippy::all)]
@@ -503,7 +508,7 @@ impl Into<common::funnel::ExcludeSteps> for ExcludeSteps {
         match self {
             ExcludeSteps::All => common::funnel::ExcludeSteps::All,
             ExcludeSteps::Between { from, to } => {
-                common::funnel::ExcludeSteps::Between(from - 1, to - 1)
+                common::funnel::ExcludeSteps::Between(from.get() - 1, to.get() - 1)
             }
         }
     }
@@ -514,7 +519,10 @@ impl Into<ExcludeSteps> for common::funnel::ExcludeSteps {
     fn into(self) -> ExcludeSteps {
         match self {
             common::funnel::ExcludeSteps::All => ExcludeSteps::All,
-            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between { from, to },
+            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between {
+                from: NonZeroUsize::MIN.saturating_add(from),
+                to: NonZeroUsize::MIN.saturating_add(to),
+            },
         }
     }
 }
-- 
2.43.0


From 24d78d7966cb847ca36aedd9c9ab7030437c277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 094/106] fix: take segments of times from a moment on

---
 src/platform/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index c834997..75ab041 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1023,7 +1023,9 @@ pub enum SegmentTime {
         from: DateTime<Utc>,
         to: DateTime<Utc>,
     },
-    From(DateTime<Utc>),
+    From {
+        from: DateTime<Utc>,
+    },
     Last {
         last: i64,
         unit: TimeIntervalUnit,
@@ -1043,7 +1045,7 @@ impl Into<common::query::SegmentTime> for SegmentTime {
     fn into(self) -> common::query::SegmentTime {
         match self {
             SegmentTime::Between { from, to } => common::query::SegmentTime::Between { from, to },
-            SegmentTime::From(v) => common::query::SegmentTime::From(v),
+            SegmentTime::From { from } => common::query::SegmentTime::From(from),
             SegmentTime::Last { last: n, unit } => common::query::SegmentTime::Last {
                 n,
                 unit: unit.into(),
@@ -1157,7 +1159,7 @@ impl Into<SegmentTime> for common::query::SegmentTime {
     fn into(self) -> SegmentTime {
         match self {
             common::query::SegmentTime::Between { from, to } => SegmentTime::Between { from, to },
-            common::query::SegmentTime::From(from) => SegmentTime::From(from),
+            common::query::SegmentTime::From(from) => SegmentTime::From { from },
             common::query::SegmentTime::Last { n, unit } => SegmentTime::Last {
                 last: n,
                 unit: unit.into(),
-- 
2.43.0


From e1954f97c3d510cc341ae82dbd6e06f0bf1a1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 095/106] fix: refuse values that have no meaning in segments

---
 src/platform/src/lib.rs | 42 ++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 75ab041..2bf222a 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -324,19 +324,30 @@ pub(crate) fn deserialize_filter_values<'de, D>(
 where D: Deserializer<'de> {
     let values = Option::<Vec<Value>>::deserialize(deserializer)?;
     for value in values.iter().flatten() {
-        match value {
-            Value::Bool(_) | Value::String(_) => {}
-            Value::Number(n) if number_to_decimal(n).is_some() => {}
-            _ => {
-                return Err(serde::de::Error::custom(format!(
-                    "unsupported filter value \"{value}\""
-                )));
-            }
-        }
+        check_filter_value(value).map_err(serde::de::Error::custom)?;
     }
     Ok(values)
 }
 
+pub(crate) fn deserialize_filter_value<'de, D>(
+    deserializer: D,
+) -> std::result::Result<Option<Value>, D::Error>
+where D: Deserializer<'de> {
+    let value = Option::<Value>::deserialize(deserializer)?;
+    for value in value.iter() {
+        check_filter_value(value).map_err(serde::de::Error::custom)?;
+    }
+    Ok(value)
+}
+
+fn check_filter_value(value: &Value) -> std::result::Result<(), String> {
+    match value {
+        Value::Bool(_) | Value::String(_) => Ok(()),
+        Value::Number(n) if number_to_decimal(n).is_some() => Ok(()),
+        _ => Err(format!("unsupported filter value \"{value}\"")),
+    }
+}
+
 pub fn json_value_to_scalar(v: &Value) -> ScalarValue {
     match v {
         Value::Bool(v) => ScalarValue::Boolean(Some(*v)),
@@ -947,6 +958,7 @@ pub enum DidEventAggregate {
         property: PropertyRef,
         aggregate: QueryAggregate,
         operation: PropValueOperation,
+        #[serde(default, deserialize_with = "deserialize_filter_value")]
         value: Option<Value>,
         time: SegmentTime,
     },
@@ -1071,14 +1083,22 @@ pub enum SegmentCondition {
     HasPropertyValue {
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            skip_serializing_if = "Option::is_none",
+            deserialize_with = "deserialize_filter_values"
+        )]
         value: Option<Vec<Value>>,
     },
     #[serde(rename_all = "camelCase")]
     HadPropertyValue {
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            skip_serializing_if = "Option::is_none",
+            deserialize_with = "deserialize_filter_values"
+        )]
         value: Option<Vec<Value>>,
         time: SegmentTime,
     },
-- 
2.43.0


From 20fa2a2191bc4ff0ee0f504d110e26dc021189d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 096/106] fix: refuse aggregate functions that are not
 implemented

---
 src/platform/src/lib.rs | 23 -----------------------
 1 file changed, 23 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 2bf222a..68b8bcf 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -914,28 +914,6 @@ pub enum AggregateFunction {
     Max,
     /// avg
     Avg,
-    /// Approximate aggregate function
-    ApproxDistinct,
-    /// array_agg
-    ArrayAgg,
-    /// Variance (Sample)
-    Variance,
-    /// Variance (Population)
-    VariancePop,
-    /// Standard Deviation (Sample)
-    Stddev,
-    /// Standard Deviation (Population)
-    StddevPop,
-    /// Covariance (Sample)
-    Covariance,
-    /// Covariance (Population)
-    CovariancePop,
-    /// Correlation
-    Correlation,
-    /// Approximate continuous percentile function
-    ApproxPercentileCont,
-    /// ApproxMedian
-    ApproxMedian,
 }
 
 #[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -1358,7 +1336,6 @@ impl Into<common::query::AggregateFunction> for &AggregateFunction {
             AggregateFunction::Min => common::query::AggregateFunction::Min,
             AggregateFunction::Max => common::query::AggregateFunction::Max,
             AggregateFunction::Avg => common::query::AggregateFunction::Avg,
-            _ => unimplemented!("unimplemented"),
         }
     }
 }
-- 
2.43.0


From d232f740c5c409611223236595b86f049eb95030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 097/106] fix: refuse queries that are not implemented

---
 src/platform/src/event_segmentation.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 7388144..28b7c01 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -592,6 +592,13 @@ pub(crate) fn validate_request(
                         format!("event #{event_id}, query {idx}"),
                     )?;
                 }
+                Query::WeeklyActiveGroups
+                | Query::MonthlyActiveGroups
+                | Query::Formula { .. } => {
+                    return Err(PlatformError::Unimplemented(format!(
+                        "event #{event_id}, query {idx} is unimplemented yet"
+                    )));
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From d29263434e6a6bf03fcca9e56022896bbea2c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 098/106] fix: render decimals of any size and scale

---
 src/platform/src/lib.rs | 76 +++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 68b8bcf..2f46354 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -24,6 +24,7 @@ pub mod reports;
 mod settings;
 // pub mod stub;
 
+use std::cmp::Ordering;
 use std::fmt::Debug;
 use std::sync::Arc;
 
@@ -51,7 +52,6 @@ use common::types::SortDirection;
 use common::types::ROUND_DIGITS;
 use common::types::TIME_UNIT;
 use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use common::GROUPS_COUNT;
 pub use context::Context;
 use convert_case::Case;
@@ -178,29 +178,35 @@ macro_rules! int_arr_to_json_values {
     }};
 }
 
+/// Number that a decimal denotes, rounded (half to even) to `ROUND_DIGITS` digits. The decimals that
+/// queries compute may have any scale and more digits than `Decimal` holds.
+fn decimal_to_json(v: i128, scale: i8) -> Value {
+    let extra = scale as i32 - ROUND_DIGITS as i32;
+    let (rounded, digits) = match 10i128.checked_pow(extra.max(0) as u32) {
+        _ if extra <= 0 => (v, scale as i32),
+        None => (0, 0),
+        Some(unit) => {
+            let (quotient, rest) = (v / unit, (v % unit).abs());
+            let up = match rest.cmp(&(unit - rest)) {
+                Ordering::Less => false,
+                Ordering::Equal => quotient % 2 != 0,
+                Ordering::Greater => true,
+            };
+            (quotient + if up { v.signum() } else { 0 }, ROUND_DIGITS as i32)
+        }
+    };
+    json!(format!("{rounded}e{}", -digits)
+        .parse::<f64>()
+        .unwrap_or_default())
+}
+
 pub fn scalar_to_json(v: &ScalarValue) -> Value {
     if v.is_null() {
         return Value::Null;
     }
     match v {
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
-        ScalarValue::Decimal128(Some(v), _, _) => {
-            let d = Decimal::from_i128_with_scale(*v, DECIMAL_SCALE as u32)
-                .round_dp(ROUND_DIGITS.into());
-            let d_f = match d.to_f64() {
-                None => {
-                    panic!("can't convert decimal to f64");
-                }
-                Some(v) => v,
-            };
-            let n = match Number::from_f64(d_f) {
-                None => {
-                    panic!("can't make json number from f64");
-                }
-                Some(v) => v,
-            };
-            Value::Number(n)
-        }
+        ScalarValue::Decimal128(Some(v), _, scale) => decimal_to_json(*v, *scale),
         ScalarValue::Int8(Some(v)) => Value::Number(Number::from(*v)),
         ScalarValue::Int16(Some(v)) => Value::Number(Number::from(*v)),
         ScalarValue::Int32(Some(v)) => Value::Number(Number::from(*v)),
@@ -242,28 +248,12 @@ pub fn array_ref_to_json_values(arr: &ArrayRef) -> Vec<Value> {
         arrow::datatypes::DataType::Timestamp(TIME_UNIT, _) => {
             arr_to_json_values!(arr, TimestampMillisecondArray)
         }
-        arrow::datatypes::DataType::Decimal128(_, _s) => {
+        arrow::datatypes::DataType::Decimal128(_, scale) => {
             let arr = arr.as_any().downcast_ref::<Decimal128Array>().unwrap();
             arr.iter()
                 .map(|value| match value {
                     None => Value::Number(Number::from_f64(0.0).unwrap()),
-                    Some(v) => {
-                        let d = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
-                            .round_dp(ROUND_DIGITS.into());
-                        let d_f = match d.to_f64() {
-                            None => {
-                                panic!("can't convert decimal to f64");
-                            }
-                            Some(v) => v,
-                        };
-                        let n = match Number::from_f64(d_f) {
-                            None => {
-                                panic!("can't make json number from f64");
-                            }
-                            Some(v) => v,
-                        };
-                        Value::Number(n)
-                    }
+                    Some(v) => decimal_to_json(v, *scale),
                 })
                 .collect::<Vec<_>>()
         }
@@ -366,11 +356,15 @@ pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
         ScalarValue::Decimal128(Some(v), _p, s) => {
-            let dec = Decimal::from_i128_with_scale(*v, *s as u32);
-            match (dec.scale(), dec.to_i64(), dec.to_u64()) {
-                (0, Some(v), _) => json!(v),
-                (0, _, Some(v)) => json!(v),
-                _ => Value::Number(Number::from_f64(dec.to_f64().unwrap()).unwrap()),
+            let (mut v, mut s) = (*v, *s as i32);
+            while s > 0 && v % 10 == 0 {
+                v /= 10;
+                s -= 1;
+            }
+            match (s, i64::try_from(v), u64::try_from(v)) {
+                (0, Ok(v), _) => json!(v),
+                (0, _, Ok(v)) => json!(v),
+                _ => json!(format!("{v}e{}", -s).parse::<f64>().unwrap_or_default()),
             }
         }
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
-- 
2.43.0


From 06eb93f54e0283642d09a5be245a8e6f519aae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 099/106] fix: compare timestamps with milliseconds wherever
 they are filtered

---
 src/query/src/expr.rs |  8 +++++---
 src/query/src/lib.rs  | 47 ++++++++++++++++++++-----------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d3df8ad..e99c3ef 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -30,6 +30,7 @@ use metadata::MetadataProvider;
 
 use crate::decoded_col;
 use crate::error::QueryError;
+use crate::fix_values;
 use crate::logical_plan::expr::lit_timestamp;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
@@ -238,9 +239,10 @@ fn prop_expression<S: ExprSchema>(
     let col_name = prop.column_name();
     let col = col(col_name.as_str());
 
-    if values.is_none() {
-        return named_property_expression(col, operation, None);
-    }
+    let values = match values {
+        None => return named_property_expression(col, operation, None),
+        Some(values) => Some(fix_values(&prop.data_type, values)?),
+    };
 
     match operation {
         PropValueOperation::Like
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 0a7f5e3..c89156f 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -644,6 +644,27 @@ pub fn col_name(ctx: &Context, prop: &PropertyRef, md: &Arc<MetadataProvider>) -
     Ok(name)
 }
 
+/// Values in the form of the property: numbers that timestamps are compared with are milliseconds.
+pub fn fix_values(data_type: &DType, values: Vec<ScalarValue>) -> Result<Vec<ScalarValue>> {
+    values
+        .into_iter()
+        .map(|value| match (data_type, value) {
+            (DType::Timestamp, ScalarValue::Decimal128(Some(v), _, scale)) => {
+                let unit = 10i128.pow(scale as u32);
+                if v % unit != 0 {
+                    return Err(QueryError::Plan(
+                        "timestamp should be a whole number of milliseconds".to_string(),
+                    ));
+                }
+                let ts = i64::try_from(v / unit)
+                    .map_err(|_| QueryError::Plan("timestamp is out of range".to_string()))?;
+                Ok(ScalarValue::TimestampMillisecond(Some(ts), None))
+            }
+            (_, value) => Ok(value),
+        })
+        .collect()
+}
+
 pub fn fix_filter(
     md: &Arc<MetadataProvider>,
     project_id: u64,
@@ -669,31 +690,7 @@ pub fn fix_filter(
                 }
             };
 
-            let mut ev = vec![];
-            if let Some(value) = value {
-                for value in value {
-                    match (&prop.data_type, value) {
-                        (&DType::Timestamp, &ScalarValue::Decimal128(_, _, _)) => {
-                            match filter.clone() {
-                                PropValueFilter::Property { value, .. } => {
-                                    for value in value.unwrap().iter() {
-                                        if let ScalarValue::Decimal128(Some(ts), _, _) = value {
-                                            let sv = ScalarValue::TimestampMillisecond(
-                                                Some(*ts as i64),
-                                                None,
-                                            );
-                                            ev.push(sv);
-                                        } else {
-                                            unreachable!()
-                                        }
-                                    }
-                                }
-                            };
-                        }
-                        _ => ev.push(value.to_owned()),
-                    }
-                }
-            }
+            let ev = fix_values(&prop.data_type, value.clone().unwrap_or_default())?;
 
             let filter = common::query::PropValueFilter::Property {
                 property: property.to_owned(),
-- 
2.43.0


From e66aacbbbbf883f08bb8e6a26a8ef4f013161c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 100/106] fix: refuse properties of others in searches of group
 records

---
 src/platform/src/group_records.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 28818fa..560ee8a 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -14,6 +14,8 @@ use serde_json::Value;
 
 use crate::group_properties;
 use crate::validate_event_filter;
+use crate::validate_event_property;
+use crate::PropValueFilter;
 use crate::Context;
 use crate::EventGroupedFilters;
 use crate::PlatformError;
@@ -123,6 +125,17 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
     }
 }
 
+/// Records of a group have no properties but those of the group.
+fn validate_group_property(property: &PropertyRef, group: usize, err_prefix: String) -> Result<()> {
+    match property {
+        PropertyRef::Group { group: g, .. } if *g == group => Ok(()),
+        PropertyRef::Custom { .. } => Ok(()),
+        _ => Err(PlatformError::BadRequest(format!(
+            "{err_prefix}: not a property of the group"
+        ))),
+    }
+}
+
 pub(crate) fn validate_search_request(
     md: &Arc<MetadataProvider>,
     project_id: u64,
@@ -152,6 +165,8 @@ pub(crate) fn validate_search_request(
                     ));
                 }
                 for (filter_id, filter) in filter_group.filters.iter().enumerate() {
+                    let PropValueFilter::Property { property, .. } = filter;
+                    validate_group_property(property, req.group, format!("filter #{filter_id}"))?;
                     validate_event_filter(md, project_id, filter, filter_id, "".to_string())?;
                 }
             }
@@ -167,6 +182,7 @@ pub(crate) fn validate_search_request(
                 ));
             }
             for (idx, prop) in props.iter().enumerate() {
+                validate_group_property(prop, req.group, format!("property {idx}"))?;
                 match prop {
                     PropertyRef::Group {
                         property_name,
-- 
2.43.0


From 94db9564c0afa3a378f6ba95487e55a8dea2a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 101/106] fix: refuse aggregates of what is not a number

---
 src/platform/src/event_segmentation.rs | 20 ++++++++++-----
 src/platform/src/lib.rs                | 35 ++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 28b7c01..eb9ec62 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -12,6 +12,7 @@ use serde::Serialize;
 
 use crate::error::Result;
 use crate::validate_event;
+use crate::validate_aggregate;
 use crate::validate_event_filter;
 use crate::validate_event_property;
 use crate::AggregateFunction;
@@ -585,12 +586,19 @@ pub(crate) fn validate_request(
             match query {
                 Query::AggregatePropertyPerGroup { property, .. }
                 | Query::AggregateProperty { property, .. } => {
-                    validate_event_property(
-                        md,
-                        project_id,
-                        property,
-                        format!("event #{event_id}, query {idx}"),
-                    )?;
+                    let is_count = match query {
+                        Query::AggregatePropertyPerGroup {
+                            aggregate_per_group,
+                            ..
+                        } => matches!(aggregate_per_group, PartitionedAggregateFunction::Count),
+                        Query::AggregateProperty { aggregate, .. } => {
+                            matches!(aggregate, AggregateFunction::Count)
+                        }
+                        _ => false,
+                    };
+                    let err_prefix = format!("event #{event_id}, query {idx}");
+                    validate_event_property(md, project_id, property, err_prefix.clone())?;
+                    validate_aggregate(md, project_id, property, is_count, err_prefix)?;
                 }
                 Query::WeeklyActiveGroups
                 | Query::MonthlyActiveGroups
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 2f46354..59610a7 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1490,6 +1490,41 @@ pub fn validate_event_property(
     Ok(())
 }
 
+/// Only numbers can be aggregated, other values can only be counted.
+pub(crate) fn validate_aggregate(
+    md: &Arc<MetadataProvider>,
+    project_id: u64,
+    property: &PropertyRef,
+    is_count: bool,
+    err_prefix: String,
+) -> crate::Result<()> {
+    let prop = match property {
+        PropertyRef::Group {
+            property_name,
+            group,
+        } => group_properties(md, *group)?.get_by_name(project_id, property_name)?,
+        PropertyRef::Event { property_name } => {
+            md.event_properties.get_by_name(project_id, property_name)?
+        }
+        PropertyRef::Custom { .. } => return Ok(()),
+    };
+    match (&prop.data_type, is_count) {
+        (
+            DType::Int8 | DType::Int16 | DType::Int32 | DType::Int64 | DType::Decimal,
+            _,
+        )
+        | (DType::String, true) => Ok(()),
+        (_, true) => Err(PlatformError::Unimplemented(format!(
+            "{err_prefix}: counting values of property \"{}\" is unimplemented yet",
+            prop.name
+        ))),
+        _ => Err(PlatformError::BadRequest(format!(
+            "{err_prefix}: property \"{}\" is not numeric and can't be aggregated",
+            prop.name
+        ))),
+    }
+}
+
 pub fn validate_event_filter_property(
     md: &Arc<MetadataProvider>,
     project_id: u64,
-- 
2.43.0


From 5ca22dc5d33f347dca9027b92d1d3c2fc601c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 102/106] fix: refuse filters without the value they need

---
 src/platform/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 59610a7..f5285d4 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1602,10 +1602,9 @@ pub fn validate_event_filter_property(
     }
     match value {
         None => {
-            if !allow_empty_values && !prop.nullable {
+            if !allow_empty_values {
                 return Err(PlatformError::BadRequest(format!(
-                    "{err_prefix}property \"{}\" is not nullable",
-                    prop.name
+                    "{err_prefix}operation \"{operation:?}\" needs a value"
                 )));
             }
         }
@@ -1638,8 +1637,15 @@ pub fn validate_event_filter_property(
                         | DType::Int16
                         | DType::Int32
                         | DType::Int64
-                        | DType::Decimal
-                        | DType::Timestamp => {}
+                        | DType::Decimal => {}
+                        DType::Timestamp => {
+                            let whole = |v: f64| v.fract() == 0. && v.abs() < i64::MAX as f64;
+                            if n.as_i64().is_none() && !n.as_f64().is_some_and(whole) {
+                                return Err(PlatformError::BadRequest(format!(
+                                    "{err_prefix}value {vid} is not a timestamp in milliseconds"
+                                )));
+                            }
+                        }
                         _ => {
                             return Err(PlatformError::BadRequest(format!(
                                 "{err_prefix}property \"{}\" is not numeric, but value {vid} is \"{value:?}\"",
-- 
2.43.0


From 908fc35642b494f5204da35c09fd90c58bc3a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 103/106] fix: refuse times out of range and windows of
 sessions

---
 src/platform/src/event_records.rs      |  8 +-----
 src/platform/src/event_segmentation.rs |  8 +-----
 src/platform/src/funnel.rs             | 28 ++++++++++++++-----
 src/platform/src/group_records.rs      |  8 ++----
 src/platform/src/lib.rs                | 38 +++++++++++++++++++++++++-
 5 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index d95f51b..29a553d 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -187,13 +187,7 @@ pub(crate) fn validate_search_request(
     project_id: u64,
     req: &EventRecordsSearchRequest,
 ) -> Result<()> {
-    if let QueryTime::Between { from, to } = req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
-    }
+    req.time.validate()?;
 
     if let Some(events) = &req.events {
         if events.is_empty() {
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index eb9ec62..a09afef 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -533,13 +533,7 @@ pub(crate) fn validate_request(
             "group id is out of range".to_string(),
         ));
     }
-    if let QueryTime::Between { from, to } = req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
-    }
+    req.time.validate()?;
 
     if req.events.is_empty() {
         return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 3221273..f33ff98 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::validate_event;
 use crate::validate_event_filter;
+use crate::validate_hours;
 use crate::validate_event_property;
 use crate::Breakdown;
 use crate::Context;
@@ -115,13 +116,8 @@ pub(crate) fn validate_request(
         ));
     }
 
-    if let QueryTime::Between { from, to } = req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
-    }
+    req.time.validate()?;
+    req.time_window.validate()?;
 
     if req.steps.is_empty() {
         return Err(PlatformError::BadRequest(
@@ -408,6 +404,24 @@ pub struct TimeWindow {
     pub unit: TimeIntervalUnitSession,
 }
 
+impl TimeWindow {
+    fn validate(&self) -> crate::Result<()> {
+        let hours = match self.unit {
+            TimeIntervalUnitSession::Hour => 1,
+            TimeIntervalUnitSession::Day => 24,
+            TimeIntervalUnitSession::Week => 24 * 7,
+            TimeIntervalUnitSession::Month => 24 * 31,
+            TimeIntervalUnitSession::Year => 24 * 366,
+            TimeIntervalUnitSession::Session => {
+                return Err(PlatformError::Unimplemented(
+                    "time window of a session is unimplemented yet".to_string(),
+                ));
+            }
+        };
+        validate_hours(i64::try_from(self.n).unwrap_or(i64::MAX), hours)
+    }
+}
+
 #[allow(clippy::all)]
 impl Into<common::funnel::TimeWindow> for TimeWindow {
     fn into(self) -> common::funnel::TimeWindow {
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 560ee8a..e931681 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -142,12 +142,8 @@ pub(crate) fn validate_search_request(
     req: &GroupRecordsSearchRequest,
 ) -> Result<()> {
     group_properties(md, req.group)?;
-    if let Some(QueryTime::Between { from, to }) = &req.time {
-        if from > to {
-            return Err(PlatformError::BadRequest(
-                "from time must be less than to time".to_string(),
-            ));
-        }
+    if let Some(time) = &req.time {
+        time.validate()?;
     }
 
     match &req.filters {
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index f5285d4..4d40583 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -800,6 +800,30 @@ pub enum QueryTime {
     },
 }
 
+/// How far back times of requests reach, in hours.
+const MAX_HOURS: i64 = 24 * 366 * 1000;
+
+pub(crate) fn validate_hours(n: i64, hours: i64) -> Result<()> {
+    match n.checked_mul(hours) {
+        Some(0..=MAX_HOURS) => Ok(()),
+        _ => Err(PlatformError::BadRequest(format!(
+            "number of time units is out of range: {n}"
+        ))),
+    }
+}
+
+impl QueryTime {
+    pub(crate) fn validate(&self) -> Result<()> {
+        match self {
+            QueryTime::Between { from, to } if from > to => Err(PlatformError::BadRequest(
+                "from time must be less than to time".to_string(),
+            )),
+            QueryTime::Last { last, unit } => validate_hours(*last, unit.hours()),
+            _ => Ok(()),
+        }
+    }
+}
+
 #[allow(clippy::all)]
 impl Into<common::query::QueryTime> for QueryTime {
     fn into(self) -> common::query::QueryTime {
@@ -838,6 +862,18 @@ pub enum TimeIntervalUnit {
     Year,
 }
 
+impl TimeIntervalUnit {
+    pub(crate) fn hours(&self) -> i64 {
+        match self {
+            TimeIntervalUnit::Hour => 1,
+            TimeIntervalUnit::Day => 24,
+            TimeIntervalUnit::Week => 24 * 7,
+            TimeIntervalUnit::Month => 24 * 31,
+            TimeIntervalUnit::Year => 24 * 366,
+        }
+    }
+}
+
 #[allow(clippy::all)]
 impl Into<common::query::TimeIntervalUnit> for TimeIntervalUnit {
     fn into(self) -> common::query::TimeIntervalUnit {
@@ -1632,7 +1668,7 @@ pub fn validate_event_filter_property(
                             )));
                         }
                     }
-                    Value::Number(_) => match prop.data_type {
+                    Value::Number(n) => match prop.data_type {
                         DType::Int8
                         | DType::Int16
                         | DType::Int32
-- 
2.43.0


From e532739cb1627a78ff088ba223f5018dc060abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 104/106] fix: sort group records as requested

---
 src/platform/src/group_records.rs |  8 +++++++-
 src/platform/src/lib.rs           | 32 +++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index e931681..8ea70e0 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -120,7 +120,7 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
                     .map(|prop| prop.to_owned().into())
                     .collect::<Vec<_>>()
             }),
-            sort: None,
+            sort: self.sort.map(|sort| sort.into()),
         }
     }
 }
@@ -169,6 +169,12 @@ pub(crate) fn validate_search_request(
         }
     }
 
+    if let Some(sort) = &req.sort {
+        let property = sort.property();
+        validate_group_property(&property, req.group, "sort".to_string())?;
+        validate_event_property(md, project_id, &property, "sort".to_string())?;
+    }
+
     match &req.properties {
         None => {}
         Some(props) => {
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 4d40583..f053d5c 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -508,6 +508,38 @@ pub enum SortablePropertyRef {
     },
 }
 
+impl SortablePropertyRef {
+    pub(crate) fn property(&self) -> PropertyRef {
+        match self.to_owned() {
+            SortablePropertyRef::Group {
+                property_name,
+                group,
+                ..
+            } => PropertyRef::Group {
+                property_name,
+                group,
+            },
+            SortablePropertyRef::Event { property_name, .. } => {
+                PropertyRef::Event { property_name }
+            }
+            SortablePropertyRef::Custom { property_id, .. } => PropertyRef::Custom { property_id },
+        }
+    }
+}
+
+#[allow(clippy::all)]
+impl Into<(common::query::PropertyRef, SortDirection)> for SortablePropertyRef {
+    fn into(self) -> (common::query::PropertyRef, SortDirection) {
+        let property = self.property().into();
+        let direction = match self {
+            SortablePropertyRef::Group { direction, .. }
+            | SortablePropertyRef::Event { direction, .. }
+            | SortablePropertyRef::Custom { direction, .. } => direction,
+        };
+        (property, direction)
+    }
+}
+
 #[allow(clippy::all)]
 impl Into<common::query::PropertyRef> for PropertyRef {
     fn into(self) -> common::query::PropertyRef {
-- 
2.43.0


From b81fca504270069f126a9d62323f9a1ca9c2b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 105/106] fix: refuse custom events with filters that do not
 fit

---
 src/platform/src/custom_events.rs | 27 +++++++++++++++++++++++++--
 src/platform/src/lib.rs           |  2 +-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/custom_events.rs b/src/platform/src/custom_events.rs
index db776f9..fe7c458 100644
--- a/src/platform/src/custom_events.rs
+++ b/src/platform/src/custom_events.rs
@@ -5,9 +5,11 @@ use chrono::Utc;
 use common::rbac::ProjectPermission;
 use common::types::OptionalProperty;
 use metadata::custom_events::CustomEvents as MDCustomEvents;
+use metadata::MetadataProvider;
 use serde::Deserialize;
 use serde::Serialize;
 
+use crate::validate_event_filter;
 use crate::Context;
 use crate::EventRef;
 use crate::ListResponse;
@@ -15,12 +17,31 @@ use crate::PropValueFilter;
 use crate::Result;
 
 pub struct CustomEvents {
+    md: Arc<MetadataProvider>,
     prov: Arc<MDCustomEvents>,
 }
 
+fn validate_filters(md: &Arc<MetadataProvider>, project_id: u64, events: &[Event]) -> Result<()> {
+    for (event_id, event) in events.iter().enumerate() {
+        for (filter_id, filter) in event.filters.iter().flatten().enumerate() {
+            validate_event_filter(
+                md,
+                project_id,
+                filter,
+                filter_id,
+                format!("event #{event_id}, "),
+            )?;
+        }
+    }
+    Ok(())
+}
+
 impl CustomEvents {
-    pub fn new(prov: Arc<MDCustomEvents>) -> Self {
-        Self { prov }
+    pub fn new(md: Arc<MetadataProvider>) -> Self {
+        Self {
+            prov: md.custom_events.clone(),
+            md,
+        }
     }
 
     pub async fn create(
@@ -34,6 +55,7 @@ impl CustomEvents {
             project_id,
             ProjectPermission::ManageSchema,
         )?;
+        validate_filters(&self.md, project_id, &req.events)?;
 
         let md_req = metadata::custom_events::CreateCustomEventRequest {
             created_by: ctx.account_id,
@@ -97,6 +119,7 @@ impl CustomEvents {
         };
 
         if let OptionalProperty::Some(events) = req.events {
+            validate_filters(&self.md, project_id, &events)?;
             md_req.events.insert(
                 events
                     .iter()
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index f053d5c..86c31f3 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -132,7 +132,7 @@ impl PlatformProvider {
             .collect::<Vec<_>>();
         Self {
             events: Arc::new(Events::new(md.events.clone())),
-            custom_events: Arc::new(CustomEvents::new(md.custom_events.clone())),
+            custom_events: Arc::new(CustomEvents::new(md.clone())),
             groups: Arc::new(Groups::new(md.groups.clone())),
             event_properties: Arc::new(Properties::new_event(
                 md.event_properties.clone(),
-- 
2.43.0


From d4fa52cee9b831b05b29911f9e530a4095e10bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:28 +0000
Subject: [PATCH 106/106] fix: keep the schedule of backups and the GCP key set
 through the API

---
 src/metadata/src/settings.rs |  6 ++++++
 src/platform/src/settings.rs | 23 +++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index 2ebc261..4e1f71e 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -81,6 +81,12 @@ impl Settings {
             ));
         }
 
+        if self.backup_schedule_start_hour > 23 {
+            return Err(MetadataError::BadRequest(
+                "backup schedule start hour must be between 0 and 23".to_string(),
+            ));
+        }
+
         match self.backup_provider {
             BackupProvider::Local => {}
             BackupProvider::S3 => {
diff --git a/src/platform/src/settings.rs b/src/platform/src/settings.rs
index 1f20941..46820c7 100644
--- a/src/platform/src/settings.rs
+++ b/src/platform/src/settings.rs
@@ -73,6 +73,29 @@ impl SettingsProvider {
         if let Some(v) = req.backup_provider_gcp_path {
             settings.backup_provider_gcp_path = v;
         }
+        if let Some(v) = req.backup_provider_gcp_key {
+            settings.backup_provider_gcp_key = v;
+        }
+        if let Some(v) = req.backup_schedule_interval {
+            settings.backup_schedule_interval = match v {
+                BackupScheduleInterval::Hourly => {
+                    metadata::settings::BackupScheduleInterval::Hourly
+                }
+                BackupScheduleInterval::Daily => metadata::settings::BackupScheduleInterval::Daily,
+                BackupScheduleInterval::Weekly => {
+                    metadata::settings::BackupScheduleInterval::Weekly
+                }
+                BackupScheduleInterval::Monthly => {
+                    metadata::settings::BackupScheduleInterval::Monthly
+                }
+                BackupScheduleInterval::Yearly => {
+                    metadata::settings::BackupScheduleInterval::Yearly
+                }
+            };
+        }
+        if let Some(v) = req.backup_schedule_start_hour {
+            settings.backup_schedule_start_hour = v;
+        }
 
         self.prov.save(&settings)?;
 
-- 
2.43.0

