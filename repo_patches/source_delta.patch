From e70d2668466f983c3293ff8791d6fcc4e2c463a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 01/37] fix: saturate range() partition boundaries instead of
 wrapping around i64

---
 crates/sail-logical-plan/src/range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sail-logical-plan/src/range.rs b/crates/sail-logical-plan/src/range.rs
index a05dece..ed41a58 100644
--- a/crates/sail-logical-plan/src/range.rs
+++ b/crates/sail-logical-plan/src/range.rs
@@ -32,9 +32,13 @@ impl Range {
         let partition = partition as i128;
         let partition_start = partition * num_elements / num_partitions * step + start;
         let partition_end = (partition + 1) * num_elements / num_partitions * step + start;
+        // Every element is within the i64 range, but the exclusive end of a partition may not be,
+        // so the boundaries must saturate instead of wrapping around.
+        let start = partition_start.clamp(i64::MIN as i128, i64::MAX as i128);
+        let end = partition_end.clamp(i64::MIN as i128, i64::MAX as i128);
         Range {
-            start: partition_start as i64,
-            end: partition_end as i64,
+            start: start as i64,
+            end: end as i64,
             step: step as i64,
         }
     }
-- 
2.43.0


From ccce87f2684542d302c11373b1041b316a9c9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 02/37] fix: read Delta versions older than the newest
 checkpoint from the whole log

The listing offset was derived from the _last_checkpoint hint even when the hint
is newer than the requested version, so the commits before the requested version
were never listed and the snapshot lost their files.
---
 crates/sail-delta-lake/src/delta_log/segment.rs       | 6 ++++--
 crates/sail-delta-lake/src/delta_log/segment_files.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/sail-delta-lake/src/delta_log/segment.rs b/crates/sail-delta-lake/src/delta_log/segment.rs
index 431100d..5c227f9 100644
--- a/crates/sail-delta-lake/src/delta_log/segment.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment.rs
@@ -135,7 +135,8 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
         let list_offset = lower_bound.min(last_cp_hint_version);
 
@@ -286,7 +287,8 @@ impl<'a> LogSegmentResolver<'a> {
 
         let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
             .await
-            .map(|v| v.min(version).saturating_sub(1))
+            .filter(|v| *v <= version)
+            .map(|v| v.saturating_sub(1))
             .unwrap_or(0);
 
         let (_, checkpoint, all_commits, all_compactions) =
diff --git a/crates/sail-delta-lake/src/delta_log/segment_files.rs b/crates/sail-delta-lake/src/delta_log/segment_files.rs
index a9f1610..13d66b4 100644
--- a/crates/sail-delta-lake/src/delta_log/segment_files.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment_files.rs
@@ -52,7 +52,8 @@ pub async fn list_log_segment_files(
     let store = log_store.object_store(None);
     let offset_version = read_last_checkpoint_version_from_store(store.clone())
         .await
-        .map(|v| v.min(max_version).saturating_sub(1))
+        .filter(|v| *v <= max_version)
+        .map(|v| v.saturating_sub(1))
         .unwrap_or(0);
 
     let (_, checkpoint_meta, commit_metas, compaction_metas) =
-- 
2.43.0


From bbf633d58a6e05a460e6601ec9dde0939c160a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 03/37] fix: replay a log compaction that directly follows the
 checkpoint

When later commits remained after the compaction, replay started at the first
commit and skipped the versions covered by the compaction.
---
 .../sail-delta-lake/src/delta_log/replay.rs   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/sail-delta-lake/src/delta_log/replay.rs b/crates/sail-delta-lake/src/delta_log/replay.rs
index 9de6bbe..a6c7e06 100644
--- a/crates/sail-delta-lake/src/delta_log/replay.rs
+++ b/crates/sail-delta-lake/src/delta_log/replay.rs
@@ -74,6 +74,16 @@ fn is_json_checkpoint_location(meta: &ObjectMeta) -> bool {
         .is_some_and(is_json_checkpoint_filename)
 }
 
+/// The first version covered by the commits and log compactions that follow a checkpoint.
+fn first_replay_version(
+    commit_files: &[(i64, ObjectMeta)],
+    compaction_files: &[((i64, i64), ObjectMeta)],
+) -> Option<i64> {
+    let first_commit = commit_files.first().map(|(v, _)| *v);
+    let first_compaction = compaction_files.first().map(|((s, _), _)| *s);
+    first_commit.into_iter().chain(first_compaction).min()
+}
+
 pub(crate) async fn load_replayed_table_state(
     version: i64,
     log_store: &dyn LogStore,
@@ -108,10 +118,7 @@ pub(crate) async fn load_replayed_table_state(
         for row in rows {
             state.apply_checkpoint_row(row)?;
         }
-        commit_files
-            .first()
-            .map(|(v, _)| *v)
-            .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
+        first_replay_version(&commit_files, &compaction_files)
             .unwrap_or(target_version.saturating_add(1))
     } else {
         0
@@ -195,10 +202,7 @@ pub(crate) async fn load_replayed_table_header(
                 Some(cp_meta) => {
                     let cp_state =
                         read_checkpoint_header_from_checkpoint_file(store.clone(), cp_meta).await?;
-                    let next_v = commit_files
-                        .first()
-                        .map(|(v, _)| *v)
-                        .or_else(|| compaction_files.first().map(|((s, _), _)| *s))
+                    let next_v = first_replay_version(&commit_files, &compaction_files)
                         .unwrap_or(target_version.saturating_add(1));
                     (cp_state, next_v, BTreeMap::new())
                 }
-- 
2.43.0


From 3cd10aaad4ab5268da263884ba58b1fad9545533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 04/37] fix: do not replay one part of a multi-part Delta
 checkpoint as the whole

A single part of a multi-part checkpoint was taken for a complete checkpoint,
losing the files listed in the other parts.
---
 crates/sail-delta-lake/src/delta_log/listing.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/delta_log/listing.rs b/crates/sail-delta-lake/src/delta_log/listing.rs
index 2553ef1..b388654 100644
--- a/crates/sail-delta-lake/src/delta_log/listing.rs
+++ b/crates/sail-delta-lake/src/delta_log/listing.rs
@@ -35,7 +35,21 @@ pub(crate) fn parse_commit_version_from_location(location: &Path) -> Option<i64>
 }
 
 pub(crate) fn parse_checkpoint_version_from_location(location: &Path) -> Option<i64> {
-    delta_log_top_level_filename(location).and_then(parse_checkpoint_version)
+    delta_log_top_level_filename(location)
+        .filter(|filename| !is_partial_checkpoint_filename(filename))
+        .and_then(parse_checkpoint_version)
+}
+
+/// Returns `true` for a file that holds only a part of a multi-part checkpoint
+/// (`{version:020}.checkpoint.{part:010}.{total:010}.parquet` with more than one part).
+/// Such a file must not be replayed as if it were the whole checkpoint.
+fn is_partial_checkpoint_filename(filename: &str) -> bool {
+    filename
+        .split_once(".checkpoint.")
+        .and_then(|(_, rest)| rest.strip_suffix(".parquet"))
+        .and_then(|rest| rest.split_once('.'))
+        .and_then(|(part, total)| part.parse::<u32>().ok().zip(total.parse::<u32>().ok()))
+        .is_some_and(|(_, total)| total > 1)
 }
 
 pub(crate) fn parse_compacted_json_versions_from_location(location: &Path) -> Option<(i64, i64)> {
-- 
2.43.0


From cf11b44ac13e3611ccb5b0c130cdd728b75953ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 05/37] fix: apply Iceberg year and month transforms to dates
 before 1970

Negative day numbers were cast to u64 and overflowed the date range.
---
 crates/sail-iceberg/src/utils/transform.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index 6627e08..ecc1ccb 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -193,10 +193,10 @@ pub fn apply_transform(
 const UNIX_EPOCH_YEAR: i32 = 1970;
 
 pub fn days_to_year(days: i32) -> i32 {
-    #[expect(clippy::unwrap_used)]
-    let epoch = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Days::new(days as u64);
-    date.year() - UNIX_EPOCH_YEAR
+    match chrono::NaiveDate::from_epoch_days(days) {
+        Some(date) => date.year() - UNIX_EPOCH_YEAR,
+        None => 0,
+    }
 }
 
 pub fn micros_to_year(micros: i64) -> i32 {
@@ -206,10 +206,10 @@ pub fn micros_to_year(micros: i64) -> i32 {
 }
 
 pub fn days_to_months(days: i32) -> i32 {
-    #[expect(clippy::unwrap_used)]
-    let epoch = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Days::new(days as u64);
-    (date.year() - UNIX_EPOCH_YEAR) * 12 + (date.month0() as i32)
+    match chrono::NaiveDate::from_epoch_days(days) {
+        Some(date) => (date.year() - UNIX_EPOCH_YEAR) * 12 + (date.month0() as i32),
+        None => 0,
+    }
 }
 
 pub fn micros_to_months(micros: i64) -> i32 {
-- 
2.43.0


From a3dc3d69fad3425850ca124c3b3a589afde24e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 06/37] fix: hash decimals for the Iceberg bucket transform as
 minimal two's complement

Leading zero bytes were dropped even when the sign bit was lost with them, and
negative values kept all their sign-extension bytes.
---
 crates/sail-iceberg/src/utils/transform.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index ecc1ccb..e15cd1c 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -247,12 +247,14 @@ fn hash_long(v: i64) -> i32 {
 
 #[inline]
 fn hash_decimal(v: i128) -> i32 {
+    // Decimals are hashed as the minimum number of bytes of the two's-complement big-endian value.
     let bytes = v.to_be_bytes();
-    if let Some(start) = bytes.iter().position(|&x| x != 0) {
-        hash_bytes(&bytes[start..])
-    } else {
-        hash_bytes(&[0])
+    let sign: u8 = if v < 0 { 0xff } else { 0 };
+    let mut start = 0;
+    while start < 15 && bytes[start] == sign && (bytes[start + 1] ^ sign) < 0x80 {
+        start += 1;
     }
+    hash_bytes(&bytes[start..])
 }
 
 #[inline]
-- 
2.43.0


From 8263dca308da0667fe7152ffbae39ddf387f8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 07/37] fix: truncate decimals in the Iceberg truncate
 transform

---
 crates/sail-iceberg/src/utils/transform.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index e15cd1c..dfbb861 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -46,6 +46,11 @@ pub fn apply_transform(
                 let rem = v.rem_euclid(w);
                 Some(Literal::Primitive(PrimitiveLiteral::Long(v - rem)))
             }
+            Some(Literal::Primitive(PrimitiveLiteral::Int128(v))) => {
+                let w = w as i128;
+                let rem = v.rem_euclid(w);
+                Some(Literal::Primitive(PrimitiveLiteral::Int128(v - rem)))
+            }
             other => other,
         },
         Transform::Bucket(n) => match value {
-- 
2.43.0


From cf40fd22a2f3beb97c92b15c2ac5c74932a3a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 08/37] fix: bucket Iceberg nanosecond timestamps by their
 microseconds

---
 crates/sail-iceberg/src/utils/transform.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index dfbb861..0677ba4 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -59,6 +59,13 @@ pub fn apply_transform(
                 Some(Literal::Primitive(PrimitiveLiteral::Int(bucket_int(v, n))))
             }
             Some(Literal::Primitive(PrimitiveLiteral::Long(v))) => {
+                // Nanosecond timestamps are hashed as microseconds.
+                let v = match field_type {
+                    Type::Primitive(PrimitiveType::TimestampNs | PrimitiveType::TimestamptzNs) => {
+                        v.div_euclid(1_000)
+                    }
+                    _ => v,
+                };
                 Some(Literal::Primitive(PrimitiveLiteral::Int(bucket_long(v, n))))
             }
             Some(Literal::Primitive(PrimitiveLiteral::Int128(v))) => Some(Literal::Primitive(
-- 
2.43.0


From 2c47b43fe76bd6307ccd0179d48d79a11b2292f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 09/37] fix: the Iceberg void transform always produces null

---
 .../src/physical_plan/partition_transform_expr.rs  | 14 +++++---------
 crates/sail-iceberg/src/utils/transform.rs         |  3 ++-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs b/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs
index ef544b0..f758a2f 100644
--- a/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs
+++ b/crates/sail-iceberg/src/physical_plan/partition_transform_expr.rs
@@ -75,7 +75,7 @@ impl PhysicalExpr for IcebergPartitionTransformExpr {
     }
 
     fn nullable(&self, input_schema: &Schema) -> Result<bool> {
-        self.input.nullable(input_schema)
+        Ok(self.transform == Transform::Void || self.input.nullable(input_schema)?)
     }
 
     fn evaluate(&self, batch: &RecordBatch) -> Result<ColumnarValue> {
@@ -98,14 +98,10 @@ impl PhysicalExpr for IcebergPartitionTransformExpr {
                 let scalar = ScalarValue::try_from_array(input.as_ref(), index)?;
                 let literal = scalar_to_iceberg_literal(&scalar, input.data_type())
                     .map_err(|error| plan_datafusion_err!("{error}"))?;
-                let transformed = apply_transform(self.transform, &input_type, Some(literal))
-                    .ok_or_else(|| {
-                        DataFusionError::Execution(format!(
-                            "Iceberg partition transform {} returned null for a non-null value",
-                            self.transform
-                        ))
-                    })?;
-                to_scalar(&transformed, &transformed_type)
+                match apply_transform(self.transform, &input_type, Some(literal)) {
+                    Some(transformed) => to_scalar(&transformed, &transformed_type),
+                    None => ScalarValue::try_new_null(&output_type),
+                }
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(ColumnarValue::Array(ScalarValue::iter_to_array(values)?))
diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index 0677ba4..e7f27ab 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -30,7 +30,8 @@ pub fn apply_transform(
     value: Option<Literal>,
 ) -> Option<Literal> {
     match transform {
-        Transform::Identity | Transform::Unknown | Transform::Void => value,
+        Transform::Identity | Transform::Unknown => value,
+        Transform::Void => None,
         Transform::Truncate(w) => match value {
             Some(Literal::Primitive(PrimitiveLiteral::String(s))) => {
                 let taken = s.chars().take(w as usize).collect::<String>();
-- 
2.43.0


From 98f20e61cb1ac47531ada60c60c3a198ae509e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 10/37] fix: truncate Iceberg values near the integer minimum
 instead of failing

---
 crates/sail-iceberg/src/utils/transform.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index e7f27ab..afb51e2 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -40,17 +40,23 @@ pub fn apply_transform(
             Some(Literal::Primitive(PrimitiveLiteral::Int(v))) => {
                 let w = w as i32;
                 let rem = v.rem_euclid(w);
-                Some(Literal::Primitive(PrimitiveLiteral::Int(v - rem)))
+                // The result may be out of range for values near the minimum.
+                let v = v.checked_sub(rem)?;
+                Some(Literal::Primitive(PrimitiveLiteral::Int(v)))
             }
             Some(Literal::Primitive(PrimitiveLiteral::Long(v))) => {
                 let w = w as i64;
                 let rem = v.rem_euclid(w);
-                Some(Literal::Primitive(PrimitiveLiteral::Long(v - rem)))
+                // The result may be out of range for values near the minimum.
+                let v = v.checked_sub(rem)?;
+                Some(Literal::Primitive(PrimitiveLiteral::Long(v)))
             }
             Some(Literal::Primitive(PrimitiveLiteral::Int128(v))) => {
                 let w = w as i128;
                 let rem = v.rem_euclid(w);
-                Some(Literal::Primitive(PrimitiveLiteral::Int128(v - rem)))
+                // The result may be out of range for values near the minimum.
+                let v = v.checked_sub(rem)?;
+                Some(Literal::Primitive(PrimitiveLiteral::Int128(v)))
             }
             other => other,
         },
-- 
2.43.0


From 629ed31ac388b2dca5afa4fa9e845b64a40f839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 11/37] fix: apply Iceberg calendar transforms beyond chrono's
 date range

---
 crates/sail-iceberg/src/utils/transform.rs | 49 +++++++++++-----------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index afb51e2..56786c7 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -199,8 +199,8 @@ pub fn apply_transform(
                     _ => us_or_ns,
                 };
                 let hours = micros.div_euclid(3_600_000_000);
-                // safe downcast in typical ranges
-                let hours_i32 = i32::try_from(hours).unwrap_or(i32::MAX);
+                // The result may be out of range for timestamps in the far past or future.
+                let hours_i32 = i32::try_from(hours).ok()?;
                 Some(Literal::Primitive(PrimitiveLiteral::Int(hours_i32)))
             }
             _ => value,
@@ -210,40 +210,39 @@ pub fn apply_transform(
 
 // ==== Helpers for temporal transforms ====
 const UNIX_EPOCH_YEAR: i32 = 1970;
+const DAYS_IN_400_YEARS: i32 = 146_097;
 
 pub fn days_to_year(days: i32) -> i32 {
-    match chrono::NaiveDate::from_epoch_days(days) {
-        Some(date) => date.year() - UNIX_EPOCH_YEAR,
-        None => 0,
-    }
+    let (year, _) = days_to_year_and_month(days);
+    year - UNIX_EPOCH_YEAR
 }
 
 pub fn micros_to_year(micros: i64) -> i32 {
-    chrono::DateTime::from_timestamp_micros(micros)
-        .map(|dt| dt.year() - UNIX_EPOCH_YEAR)
-        .unwrap_or(0)
+    days_to_year(micros_to_days(micros))
 }
 
 pub fn days_to_months(days: i32) -> i32 {
-    match chrono::NaiveDate::from_epoch_days(days) {
-        Some(date) => (date.year() - UNIX_EPOCH_YEAR) * 12 + (date.month0() as i32),
-        None => 0,
-    }
+    let (year, month0) = days_to_year_and_month(days);
+    (year - UNIX_EPOCH_YEAR) * 12 + month0
 }
 
 pub fn micros_to_months(micros: i64) -> i32 {
-    let date = match chrono::DateTime::from_timestamp_micros(micros) {
-        Some(dt) => dt,
-        None => return 0,
-    };
-    #[expect(clippy::unwrap_used)]
-    let epoch = chrono::DateTime::from_timestamp_micros(0).unwrap();
-    if date > epoch {
-        (date.year() - UNIX_EPOCH_YEAR) * 12 + (date.month0() as i32)
-    } else {
-        let delta = (12 - date.month0() as i32) + 12 * (UNIX_EPOCH_YEAR - date.year() - 1);
-        -delta
-    }
+    days_to_months(micros_to_days(micros))
+}
+
+fn micros_to_days(micros: i64) -> i32 {
+    // The number of days fits, since there are fewer than 2^27 of them in 2^63 microseconds.
+    micros.div_euclid(86_400_000_000) as i32
+}
+
+/// Returns the year and the zero-based month.
+/// The calendar repeats every 400 years, so the days outside the range of `chrono` can be
+/// moved into it.
+fn days_to_year_and_month(days: i32) -> (i32, i32) {
+    let cycles = days.div_euclid(DAYS_IN_400_YEARS);
+    let date =
+        chrono::NaiveDate::from_epoch_days(days.rem_euclid(DAYS_IN_400_YEARS)).unwrap_or_default();
+    (date.year() + 400 * cycles, date.month0() as i32)
 }
 
 // ==== Helpers for bucket transform (Murmur3) ====
-- 
2.43.0


From d6e5a948423ea24e0eb527e9a06584479c8e039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 12/37] fix: compare Iceberg partition values in their field's
 type when pruning

---
 crates/sail-iceberg/src/datasource/pruning.rs | 15 ++++++-
 crates/sail-iceberg/src/spec/types/values.rs  | 41 ++++++++++++++++++-
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index a0b54c0..df58a37 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -12,6 +12,7 @@
 
 use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
+use std::mem::discriminant;
 use std::sync::Arc;
 
 use datafusion::arrow::array::{ArrayRef, BooleanArray, UInt64Array};
@@ -650,12 +651,20 @@ fn partition_predicate_may_match_value(
         return true;
     };
     match &predicate.constraint {
-        PartitionConstraint::Eq(expected) => value == expected,
-        PartitionConstraint::In(values) => values.contains(value),
+        PartitionConstraint::Eq(expected) => !comparable(value, expected) || value == expected,
+        PartitionConstraint::In(values) => values
+            .iter()
+            .any(|expected| !comparable(value, expected) || value == expected),
         PartitionConstraint::Range(range) => literal_may_match_range(value, range),
     }
 }
 
+/// Values of different types (such as a value written before the column was promoted)
+/// cannot be compared.
+fn comparable(left: &PrimitiveLiteral, right: &PrimitiveLiteral) -> bool {
+    discriminant(left) == discriminant(right)
+}
+
 fn literal_may_match_bounds(
     value: &PrimitiveLiteral,
     lower: Option<&PrimitiveLiteral>,
@@ -694,11 +703,13 @@ fn range_may_match_bounds(
 
 fn literal_may_match_range(value: &PrimitiveLiteral, range: &RangeConstraint) -> bool {
     if let Some((min, inclusive)) = &range.min
+        && comparable(value, min)
         && (value < min || (value == min && !inclusive))
     {
         return false;
     }
     if let Some((max, inclusive)) = &range.max
+        && comparable(value, max)
         && (value > max || (value == max && !inclusive))
     {
         return false;
diff --git a/crates/sail-iceberg/src/spec/types/values.rs b/crates/sail-iceberg/src/spec/types/values.rs
index 9c8d893..c2b3bde 100644
--- a/crates/sail-iceberg/src/spec/types/values.rs
+++ b/crates/sail-iceberg/src/spec/types/values.rs
@@ -39,8 +39,9 @@ pub enum PrimitiveLiteral {
     Boolean(bool),
     Int(i32),
     Long(i64),
-    Float(OrderedFloat<f32>),
+    // The double comes first since it holds any float without loss when deserializing.
     Double(OrderedFloat<f64>),
+    Float(OrderedFloat<f32>),
     Int128(i128),
     String(String),
     UInt128(u128),
@@ -821,6 +822,37 @@ impl Literal {
     }
 }
 
+impl Literal {
+    /// Converts a value deserialized without its type, so that it has the kind of the type.
+    fn with_type(self, data_type: &crate::spec::types::Type) -> Self {
+        use crate::spec::types::PrimitiveType;
+
+        let (Literal::Primitive(value), Some(primitive_type)) =
+            (&self, data_type.as_primitive_type())
+        else {
+            return self;
+        };
+        if primitive_type.compatible(value) {
+            return self;
+        }
+        match (primitive_type, value) {
+            (
+                PrimitiveType::Long
+                | PrimitiveType::Time
+                | PrimitiveType::Timestamp
+                | PrimitiveType::Timestamptz
+                | PrimitiveType::TimestampNs
+                | PrimitiveType::TimestamptzNs,
+                PrimitiveLiteral::Int(v),
+            ) => Literal::Primitive(PrimitiveLiteral::Long(i64::from(*v))),
+            (PrimitiveType::Float, PrimitiveLiteral::Double(v)) => {
+                Literal::Primitive(PrimitiveLiteral::Float(OrderedFloat(v.0 as f32)))
+            }
+            _ => self,
+        }
+    }
+}
+
 /// A lightweight, schema-agnostic representation of a struct literal that
 /// serializes into an Avro record matching a provided `StructType`.
 ///
@@ -861,7 +893,12 @@ impl RawLiteral {
         }
         ty.fields()
             .iter()
-            .map(|f| by_name.remove(&f.name).unwrap_or(None))
+            .map(|f| {
+                by_name
+                    .remove(&f.name)
+                    .unwrap_or(None)
+                    .map(|value| value.with_type(&f.field_type))
+            })
             .collect()
     }
 }
-- 
2.43.0


From e7895291c4bdab38f6748c691e7cd5651b3abebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 13/37] fix: prune Iceberg files only on filters whose literal
 has the column's type

---
 .../sail-iceberg/src/datasource/provider.rs   |  1 -
 crates/sail-iceberg/src/datasource/pruning.rs | 57 +++++++++++++------
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 1ec26cf..b73d6eb 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -1368,7 +1368,6 @@ impl IcebergTableProvider {
 
     fn strip_expr(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => Self::strip_expr(&c.expr),
             Expr::Alias(a) => Self::strip_expr(&a.expr),
             _ => expr,
         }
diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index df58a37..c54a64e 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -19,7 +19,7 @@ use datafusion::arrow::array::{ArrayRef, BooleanArray, UInt64Array};
 use datafusion::arrow::datatypes::Schema as ArrowSchema;
 use datafusion::catalog::Session;
 use datafusion::common::pruning::PruningStatistics;
-use datafusion::common::{Column, Result, ToDFSchema};
+use datafusion::common::{Column, Result, ScalarValue, ToDFSchema};
 use datafusion::logical_expr::utils::conjunction;
 use datafusion::logical_expr::{BinaryExpr, Expr, Operator};
 use datafusion::physical_optimizer::pruning::PruningPredicate;
@@ -27,7 +27,7 @@ use datafusion::physical_optimizer::pruning::PruningPredicate;
 use crate::spec::partition::PartitionSpec;
 use crate::spec::transform::Transform;
 use crate::spec::types::values::{Datum, Literal, PrimitiveLiteral};
-use crate::spec::types::{PrimitiveType, Type};
+use crate::spec::types::{NestedField, PrimitiveType, Type};
 use crate::spec::{DataFile, Manifest, ManifestContentType, ManifestList, Schema};
 use crate::utils::conversions::{scalar_to_primitive_literal, to_scalar};
 use crate::utils::transform::apply_transform;
@@ -344,10 +344,18 @@ pub fn prune_manifest_entries(
         .collect()
 }
 
+/// Converts a literal compared with a column, unless it is not a value of the column's type.
+fn source_literal(field: &NestedField, scalar: &ScalarValue) -> Option<PrimitiveLiteral> {
+    let literal = scalar_to_primitive_literal(scalar).ok()?;
+    let primitive_type = field.field_type.as_primitive_type()?;
+    primitive_type.compatible(&literal).then_some(literal)
+}
+
 fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, PrimitiveLiteral)> {
+    // A cast around the column must be kept, since the literal is then compared with the
+    // converted value and not with the column value.
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
@@ -367,7 +375,7 @@ fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, Pri
                 {
                     let col_name = c.name.clone();
                     if let Some(field) = schema.field_by_name(&col_name)
-                        && let Ok(pl) = scalar_to_primitive_literal(sv)
+                        && let Some(pl) = source_literal(field, sv)
                     {
                         acc.push((field.id, pl));
                         return;
@@ -380,7 +388,7 @@ fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, Pri
                 {
                     let col_name = c.name.clone();
                     if let Some(field) = schema.field_by_name(&col_name)
-                        && let Ok(pl) = scalar_to_primitive_literal(sv)
+                        && let Some(pl) = source_literal(field, sv)
                     {
                         acc.push((field.id, pl));
                     }
@@ -404,9 +412,10 @@ fn collect_source_in_filters(
     schema: &Schema,
     filters: &[Expr],
 ) -> HashMap<i32, Vec<PrimitiveLiteral>> {
+    // A cast around the column must be kept, since the literal is then compared with the
+    // converted value and not with the column value.
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
@@ -423,10 +432,16 @@ fn collect_source_in_filters(
                 {
                     let mut vals = Vec::new();
                     for item in &in_list.list {
-                        if let Expr::Literal(sv, _) = item
-                            && let Ok(pl) = scalar_to_primitive_literal(sv)
-                        {
-                            vals.push(pl);
+                        match item {
+                            // NULL never equals a value.
+                            Expr::Literal(sv, _) if sv.is_null() => {}
+                            Expr::Literal(sv, _) => {
+                                let Some(pl) = source_literal(field, sv) else {
+                                    return;
+                                };
+                                vals.push(pl);
+                            }
+                            _ => return,
                         }
                     }
                     if !vals.is_empty() {
@@ -506,17 +521,22 @@ fn partition_predicates_for_spec(
         if let Some(literals) = in_filters.get(&partition_field.source_id) {
             let mut values = Vec::new();
             let mut seen = HashSet::new();
+            let mut complete = true;
             for literal in literals {
-                if let Some(value) = transform_primitive_literal(
+                match transform_primitive_literal(
                     partition_field.transform,
                     source_type,
                     literal.clone(),
-                ) && seen.insert(value.clone())
-                {
-                    values.push(value);
+                ) {
+                    Some(value) => {
+                        if seen.insert(value.clone()) {
+                            values.push(value);
+                        }
+                    }
+                    None => complete = false,
                 }
             }
-            if !values.is_empty() {
+            if complete && !values.is_empty() {
                 predicates.push(PartitionPredicate {
                     field_index,
                     constraint: PartitionConstraint::In(values),
@@ -721,9 +741,10 @@ fn collect_source_range_filters(
     schema: &Schema,
     filters: &[Expr],
 ) -> HashMap<i32, RangeConstraint> {
+    // A cast around the column must be kept, since the literal is then compared with the
+    // converted value and not with the column value.
     fn strip(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => strip(&c.expr),
             Expr::Alias(a) => strip(&a.expr),
             _ => expr,
         }
@@ -762,7 +783,7 @@ fn collect_source_range_filters(
         inclusive: bool,
     ) {
         if let Some(field) = schema.field_by_name(column_name)
-            && let Ok(pl) = scalar_to_primitive_literal(literal)
+            && let Some(pl) = source_literal(field, literal)
         {
             let entry = acc.entry(field.id).or_default();
             tighten_min(&mut entry.min, (pl, inclusive));
@@ -777,7 +798,7 @@ fn collect_source_range_filters(
         inclusive: bool,
     ) {
         if let Some(field) = schema.field_by_name(column_name)
-            && let Ok(pl) = scalar_to_primitive_literal(literal)
+            && let Some(pl) = source_literal(field, literal)
         {
             let entry = acc.entry(field.id).or_default();
             tighten_max(&mut entry.max, (pl, inclusive));
-- 
2.43.0


From cbfa63700b57b9a86d50f2f78383230d34d42e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 14/37] fix: keep Iceberg files whose statistics cannot rule a
 filter out

---
 crates/sail-iceberg/src/datasource/pruning.rs | 55 ++++++++++++-------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index c54a64e..d1da65f 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -11,6 +11,7 @@
 // limitations under the License.
 
 use std::cell::RefCell;
+use std::cmp::Ordering;
 use std::collections::{HashMap, HashSet};
 use std::mem::discriminant;
 use std::sync::Arc;
@@ -78,6 +79,14 @@ impl IcebergPruningStats {
         self.name_to_field_id.get(&column.name).copied()
     }
 
+    /// Bounds do not account for NaN, which is larger than any other value.
+    fn may_contain_nan(&self, file: &DataFile, field_id: i32) -> bool {
+        matches!(
+            self.field_id_to_type.get(&field_id),
+            Some(PrimitiveType::Float | PrimitiveType::Double)
+        ) && file.nan_value_counts().get(&field_id) != Some(&0)
+    }
+
     fn datum_to_scalar_for_field(
         &self,
         field_id: i32,
@@ -131,6 +140,7 @@ impl PruningStatistics for IcebergPruningStats {
         let scalars = self.files.iter().map(|f| {
             f.upper_bounds()
                 .get(&field_id)
+                .filter(|_| !self.may_contain_nan(f, field_id))
                 .map(|d| self.datum_to_scalar_for_field(field_id, d))
         });
         let values =
@@ -149,10 +159,10 @@ impl PruningStatistics for IcebergPruningStats {
         if let Some(arr) = self.nulls_cache.borrow().get(&field_id) {
             return Some(arr.clone());
         }
-        let counts: Vec<u64> = self
+        let counts: Vec<Option<u64>> = self
             .files
             .iter()
-            .map(|f| f.null_value_counts().get(&field_id).copied().unwrap_or(0))
+            .map(|f| f.null_value_counts().get(&field_id).copied())
             .collect();
         let arr: ArrayRef = Arc::new(UInt64Array::from(counts));
         self.nulls_cache.borrow_mut().insert(field_id, arr.clone());
@@ -169,31 +179,33 @@ impl PruningStatistics for IcebergPruningStats {
         Some(arr)
     }
 
-    fn contained(
-        &self,
-        _column: &Column,
-        _value: &std::collections::HashSet<datafusion::common::scalar::ScalarValue>,
-    ) -> Option<BooleanArray> {
-        let field_id = self.field_id_for(_column)?;
+    fn contained(&self, column: &Column, value: &HashSet<ScalarValue>) -> Option<BooleanArray> {
+        let field_id = self.field_id_for(column)?;
         let mut result = Vec::with_capacity(self.files.len());
         for f in &self.files {
             let lower = f.lower_bounds().get(&field_id);
             let upper = f.upper_bounds().get(&field_id);
-            if let (Some(lb), Some(ub)) = (lower, upper) {
+            let contained = if let (Some(lb), Some(ub)) = (lower, upper)
+                && !self.may_contain_nan(f, field_id)
+            {
                 let lb_sv = self.datum_to_scalar_for_field(field_id, lb);
                 let ub_sv = self.datum_to_scalar_for_field(field_id, ub);
-                let mut any_match = false;
-                for v in _value.iter() {
-                    if &lb_sv == v && &ub_sv == v {
-                        any_match = true;
-                        break;
-                    }
+                let outside = |v: &ScalarValue| {
+                    matches!(v.partial_cmp(&lb_sv), Some(Ordering::Less))
+                        || matches!(v.partial_cmp(&ub_sv), Some(Ordering::Greater))
+                };
+                if lb_sv == ub_sv && value.contains(&lb_sv) {
+                    Some(true)
+                } else if value.iter().all(outside) {
+                    Some(false)
+                } else {
+                    None
                 }
-                result.push(any_match);
             } else {
-                // If stats are missing, we cannot safely prune the file.
-                result.push(true);
-            }
+                // If stats are missing, we cannot tell anything about the file.
+                None
+            };
+            result.push(contained);
         }
         Some(BooleanArray::from(result))
     }
@@ -289,9 +301,14 @@ pub fn prune_manifests_by_partition_summaries<'a>(
                     .lower_bound_bytes
                     .as_ref()
                     .and_then(|b| prim_ty.literal_from_bytes(b).ok());
+                // NaN is larger than any other value, but not included in the bounds.
+                let may_contain_nan =
+                    matches!(prim_ty, PrimitiveType::Float | PrimitiveType::Double)
+                        && summary.contains_nan != Some(false);
                 let upper = summary
                     .upper_bound_bytes
                     .as_ref()
+                    .filter(|_| !may_contain_nan)
                     .and_then(|b| prim_ty.literal_from_bytes(b).ok());
                 partition_predicate_may_match_bounds(predicate, lower.as_ref(), upper.as_ref())
             })
-- 
2.43.0


From 6d93fa68069b62f30002b583bc232b06c895ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 15/37] fix: re-apply Iceberg partition filters after pruning

---
 .../sail-iceberg/src/datasource/provider.rs   | 99 +++++++------------
 1 file changed, 36 insertions(+), 63 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index b73d6eb..3515ca8 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -583,8 +583,6 @@ impl IcebergTableProvider {
     fn build_parquet_source(
         &self,
         session: &dyn Session,
-        projection: Option<&Vec<usize>>,
-        filters: &[Expr],
         parquet_pushdown_filters: &[Expr],
         enable_pushdown: bool,
     ) -> Result<Arc<dyn datafusion::datasource::physical_plan::FileSource>> {
@@ -596,11 +594,13 @@ impl IcebergTableProvider {
         let mut parquet_source = ParquetSource::new(Arc::clone(&file_schema))
             .with_table_parquet_options(parquet_options);
         if enable_pushdown && !parquet_pushdown_filters.is_empty() {
-            let logical_schema = self.rebuild_logical_schema_for_filters(projection, filters);
-            let df_schema = logical_schema.to_dfschema()?;
+            let df_schema = file_schema.to_dfschema()?;
             if let Some(pushdown_expr) = conjunction(parquet_pushdown_filters.iter().cloned()) {
                 let simplified = simplify_expr(session, &df_schema, pushdown_expr)?;
-                parquet_source = parquet_source.with_predicate(simplified);
+                // These filters are not evaluated elsewhere, so the scan must drop the rows.
+                parquet_source = parquet_source
+                    .with_predicate(simplified)
+                    .with_pushdown_filters(true);
             }
         }
         Ok(Arc::new(parquet_source))
@@ -630,28 +630,6 @@ impl IcebergTableProvider {
         Arc::new(ParquetSource::new(table_schema).with_table_parquet_options(parquet_options))
     }
 
-    fn expanded_projection(
-        &self,
-        projection: Option<&Vec<usize>>,
-        filters: &[Expr],
-    ) -> Option<Vec<usize>> {
-        if let Some(used) = projection {
-            let mut cols: Vec<usize> = used.clone();
-            if let Some(expr) = conjunction(filters.iter().cloned()) {
-                for c in expr.column_refs() {
-                    if let Ok(idx) = self.arrow_schema.index_of(c.name.as_str())
-                        && !cols.contains(&idx)
-                    {
-                        cols.push(idx);
-                    }
-                }
-            }
-            Some(cols)
-        } else {
-            None
-        }
-    }
-
     /// Aggregate table-level statistics from a list of Iceberg data files
     fn aggregate_statistics(&self, data_files: &[DataFile]) -> Statistics {
         if data_files.is_empty() {
@@ -929,14 +907,8 @@ impl TableProvider for IcebergTableProvider {
             // is identical to the pre-delete-integration behavior.
             let partitioned_files = self.create_partitioned_files(&store_ctx, all_data_files)?;
             let file_groups = self.create_file_groups(partitioned_files);
-            let parquet_source = self.build_parquet_source(
-                session,
-                projection,
-                filters,
-                &parquet_pushdown_filters,
-                true,
-            )?;
-            let expanded_projection = self.expanded_projection(projection, filters);
+            let parquet_source =
+                self.build_parquet_source(session, &parquet_pushdown_filters, true)?;
             let file_scan_config = FileScanConfigBuilder::new(object_store_url, parquet_source)
                 .with_file_groups(if file_groups.is_empty() {
                     vec![FileGroup::from(vec![])]
@@ -944,7 +916,7 @@ impl TableProvider for IcebergTableProvider {
                     file_groups
                 })
                 .with_statistics(table_stats)
-                .with_projection_indices(expanded_projection)?
+                .with_projection_indices(projection.cloned())?
                 .with_limit(limit)
                 .with_expr_adapter(Some(iceberg_schema_evolution_adapter()))
                 .build();
@@ -966,8 +938,6 @@ impl TableProvider for IcebergTableProvider {
             let file_groups = self.create_file_groups(partitioned_files);
             let parquet_source = self.build_parquet_source(
                 session,
-                projection,
-                filters,
                 &[], // no parquet-level predicate
                 false,
             )?;
@@ -983,7 +953,7 @@ impl TableProvider for IcebergTableProvider {
         for (df, pos_deletes, eq_deletes) in dirty_units {
             let partitioned = self.create_partitioned_files(&store_ctx, vec![df.clone()])?;
             // Single-file, single-partition scan — preserves row order for positional deletes.
-            let parquet_source = self.build_parquet_source(session, None, &[], &[], false)?;
+            let parquet_source = self.build_parquet_source(session, &[], false)?;
             let file_scan_config =
                 FileScanConfigBuilder::new(object_store_url.clone(), parquet_source)
                     .with_file_groups(vec![FileGroup::from(partitioned)])
@@ -1190,7 +1160,7 @@ impl IcebergTableProvider {
 
         for (df, positional_deletes, equality_deletes) in dirty_units {
             let partitioned = self.create_partitioned_files(&store_ctx, vec![df.clone()])?;
-            let parquet_source = self.build_parquet_source(session, None, &[], &[], false)?;
+            let parquet_source = self.build_parquet_source(session, &[], false)?;
             let file_scan_config =
                 FileScanConfigBuilder::new(object_store_url.clone(), parquet_source)
                     .with_file_groups(vec![FileGroup::from(partitioned)])
@@ -1388,36 +1358,39 @@ impl IcebergTableProvider {
         &self,
         col_name: &str,
     ) -> Option<TableProviderFilterPushDown> {
-        let only_identity = self.partition_source_col_only_uses_identity(col_name)?;
-        if only_identity {
+        if self.every_spec_has_identity_partition(col_name) {
             Some(TableProviderFilterPushDown::Exact)
-        } else {
+        } else if self.is_partition_source_col(col_name) {
             Some(TableProviderFilterPushDown::Inexact)
+        } else {
+            None
         }
     }
 
-    fn is_partition_source_col(&self, col_name: &str) -> bool {
-        self.partition_source_col_only_uses_identity(col_name)
-            .is_some()
+    /// Files written with a spec that does not partition by the column may not even contain it.
+    fn every_spec_has_identity_partition(&self, col_name: &str) -> bool {
+        !self.partition_specs.is_empty()
+            && self.partition_specs.iter().all(|spec| {
+                spec.fields().iter().any(|pf| {
+                    matches!(pf.transform, Transform::Identity)
+                        && self
+                            .schema
+                            .field_by_id(pf.source_id)
+                            .is_some_and(|field| field.name == col_name)
+                })
+            })
     }
 
-    fn partition_source_col_only_uses_identity(&self, col_name: &str) -> Option<bool> {
-        let mut found = false;
-        let mut only_identity = true;
-        for spec in &self.partition_specs {
-            for pf in spec.fields().iter() {
-                if matches!(pf.transform, Transform::Void | Transform::Unknown) {
-                    continue;
-                }
-                if let Some(field) = self.schema.field_by_id(pf.source_id)
-                    && field.name == col_name
-                {
-                    found = true;
-                    only_identity &= matches!(pf.transform, Transform::Identity);
-                }
-            }
-        }
-        found.then_some(only_identity)
+    fn is_partition_source_col(&self, col_name: &str) -> bool {
+        self.partition_specs.iter().any(|spec| {
+            spec.fields().iter().any(|pf| {
+                !matches!(pf.transform, Transform::Void | Transform::Unknown)
+                    && self
+                        .schema
+                        .field_by_id(pf.source_id)
+                        .is_some_and(|field| field.name == col_name)
+            })
+        })
     }
 
     fn rebuild_logical_schema_for_filters(
-- 
2.43.0


From 932d2d4da763d53fd6c59f850295e52830f3746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 16/37] fix: do not prune Iceberg files for LIMIT when delete
 files exist

---
 .../sail-iceberg/src/datasource/provider.rs   | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 3515ca8..b3a4538 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -835,10 +835,19 @@ impl TableProvider for IcebergTableProvider {
             .await?;
         log::trace!("Loaded {} data files", data_files_with_seq.len());
 
+        // Build the delete-file index for this snapshot. Rejects v3 deletion vectors.
+        log::trace!("Building delete file index...");
+        let delete_index = self
+            .build_delete_file_index(&store_ctx, &manifest_list)
+            .await?;
+
+        // The record counts of data files include deleted rows.
+        let pruning_limit = limit.filter(|_| delete_index.is_empty());
+
         // Build filter conjunction and run DataFusion-based pruning on Iceberg metrics.
         // Preserve per-file sequence numbers through the prune.
         let filter_expr = conjunction(pruning_filters.iter().cloned());
-        if filter_expr.is_some() || limit.is_some() {
+        if filter_expr.is_some() || pruning_limit.is_some() {
             let (files_only, seqs_only): (Vec<DataFile>, Vec<i64>) =
                 data_files_with_seq.iter().cloned().unzip();
             let seq_by_path: HashMap<String, i64> = files_only
@@ -849,7 +858,7 @@ impl TableProvider for IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                pruning_limit,
                 self.rebuild_logical_schema_for_filters(projection, filters),
                 files_only,
                 &self.schema,
@@ -867,12 +876,6 @@ impl TableProvider for IcebergTableProvider {
             );
         }
 
-        // Build the delete-file index for this snapshot. Rejects v3 deletion vectors.
-        log::trace!("Building delete file index...");
-        let delete_index = self
-            .build_delete_file_index(&store_ctx, &manifest_list)
-            .await?;
-
         // Partition each data file into "clean" (no matching deletes) vs "dirty"
         // (one or more matching deletes) buckets. We only pay the cost of
         // `IcebergDeleteApplyExec` for dirty files.
@@ -1074,8 +1077,14 @@ impl IcebergTableProvider {
             .load_data_files_with_seq(session, &pruning_filters, &store_ctx, &manifest_list)
             .await?;
 
+        let delete_index = self
+            .build_delete_file_index(&store_ctx, &manifest_list)
+            .await?;
+        // The record counts of data files include deleted rows.
+        let pruning_limit = limit.filter(|_| delete_index.is_empty());
+
         let filter_expr = conjunction(pruning_filters.iter().cloned());
-        if filter_expr.is_some() || limit.is_some() {
+        if filter_expr.is_some() || pruning_limit.is_some() {
             let (files_only, seqs_only): (Vec<DataFile>, Vec<i64>) =
                 data_files_with_seq.iter().cloned().unzip();
             let seq_by_path: HashMap<String, i64> = files_only
@@ -1086,7 +1095,7 @@ impl IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                pruning_limit,
                 self.rebuild_logical_schema_for_filters(None, filters),
                 files_only,
                 &self.schema,
@@ -1106,9 +1115,6 @@ impl IcebergTableProvider {
             )));
         }
 
-        let delete_index = self
-            .build_delete_file_index(&store_ctx, &manifest_list)
-            .await?;
         let object_store_url = self.object_store_url()?;
         let file_column_name = self.file_column_name.as_ref().ok_or_else(|| {
             datafusion::common::DataFusionError::Internal(
-- 
2.43.0


From 891863c3f8371170dfd3cc7121e152fcef3f7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:45 +0000
Subject: [PATCH 17/37] fix: do not prune Iceberg files for LIMIT by rows that
 filters remove

---
 crates/sail-iceberg/src/datasource/provider.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index b3a4538..253edcb 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -841,8 +841,8 @@ impl TableProvider for IcebergTableProvider {
             .build_delete_file_index(&store_ctx, &manifest_list)
             .await?;
 
-        // The record counts of data files include deleted rows.
-        let pruning_limit = limit.filter(|_| delete_index.is_empty());
+        // The record counts of data files include deleted rows and rows to be filtered out.
+        let pruning_limit = limit.filter(|_| filters.is_empty() && delete_index.is_empty());
 
         // Build filter conjunction and run DataFusion-based pruning on Iceberg metrics.
         // Preserve per-file sequence numbers through the prune.
@@ -1080,8 +1080,8 @@ impl IcebergTableProvider {
         let delete_index = self
             .build_delete_file_index(&store_ctx, &manifest_list)
             .await?;
-        // The record counts of data files include deleted rows.
-        let pruning_limit = limit.filter(|_| delete_index.is_empty());
+        // The record counts of data files include deleted rows and rows to be filtered out.
+        let pruning_limit = limit.filter(|_| filters.is_empty() && delete_index.is_empty());
 
         let filter_expr = conjunction(pruning_filters.iter().cloned());
         if filter_expr.is_some() || pruning_limit.is_some() {
-- 
2.43.0


From 6b856b1b2fcda011b7cf47d1502051d8dec5d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 18/37] fix: match Iceberg column statistics to columns by name
 and type

---
 .../sail-iceberg/src/datasource/provider.rs   | 187 +++++++++---------
 1 file changed, 89 insertions(+), 98 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 253edcb..0d5c366 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -65,9 +65,10 @@ use crate::spec::delete_index::{DeleteFileIndex, DeleteFileRef};
 use crate::spec::transform::Transform;
 use crate::spec::types::values::Literal;
 use crate::spec::{
-    DataFile, ManifestContentType, ManifestList, ManifestStatus, PartitionSpec, Schema, Snapshot,
+    DataFile, Datum, ManifestContentType, ManifestList, ManifestStatus, PartitionSpec,
+    PrimitiveType, Schema, Snapshot, Type,
 };
-use crate::utils::conversions::primitive_to_scalar_default;
+use crate::utils::conversions::{primitive_to_scalar_default, to_scalar};
 use crate::utils::get_object_store_from_session;
 
 fn iceberg_schema_evolution_adapter() -> Arc<dyn PhysicalExprAdapterFactory> {
@@ -638,70 +639,37 @@ impl IcebergTableProvider {
 
         let mut total_rows: usize = 0;
         let mut total_bytes: usize = 0;
-
-        // Pre-compute field id per column index
-        let field_ids: Vec<i32> = self.schema.fields().iter().map(|f| f.id).collect();
-
-        // Initialize accumulators per column
-        let mut min_scalars: Vec<Option<ScalarValue>> =
+        let mut column_statistics: Vec<Option<ColumnStatistics>> =
             vec![None; self.arrow_schema.fields().len()];
-        let mut max_scalars: Vec<Option<ScalarValue>> =
-            vec![None; self.arrow_schema.fields().len()];
-        let mut null_counts: Vec<usize> = vec![0; self.arrow_schema.fields().len()];
 
         for df in data_files {
             total_rows = total_rows.saturating_add(df.record_count() as usize);
             total_bytes = total_bytes.saturating_add(df.file_size_in_bytes() as usize);
 
-            for (col_idx, field_id) in field_ids.iter().enumerate() {
-                // null counts
-                if let Some(c) = df.null_value_counts().get(field_id) {
-                    null_counts[col_idx] = null_counts[col_idx].saturating_add(*c as usize);
-                }
-
-                // min
-                if let Some(d) = df.lower_bounds().get(field_id) {
-                    let sv = primitive_to_scalar_default(&d.literal);
-                    min_scalars[col_idx] = match (&min_scalars[col_idx], &sv) {
-                        (None, s) => Some(s.clone()),
-                        (Some(existing), s) => Some(if s < existing {
-                            s.clone()
-                        } else {
-                            existing.clone()
-                        }),
-                    };
-                }
-
-                // max
-                if let Some(d) = df.upper_bounds().get(field_id) {
-                    let sv = primitive_to_scalar_default(&d.literal);
-                    max_scalars[col_idx] = match (&max_scalars[col_idx], &sv) {
-                        (None, s) => Some(s.clone()),
-                        (Some(existing), s) => Some(if s > existing {
-                            s.clone()
-                        } else {
-                            existing.clone()
-                        }),
-                    };
-                }
+            for (column, total) in self
+                .arrow_schema
+                .fields()
+                .iter()
+                .zip(&mut column_statistics)
+            {
+                let stats = self.column_statistics(column, df);
+                *total = Some(match total.take() {
+                    None => stats,
+                    Some(total) => ColumnStatistics {
+                        null_count: total.null_count.add(&stats.null_count),
+                        max_value: total.max_value.max(&stats.max_value),
+                        min_value: total.min_value.min(&stats.min_value),
+                        distinct_count: Precision::Absent,
+                        sum_value: Precision::Absent,
+                        byte_size: Precision::Absent,
+                    },
+                });
             }
         }
 
-        let column_statistics = (0..self.arrow_schema.fields().len())
-            .map(|i| ColumnStatistics {
-                null_count: Precision::Exact(null_counts[i]),
-                max_value: max_scalars[i]
-                    .clone()
-                    .map(Precision::Exact)
-                    .unwrap_or(Precision::Absent),
-                min_value: min_scalars[i]
-                    .clone()
-                    .map(Precision::Exact)
-                    .unwrap_or(Precision::Absent),
-                distinct_count: Precision::Absent,
-                sum_value: Precision::Absent,
-                byte_size: Precision::Absent,
-            })
+        let column_statistics = column_statistics
+            .into_iter()
+            .map(|stats| stats.unwrap_or_else(ColumnStatistics::new_unknown))
             .collect();
 
         Statistics {
@@ -711,56 +679,79 @@ impl IcebergTableProvider {
         }
     }
 
+    /// Create statistics of a column from Iceberg data file metadata. The columns of the
+    /// Arrow schema may be in a different order from the fields of the table schema.
+    fn column_statistics(&self, column: &Field, data_file: &DataFile) -> ColumnStatistics {
+        let Some(field) = self
+            .schema
+            .fields()
+            .iter()
+            .find(|field| &field.name == column.name())
+        else {
+            return ColumnStatistics::new_unknown();
+        };
+        let bound = |datum: Option<&Datum>| {
+            let value = datum
+                .and_then(|datum| {
+                    to_scalar(
+                        &Literal::Primitive(datum.literal.clone()),
+                        &field.field_type,
+                    )
+                    .ok()
+                })
+                .and_then(|value| value.cast_to(column.data_type()).ok())
+                .filter(|value| !value.is_null());
+            match (value, field.field_type.as_ref()) {
+                (None, _) => Precision::Absent,
+                // The bounds may be truncated, and the bounds do not account for NaN.
+                (
+                    Some(value),
+                    Type::Primitive(
+                        PrimitiveType::String
+                        | PrimitiveType::Binary
+                        | PrimitiveType::Fixed(_)
+                        | PrimitiveType::Float
+                        | PrimitiveType::Double,
+                    ),
+                ) => Precision::Inexact(value),
+                (Some(value), _) => Precision::Exact(value),
+            }
+        };
+        // NaN is larger than any other value.
+        let may_contain_nan = matches!(
+            field.field_type.as_ref(),
+            Type::Primitive(PrimitiveType::Float | PrimitiveType::Double)
+        ) && data_file.nan_value_counts().get(&field.id) != Some(&0);
+
+        ColumnStatistics {
+            null_count: data_file
+                .null_value_counts()
+                .get(&field.id)
+                .map(|&count| Precision::Exact(count as usize))
+                .unwrap_or(Precision::Absent),
+            max_value: bound(
+                data_file
+                    .upper_bounds()
+                    .get(&field.id)
+                    .filter(|_| !may_contain_nan),
+            ),
+            min_value: bound(data_file.lower_bounds().get(&field.id)),
+            distinct_count: Precision::Absent,
+            sum_value: Precision::Absent,
+            byte_size: Precision::Absent,
+        }
+    }
+
     /// Create file statistics from Iceberg data file metadata
     fn create_file_statistics(&self, data_file: &DataFile) -> Statistics {
         let num_rows = Precision::Exact(data_file.record_count() as usize);
         let total_byte_size = Precision::Exact(data_file.file_size_in_bytes() as usize);
 
-        // Create column statistics from Iceberg metadata
         let column_statistics = self
             .arrow_schema
             .fields()
             .iter()
-            .enumerate()
-            .map(|(i, _field)| {
-                let field_id = self
-                    .schema
-                    .fields()
-                    .get(i)
-                    .map(|f| f.id)
-                    .unwrap_or(i as i32 + 1);
-
-                let null_count = data_file
-                    .null_value_counts()
-                    .get(&field_id)
-                    .map(|&count| Precision::Exact(count as usize))
-                    .unwrap_or(Precision::Absent);
-
-                let distinct_count = Precision::Absent;
-
-                let min_value = data_file
-                    .lower_bounds()
-                    .get(&field_id)
-                    .map(|datum| primitive_to_scalar_default(&datum.literal))
-                    .map(Precision::Exact)
-                    .unwrap_or(Precision::Absent);
-
-                let max_value = data_file
-                    .upper_bounds()
-                    .get(&field_id)
-                    .map(|datum| primitive_to_scalar_default(&datum.literal))
-                    .map(Precision::Exact)
-                    .unwrap_or(Precision::Absent);
-
-                ColumnStatistics {
-                    null_count,
-                    max_value,
-                    min_value,
-                    distinct_count,
-                    sum_value: Precision::Absent,
-                    byte_size: Precision::Absent,
-                }
-            })
+            .map(|column| self.column_statistics(column, data_file))
             .collect();
 
         Statistics {
-- 
2.43.0


From ba6c491f5b1b358e191cb819dd5e11c6f6f81570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 19/37] fix: write Iceberg partition summary bounds and key
 metadata as Avro bytes

---
 crates/sail-iceberg/src/spec/manifest_list.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/sail-iceberg/src/spec/manifest_list.rs b/crates/sail-iceberg/src/spec/manifest_list.rs
index b702a24..d4786ee 100644
--- a/crates/sail-iceberg/src/spec/manifest_list.rs
+++ b/crates/sail-iceberg/src/spec/manifest_list.rs
@@ -270,9 +270,11 @@ pub struct FieldSummaryAvro {
     contains_null: bool,
     #[serde(rename = "contains_nan")]
     contains_nan: Option<bool>,
-    #[serde(rename = "lower_bound")]
+    #[serde(rename = "lower_bound", default)]
+    #[serde(with = "apache_avro::serde_avro_bytes_opt")]
     lower_bound: Option<Vec<u8>>,
-    #[serde(rename = "upper_bound")]
+    #[serde(rename = "upper_bound", default)]
+    #[serde(with = "apache_avro::serde_avro_bytes_opt")]
     upper_bound: Option<Vec<u8>>,
 }
 
@@ -908,7 +910,8 @@ pub(super) mod _serde {
         pub deleted_rows_count: i64,
         #[serde(rename = "partitions")]
         pub partitions: Option<Vec<FieldSummaryAvro>>,
-        #[serde(rename = "key_metadata")]
+        #[serde(rename = "key_metadata", default)]
+        #[serde(with = "apache_avro::serde_avro_bytes_opt")]
         pub key_metadata: Option<Vec<u8>>,
     }
 
@@ -943,7 +946,8 @@ pub(super) mod _serde {
         pub deleted_rows_count: i64,
         #[serde(rename = "partitions")]
         pub partitions: Option<Vec<FieldSummaryAvro>>,
-        #[serde(rename = "key_metadata")]
+        #[serde(rename = "key_metadata", default)]
+        #[serde(with = "apache_avro::serde_avro_bytes_opt")]
         pub key_metadata: Option<Vec<u8>>,
         #[serde(rename = "first_row_id", default)]
         pub first_row_id: Option<i64>,
-- 
2.43.0


From 7a6fdbebdcefdddb081f26c81f1f251efe0f844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 20/37] fix: keep decimal and binary Iceberg partition values

---
 crates/sail-iceberg/src/spec/types/values.rs | 90 +++++++++++++++++++-
 crates/sail-iceberg/src/utils/conversions.rs | 11 ++-
 2 files changed, 95 insertions(+), 6 deletions(-)

diff --git a/crates/sail-iceberg/src/spec/types/values.rs b/crates/sail-iceberg/src/spec/types/values.rs
index c2b3bde..7352b85 100644
--- a/crates/sail-iceberg/src/spec/types/values.rs
+++ b/crates/sail-iceberg/src/spec/types/values.rs
@@ -45,7 +45,35 @@ pub enum PrimitiveLiteral {
     Int128(i128),
     String(String),
     UInt128(u128),
-    Binary(Vec<u8>),
+    Binary(#[serde(deserialize_with = "deserialize_binary")] Vec<u8>),
+}
+
+/// Deserializes bytes, or a sequence of numbers.
+fn deserialize_binary<'de, D>(deserializer: D) -> Result<Vec<u8>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    struct BinaryVisitor;
+    impl<'de> serde::de::Visitor<'de> for BinaryVisitor {
+        type Value = Vec<u8>;
+        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+            f.write_str("bytes")
+        }
+        fn visit_bytes<E>(self, value: &[u8]) -> Result<Self::Value, E> {
+            Ok(value.to_vec())
+        }
+        fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+        where
+            A: serde::de::SeqAccess<'de>,
+        {
+            let mut out = Vec::new();
+            while let Some(value) = seq.next_element()? {
+                out.push(value);
+            }
+            Ok(out)
+        }
+    }
+    deserializer.deserialize_bytes(BinaryVisitor)
 }
 
 impl PartialOrd for PrimitiveLiteral {
@@ -848,11 +876,54 @@ impl Literal {
             (PrimitiveType::Float, PrimitiveLiteral::Double(v)) => {
                 Literal::Primitive(PrimitiveLiteral::Float(OrderedFloat(v.0 as f32)))
             }
+            // Bytes that are valid UTF-8 are deserialized as a string.
+            (PrimitiveType::Decimal { .. }, PrimitiveLiteral::String(v)) => {
+                decimal_from_big_endian(v.as_bytes()).unwrap_or(self)
+            }
+            (PrimitiveType::Decimal { .. }, PrimitiveLiteral::Binary(v)) => {
+                decimal_from_big_endian(v).unwrap_or(self)
+            }
+            (PrimitiveType::Binary | PrimitiveType::Fixed(_), PrimitiveLiteral::String(v)) => {
+                Literal::Primitive(PrimitiveLiteral::Binary(v.as_bytes().to_vec()))
+            }
             _ => self,
         }
     }
 }
 
+/// Reads the two's-complement big-endian unscaled value of a decimal.
+fn decimal_from_big_endian(bytes: &[u8]) -> Option<Literal> {
+    let first = bytes.first()?;
+    let sign = if first & 0x80 == 0 { 0 } else { 0xff };
+    let mut buffer = [sign; 16];
+    let start = buffer.len().checked_sub(bytes.len())?;
+    buffer[start..].copy_from_slice(bytes);
+    let value = i128::from_be_bytes(buffer);
+    Some(Literal::Primitive(PrimitiveLiteral::Int128(value)))
+}
+
+/// Writes the unscaled value of a decimal as the fixed-size bytes of its Avro type.
+fn decimal_to_big_endian(value: i128, precision: u32) -> Result<Literal, String> {
+    let size = crate::spec::types::Type::decimal_required_bytes(precision)? as usize;
+    let bytes = value.to_be_bytes();
+    let start = bytes.len().saturating_sub(size);
+    Ok(Literal::Primitive(PrimitiveLiteral::Binary(
+        bytes[start..].to_vec(),
+    )))
+}
+
+/// Serializes as bytes rather than as a sequence of numbers.
+struct Bytes<'a>(&'a [u8]);
+
+impl Serialize for Bytes<'_> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_bytes(self.0)
+    }
+}
+
 /// A lightweight, schema-agnostic representation of a struct literal that
 /// serializes into an Avro record matching a provided `StructType`.
 ///
@@ -880,7 +951,14 @@ impl RawLiteral {
         }
         let mut out = Vec::with_capacity(values.len());
         for (i, f) in fields.iter().enumerate() {
-            out.push((f.name.clone(), values[i].clone()));
+            let value = match (&values[i], f.field_type.as_primitive_type()) {
+                (
+                    Some(Literal::Primitive(PrimitiveLiteral::Int128(v))),
+                    Some(crate::spec::types::PrimitiveType::Decimal { precision, .. }),
+                ) => Some(decimal_to_big_endian(*v, *precision)?),
+                (value, _) => value.clone(),
+            };
+            out.push((f.name.clone(), value));
         }
         Ok(RawLiteral(out))
     }
@@ -912,7 +990,13 @@ impl Serialize for RawLiteral {
         let mut ss = serializer.serialize_struct("", self.0.len())?;
         for (k, v) in &self.0 {
             // Avro's serde requires &'static str for field names
-            ss.serialize_field(Box::leak(k.clone().into_boxed_str()), v)?;
+            let name = Box::leak(k.clone().into_boxed_str());
+            match v {
+                Some(Literal::Primitive(PrimitiveLiteral::Binary(b))) => {
+                    ss.serialize_field(name, &Some(Bytes(b)))?
+                }
+                v => ss.serialize_field(name, v)?,
+            }
         }
         ss.end()
     }
diff --git a/crates/sail-iceberg/src/utils/conversions.rs b/crates/sail-iceberg/src/utils/conversions.rs
index 6f96017..aeef85c 100644
--- a/crates/sail-iceberg/src/utils/conversions.rs
+++ b/crates/sail-iceberg/src/utils/conversions.rs
@@ -274,8 +274,10 @@ pub fn scalar_to_iceberg_literal(
         SV::UInt64(Some(v)) => Ok(Literal::Primitive(PL::Long(*v as i64))),
         SV::Float32(Some(v)) => Ok(Literal::Primitive(PL::Float(OrderedFloat(*v)))),
         SV::Float64(Some(v)) => Ok(Literal::Primitive(PL::Double(OrderedFloat(*v)))),
-        SV::Utf8(Some(s)) | SV::LargeUtf8(Some(s)) => Ok(Literal::Primitive(PL::String(s.clone()))),
-        SV::Binary(Some(b)) | SV::LargeBinary(Some(b)) => {
+        SV::Utf8(Some(s)) | SV::LargeUtf8(Some(s)) | SV::Utf8View(Some(s)) => {
+            Ok(Literal::Primitive(PL::String(s.clone())))
+        }
+        SV::Binary(Some(b)) | SV::LargeBinary(Some(b)) | SV::BinaryView(Some(b)) => {
             Ok(Literal::Primitive(PL::Binary(b.clone())))
         }
         SV::Date32(Some(v)) => Ok(Literal::Primitive(PL::Int(*v))),
@@ -378,7 +380,10 @@ pub fn array_value_to_literal(array: &ArrayRef, row: usize) -> Option<Literal> {
             };
             value_in_micros.map(|v| Literal::Primitive(PrimitiveLiteral::Long(v)))
         }
-        _ => None,
+        data_type => {
+            let scalar = ScalarValue::try_from_array(array, row).ok()?;
+            scalar_to_iceberg_literal(&scalar, data_type).ok()
+        }
     }
 }
 
-- 
2.43.0


From a92bd74873b2b28b04402f89158d681bb0944f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 21/37] fix: encode spaces and slashes in Iceberg partition
 directories

---
 crates/sail-iceberg/src/operations/write/partition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sail-iceberg/src/operations/write/partition.rs b/crates/sail-iceberg/src/operations/write/partition.rs
index a09bb73..bf562be 100644
--- a/crates/sail-iceberg/src/operations/write/partition.rs
+++ b/crates/sail-iceberg/src/operations/write/partition.rs
@@ -146,7 +146,10 @@ pub fn build_partition_dir(
             _ => base_human,
         };
 
-        segs.push(format!("{}={}", f.name, human));
+        // The segment is part of the data file URL, in which a space would be escaped
+        // and a path component of dots would be removed.
+        let seg = format!("{}={}", f.name, human);
+        segs.push(seg.replace('/', "%2F").replace(' ', "+"));
     }
     Ok(segs.join("/"))
 }
-- 
2.43.0


From 526ca321fa7de5301a26b4d75bacf5f17f7d6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 22/37] fix: apply the projection when reading Iceberg metadata
 as data

---
 .../sail-iceberg/src/datasource/provider.rs   | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 0d5c366..781bed1 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -1462,9 +1462,10 @@ impl IcebergTableProvider {
 
         if projection.is_some() || !filters.is_empty() || limit.is_some() {
             log::debug!(
-                "metadata-as-data scan does not push down projection/filters/limit \
-                 (projection_provided={}, num_filters={}, limit={:?}); relying on \
-                 the planner to apply them above the scan. Note: \
+                "metadata-as-data scan does not push down projection/filters/limit into \
+                 the file scan (projection_provided={}, num_filters={}, limit={:?}); \
+                 the projection is applied on top of the scan, and filters and limit \
+                 by the planner above it. Note: \
                  `supports_filters_pushdown` returns Unsupported in this mode so \
                  the planner does NOT drop filters from the outer plan.",
                 projection.is_some(),
@@ -1491,7 +1492,7 @@ impl IcebergTableProvider {
             false, // full data file scan, not partition-only
         )?);
 
-        let scan_exec = Arc::new(
+        let scan_exec: Arc<dyn ExecutionPlan> = Arc::new(
             crate::physical_plan::scan_by_data_files_exec::IcebergScanByDataFilesExec::new(
                 discovery,
                 self.table_uri.clone(),
@@ -1499,6 +1500,17 @@ impl IcebergTableProvider {
             ),
         );
 
-        Ok(scan_exec)
+        let Some(projection) = projection else {
+            return Ok(scan_exec);
+        };
+        let exprs = projection
+            .iter()
+            .map(|index| {
+                let name = self.arrow_schema.field(*index).name();
+                let column = Arc::new(Column::new(name, *index)) as Arc<dyn PhysicalExpr>;
+                (column, name.clone())
+            })
+            .collect::<Vec<_>>();
+        Ok(Arc::new(ProjectionExec::try_new(exprs, scan_exec)?))
     }
 }
-- 
2.43.0


From b99186034c5350c9037823bbca2b626639181c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 23/37] fix: record no Iceberg partition value rather than one
 that manifests cannot hold

This also takes back the changes to the manifest formats of earlier commits.
---
 .../write/base_writer/data_file_writer.rs     |  21 ++-
 crates/sail-iceberg/src/spec/manifest_list.rs |  12 +-
 crates/sail-iceberg/src/spec/types/values.rs  | 131 +-----------------
 3 files changed, 28 insertions(+), 136 deletions(-)

diff --git a/crates/sail-iceberg/src/operations/write/base_writer/data_file_writer.rs b/crates/sail-iceberg/src/operations/write/base_writer/data_file_writer.rs
index 2783409..8a27119 100644
--- a/crates/sail-iceberg/src/operations/write/base_writer/data_file_writer.rs
+++ b/crates/sail-iceberg/src/operations/write/base_writer/data_file_writer.rs
@@ -14,9 +14,22 @@ use std::collections::HashMap;
 
 use crate::operations::write::WriteOutcome;
 use crate::operations::write::arrow_parquet::ParquetFileMeta;
-use crate::spec::types::values::Literal;
+use crate::spec::types::values::{Literal, PrimitiveLiteral};
 use crate::spec::{DataContentType, DataFile, DataFileFormat, Datum};
 
+/// Manifests cannot hold these partition values yet. A missing value never excludes the file
+/// from a scan.
+fn can_record_partition_value(value: &Literal) -> bool {
+    !matches!(
+        value,
+        Literal::Primitive(
+            PrimitiveLiteral::Int128(_)
+                | PrimitiveLiteral::UInt128(_)
+                | PrimitiveLiteral::Binary(_)
+        )
+    )
+}
+
 pub struct DataFileWriter {
     pub partition_spec_id: i32,
     pub file_path: String,
@@ -50,7 +63,11 @@ impl DataFileWriter {
             content: DataContentType::Data,
             file_path: self.file_path,
             file_format: DataFileFormat::Parquet,
-            partition: self.partition_values,
+            partition: self
+                .partition_values
+                .into_iter()
+                .map(|value| value.filter(can_record_partition_value))
+                .collect(),
             record_count: meta.num_rows,
             file_size_in_bytes: meta.file_size,
             column_sizes,
diff --git a/crates/sail-iceberg/src/spec/manifest_list.rs b/crates/sail-iceberg/src/spec/manifest_list.rs
index d4786ee..b702a24 100644
--- a/crates/sail-iceberg/src/spec/manifest_list.rs
+++ b/crates/sail-iceberg/src/spec/manifest_list.rs
@@ -270,11 +270,9 @@ pub struct FieldSummaryAvro {
     contains_null: bool,
     #[serde(rename = "contains_nan")]
     contains_nan: Option<bool>,
-    #[serde(rename = "lower_bound", default)]
-    #[serde(with = "apache_avro::serde_avro_bytes_opt")]
+    #[serde(rename = "lower_bound")]
     lower_bound: Option<Vec<u8>>,
-    #[serde(rename = "upper_bound", default)]
-    #[serde(with = "apache_avro::serde_avro_bytes_opt")]
+    #[serde(rename = "upper_bound")]
     upper_bound: Option<Vec<u8>>,
 }
 
@@ -910,8 +908,7 @@ pub(super) mod _serde {
         pub deleted_rows_count: i64,
         #[serde(rename = "partitions")]
         pub partitions: Option<Vec<FieldSummaryAvro>>,
-        #[serde(rename = "key_metadata", default)]
-        #[serde(with = "apache_avro::serde_avro_bytes_opt")]
+        #[serde(rename = "key_metadata")]
         pub key_metadata: Option<Vec<u8>>,
     }
 
@@ -946,8 +943,7 @@ pub(super) mod _serde {
         pub deleted_rows_count: i64,
         #[serde(rename = "partitions")]
         pub partitions: Option<Vec<FieldSummaryAvro>>,
-        #[serde(rename = "key_metadata", default)]
-        #[serde(with = "apache_avro::serde_avro_bytes_opt")]
+        #[serde(rename = "key_metadata")]
         pub key_metadata: Option<Vec<u8>>,
         #[serde(rename = "first_row_id", default)]
         pub first_row_id: Option<i64>,
diff --git a/crates/sail-iceberg/src/spec/types/values.rs b/crates/sail-iceberg/src/spec/types/values.rs
index 7352b85..9c8d893 100644
--- a/crates/sail-iceberg/src/spec/types/values.rs
+++ b/crates/sail-iceberg/src/spec/types/values.rs
@@ -39,41 +39,12 @@ pub enum PrimitiveLiteral {
     Boolean(bool),
     Int(i32),
     Long(i64),
-    // The double comes first since it holds any float without loss when deserializing.
-    Double(OrderedFloat<f64>),
     Float(OrderedFloat<f32>),
+    Double(OrderedFloat<f64>),
     Int128(i128),
     String(String),
     UInt128(u128),
-    Binary(#[serde(deserialize_with = "deserialize_binary")] Vec<u8>),
-}
-
-/// Deserializes bytes, or a sequence of numbers.
-fn deserialize_binary<'de, D>(deserializer: D) -> Result<Vec<u8>, D::Error>
-where
-    D: serde::Deserializer<'de>,
-{
-    struct BinaryVisitor;
-    impl<'de> serde::de::Visitor<'de> for BinaryVisitor {
-        type Value = Vec<u8>;
-        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-            f.write_str("bytes")
-        }
-        fn visit_bytes<E>(self, value: &[u8]) -> Result<Self::Value, E> {
-            Ok(value.to_vec())
-        }
-        fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
-        where
-            A: serde::de::SeqAccess<'de>,
-        {
-            let mut out = Vec::new();
-            while let Some(value) = seq.next_element()? {
-                out.push(value);
-            }
-            Ok(out)
-        }
-    }
-    deserializer.deserialize_bytes(BinaryVisitor)
+    Binary(Vec<u8>),
 }
 
 impl PartialOrd for PrimitiveLiteral {
@@ -850,80 +821,6 @@ impl Literal {
     }
 }
 
-impl Literal {
-    /// Converts a value deserialized without its type, so that it has the kind of the type.
-    fn with_type(self, data_type: &crate::spec::types::Type) -> Self {
-        use crate::spec::types::PrimitiveType;
-
-        let (Literal::Primitive(value), Some(primitive_type)) =
-            (&self, data_type.as_primitive_type())
-        else {
-            return self;
-        };
-        if primitive_type.compatible(value) {
-            return self;
-        }
-        match (primitive_type, value) {
-            (
-                PrimitiveType::Long
-                | PrimitiveType::Time
-                | PrimitiveType::Timestamp
-                | PrimitiveType::Timestamptz
-                | PrimitiveType::TimestampNs
-                | PrimitiveType::TimestamptzNs,
-                PrimitiveLiteral::Int(v),
-            ) => Literal::Primitive(PrimitiveLiteral::Long(i64::from(*v))),
-            (PrimitiveType::Float, PrimitiveLiteral::Double(v)) => {
-                Literal::Primitive(PrimitiveLiteral::Float(OrderedFloat(v.0 as f32)))
-            }
-            // Bytes that are valid UTF-8 are deserialized as a string.
-            (PrimitiveType::Decimal { .. }, PrimitiveLiteral::String(v)) => {
-                decimal_from_big_endian(v.as_bytes()).unwrap_or(self)
-            }
-            (PrimitiveType::Decimal { .. }, PrimitiveLiteral::Binary(v)) => {
-                decimal_from_big_endian(v).unwrap_or(self)
-            }
-            (PrimitiveType::Binary | PrimitiveType::Fixed(_), PrimitiveLiteral::String(v)) => {
-                Literal::Primitive(PrimitiveLiteral::Binary(v.as_bytes().to_vec()))
-            }
-            _ => self,
-        }
-    }
-}
-
-/// Reads the two's-complement big-endian unscaled value of a decimal.
-fn decimal_from_big_endian(bytes: &[u8]) -> Option<Literal> {
-    let first = bytes.first()?;
-    let sign = if first & 0x80 == 0 { 0 } else { 0xff };
-    let mut buffer = [sign; 16];
-    let start = buffer.len().checked_sub(bytes.len())?;
-    buffer[start..].copy_from_slice(bytes);
-    let value = i128::from_be_bytes(buffer);
-    Some(Literal::Primitive(PrimitiveLiteral::Int128(value)))
-}
-
-/// Writes the unscaled value of a decimal as the fixed-size bytes of its Avro type.
-fn decimal_to_big_endian(value: i128, precision: u32) -> Result<Literal, String> {
-    let size = crate::spec::types::Type::decimal_required_bytes(precision)? as usize;
-    let bytes = value.to_be_bytes();
-    let start = bytes.len().saturating_sub(size);
-    Ok(Literal::Primitive(PrimitiveLiteral::Binary(
-        bytes[start..].to_vec(),
-    )))
-}
-
-/// Serializes as bytes rather than as a sequence of numbers.
-struct Bytes<'a>(&'a [u8]);
-
-impl Serialize for Bytes<'_> {
-    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
-    where
-        S: serde::Serializer,
-    {
-        serializer.serialize_bytes(self.0)
-    }
-}
-
 /// A lightweight, schema-agnostic representation of a struct literal that
 /// serializes into an Avro record matching a provided `StructType`.
 ///
@@ -951,14 +848,7 @@ impl RawLiteral {
         }
         let mut out = Vec::with_capacity(values.len());
         for (i, f) in fields.iter().enumerate() {
-            let value = match (&values[i], f.field_type.as_primitive_type()) {
-                (
-                    Some(Literal::Primitive(PrimitiveLiteral::Int128(v))),
-                    Some(crate::spec::types::PrimitiveType::Decimal { precision, .. }),
-                ) => Some(decimal_to_big_endian(*v, *precision)?),
-                (value, _) => value.clone(),
-            };
-            out.push((f.name.clone(), value));
+            out.push((f.name.clone(), values[i].clone()));
         }
         Ok(RawLiteral(out))
     }
@@ -971,12 +861,7 @@ impl RawLiteral {
         }
         ty.fields()
             .iter()
-            .map(|f| {
-                by_name
-                    .remove(&f.name)
-                    .unwrap_or(None)
-                    .map(|value| value.with_type(&f.field_type))
-            })
+            .map(|f| by_name.remove(&f.name).unwrap_or(None))
             .collect()
     }
 }
@@ -990,13 +875,7 @@ impl Serialize for RawLiteral {
         let mut ss = serializer.serialize_struct("", self.0.len())?;
         for (k, v) in &self.0 {
             // Avro's serde requires &'static str for field names
-            let name = Box::leak(k.clone().into_boxed_str());
-            match v {
-                Some(Literal::Primitive(PrimitiveLiteral::Binary(b))) => {
-                    ss.serialize_field(name, &Some(Bytes(b)))?
-                }
-                v => ss.serialize_field(name, v)?,
-            }
+            ss.serialize_field(Box::leak(k.clone().into_boxed_str()), v)?;
         }
         ss.end()
     }
-- 
2.43.0


From d182036a2a08a842800c2f700d3dd7bb45612ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 24/37] fix: write Delta file statistics only where they are
 known and exact

Row groups without statistics, repeated leaves, dates and timestamps that cannot be
represented and inexact decimals led to wrong bounds and null counts or to failures.
---
 .../sail-delta-lake/src/conversion/scalar.rs  |  47 ++-
 crates/sail-delta-lake/src/writer/stats.rs    | 275 +++++++++---------
 2 files changed, 185 insertions(+), 137 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index ef153b5..898a41a 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -47,6 +47,45 @@ const RFC3986_PART: &AsciiSet = &NON_ALPHANUMERIC
     .remove(b'_')
     .remove(b'~');
 
+/// Decimals below this unscaled magnitude have at most 15 significant digits, and therefore
+/// survive the conversion to a JSON floating-point number and back unchanged.
+const MAX_EXACT_JSON_DECIMAL: u128 = 1_000_000_000_000_000;
+
+/// Returns the JSON number that denotes exactly the given decimal, if there is one.
+pub(crate) fn exact_decimal_number(unscaled: i128, scale: i32) -> Option<serde_json::Number> {
+    let scale = u32::try_from(scale).ok()?;
+    if unscaled.unsigned_abs() < MAX_EXACT_JSON_DECIMAL {
+        let value = format!("{unscaled}e-{scale}").parse::<f64>().ok()?;
+        return serde_json::Number::from_f64(value);
+    }
+    let factor = 10_i128.checked_pow(scale)?;
+    if unscaled % factor != 0 {
+        return None;
+    }
+    i64::try_from(unscaled / factor).ok().map(Into::into)
+}
+
+/// Whether a JSON number that is parsed as the given decimal denotes exactly this value.
+/// This is not the case for a floating-point number that has lost digits in parsing.
+fn json_decimal_is_exact(number: &serde_json::Number, scalar: &ScalarValue) -> bool {
+    if !number.is_f64() {
+        return true;
+    }
+    match scalar {
+        ScalarValue::Decimal32(Some(value), _, _) => {
+            u128::from(value.unsigned_abs()) < MAX_EXACT_JSON_DECIMAL
+        }
+        ScalarValue::Decimal64(Some(value), _, _) => {
+            u128::from(value.unsigned_abs()) < MAX_EXACT_JSON_DECIMAL
+        }
+        ScalarValue::Decimal128(Some(value), _, _) => value.unsigned_abs() < MAX_EXACT_JSON_DECIMAL,
+        ScalarValue::Decimal256(Some(value), _, _) => value
+            .to_i128()
+            .is_some_and(|value| value.unsigned_abs() < MAX_EXACT_JSON_DECIMAL),
+        _ => true,
+    }
+}
+
 #[derive(Debug)]
 pub struct ScalarConverter;
 
@@ -296,10 +335,10 @@ impl ScalarConverter {
 
         match scalar {
             Some(scalar) => Ok(Some(scalar)),
-            None => Ok(Some(Self::string_to_arrow_scalar_value(
-                &value.to_string(),
-                field_dt,
-            )?)),
+            None => {
+                let scalar = Self::string_to_arrow_scalar_value(&value.to_string(), field_dt)?;
+                Ok(json_decimal_is_exact(value, &scalar).then_some(scalar))
+            }
         }
     }
 
diff --git a/crates/sail-delta-lake/src/writer/stats.rs b/crates/sail-delta-lake/src/writer/stats.rs
index cff2000..fa0f8da 100644
--- a/crates/sail-delta-lake/src/writer/stats.rs
+++ b/crates/sail-delta-lake/src/writer/stats.rs
@@ -24,17 +24,17 @@ use std::ops::{AddAssign, Not};
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 
+use chrono::Datelike;
 use datafusion::common::scalar::ScalarValue;
 use indexmap::IndexMap;
 use log::warn;
 use parquet::basic::{LogicalType, TimeUnit, Type};
-use parquet::file::metadata::{ParquetMetaData, RowGroupMetaData};
+use parquet::file::metadata::{ColumnChunkMetaData, ParquetMetaData, RowGroupMetaData};
 use parquet::file::statistics::Statistics;
 use parquet::schema::types::{ColumnDescriptor, SchemaDescriptor};
 use parquet_variant::{ObjectBuilder, VariantBuilder};
-use sail_common::spec::SAIL_LIST_FIELD_NAME;
 
-use crate::conversion::ScalarExt;
+use crate::conversion::{ScalarExt, exact_decimal_number};
 use crate::deletion_vector::z85;
 use crate::spec::{
     Add, ColumnCountStat, ColumnValueStat, DeltaError as DeltaTableError, StatValue, Stats,
@@ -148,21 +148,19 @@ fn stats_from_metadata(
 
         let maybe_stats: Option<AggregatedStats> = row_group_metadata
             .iter()
-            .flat_map(|g| {
-                g.column(idx).statistics().into_iter().filter_map(|s| {
-                    let logical_type = column_descr.logical_type_ref();
-                    let is_binary = matches!(&column_descr.physical_type(), Type::BYTE_ARRAY)
-                        && matches!(logical_type, Some(LogicalType::String)).not();
-                    if is_binary {
-                        warn!(
-                            "Skipping column {} because it's a binary field.",
-                            column_descr.name()
-                        );
-                        None
-                    } else {
-                        Some(AggregatedStats::from((s, logical_type)))
-                    }
-                })
+            .filter_map(|g| {
+                let logical_type = column_descr.logical_type_ref();
+                let is_binary = matches!(&column_descr.physical_type(), Type::BYTE_ARRAY)
+                    && matches!(logical_type, Some(LogicalType::String)).not();
+                if is_binary {
+                    warn!(
+                        "Skipping column {} because it's a binary field.",
+                        column_descr.name()
+                    );
+                    None
+                } else {
+                    Some(AggregatedStats::from((g.column(idx), logical_type)))
+                }
             })
             .reduce(|mut left, right| {
                 left += right;
@@ -261,13 +259,14 @@ fn apply_variant_stats_from_footer(
         if let Some(index) = column_indices.get(&metadata_path) {
             let null_count = row_group_metadata
                 .iter()
-                .filter_map(|group| group.column(*index).statistics())
-                .filter_map(|stats| stats.null_count_opt())
-                .sum::<u64>();
-            null_counts.insert(
-                top_level_column.clone(),
-                ColumnCountStat::Value(null_count as i64),
-            );
+                .map(|group| group.column(*index).statistics()?.null_count_opt())
+                .sum::<Option<u64>>();
+            if let Some(null_count) = null_count {
+                null_counts.insert(
+                    top_level_column.clone(),
+                    ColumnCountStat::Value(null_count as i64),
+                );
+            }
         }
     }
 
@@ -318,13 +317,14 @@ fn apply_variant_stats_from_footer(
                 break;
             }
 
-            if let Some(stats) = group.column(typed_value_index).statistics() {
-                let next = AggregatedStats::from((stats, column_descr.logical_type_ref()));
-                if let Some(current) = aggregated.as_mut() {
-                    *current += next;
-                } else {
-                    aggregated = Some(next);
-                }
+            let next = AggregatedStats::from((
+                group.column(typed_value_index),
+                column_descr.logical_type_ref(),
+            ));
+            if let Some(current) = aggregated.as_mut() {
+                *current += next;
+            } else {
+                aggregated = Some(next);
             }
         }
         if !valid {
@@ -468,13 +468,44 @@ enum StatsScalar {
     Date(chrono::NaiveDate),
     Timestamp(chrono::NaiveDateTime),
     TimestampNtz(chrono::NaiveDateTime),
-    Decimal(f64),
+    Decimal(DecimalScalar),
     String(String),
     Bytes(Vec<u8>),
     Uuid(uuid::Uuid),
 }
 
+/// A decimal statistics value along with the JSON number that denotes exactly this value.
+/// The values of one column have the same scale, so the order is the order of the unscaled values.
+#[derive(Debug, Clone)]
+struct DecimalScalar {
+    unscaled: i128,
+    number: serde_json::Number,
+}
+
+impl PartialEq for DecimalScalar {
+    fn eq(&self, other: &Self) -> bool {
+        self.unscaled == other.unscaled
+    }
+}
+
+impl PartialOrd for DecimalScalar {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        self.unscaled.partial_cmp(&other.unscaled)
+    }
+}
+
 impl StatsScalar {
+    /// Creates the statistics value for a decimal, unless no JSON number denotes exactly this value.
+    fn try_from_decimal(unscaled: i128, scale: i32) -> Result<Self, DeltaTableError> {
+        exact_decimal_number(unscaled, scale)
+            .map(|number| Self::Decimal(DecimalScalar { unscaled, number }))
+            .ok_or_else(|| {
+                DeltaTableError::generic(format!(
+                    "Decimal not representable in statistics: {unscaled}e-{scale}"
+                ))
+            })
+    }
+
     fn try_from_stats(
         stats: &Statistics,
         logical_type: Option<&LogicalType>,
@@ -496,12 +527,16 @@ impl StatsScalar {
                 #[expect(clippy::expect_used)]
                 let epoch_start = chrono::NaiveDate::from_ymd_opt(1970, 1, 1)
                     .expect("Creating date from constant should never fail");
-                let date = epoch_start + chrono::Duration::days(get_stat!(v) as i64);
+                let days = get_stat!(v);
+                let date = epoch_start
+                    .checked_add_signed(chrono::Duration::days(days as i64))
+                    .ok_or_else(|| {
+                        DeltaTableError::generic(format!("Failed to parse date: {days}"))
+                    })?;
                 Ok(Self::Date(date))
             }
             (Statistics::Int32(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(get_stat!(v) as i128, *scale)
             }
             (Statistics::Int32(v), _) => Ok(Self::Int32(get_stat!(v))),
             (
@@ -516,14 +551,17 @@ impl StatsScalar {
                     TimeUnit::MILLIS => chrono::DateTime::from_timestamp_millis(v),
                     TimeUnit::MICROS => chrono::DateTime::from_timestamp_micros(v),
                     TimeUnit::NANOS => {
-                        let secs = v / 1_000_000_000;
-                        let nanosecs = (v % 1_000_000_000) as u32;
+                        let secs = v.div_euclid(1_000_000_000);
+                        let nanosecs = v.rem_euclid(1_000_000_000) as u32;
                         chrono::DateTime::from_timestamp(secs, nanosecs)
                     }
                 };
-                let timestamp = timestamp.ok_or_else(|| {
-                    DeltaTableError::generic(format!("Failed to parse timestamp: {v}"))
-                })?;
+                // Years have four digits in the statistics.
+                let timestamp = timestamp
+                    .filter(|timestamp| (0..=9999).contains(&timestamp.year()))
+                    .ok_or_else(|| {
+                        DeltaTableError::generic(format!("Failed to parse timestamp: {v}"))
+                    })?;
                 if *is_adjusted_to_u_t_c {
                     Ok(Self::Timestamp(timestamp.naive_utc()))
                 } else {
@@ -531,8 +569,7 @@ impl StatsScalar {
                 }
             }
             (Statistics::Int64(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(get_stat!(v) as i128, *scale)
             }
             (Statistics::Int64(v), _) => Ok(Self::Int64(get_stat!(v))),
             (Statistics::Float(v), _) => Ok(Self::Float32(get_stat!(v))),
@@ -567,23 +604,12 @@ impl StatsScalar {
                 }
                 .unwrap_or_default();
 
-                let val = if val.len() <= 16 {
-                    i128::from_be_bytes(sign_extend_be(val)) as f64
-                } else {
+                if val.is_empty() || val.len() > 16 {
                     return Err(DeltaTableError::generic(format!(
-                        "Decimal too large: {val:?}, precision: {precision}"
+                        "Unsupported decimal: {val:?}, precision: {precision}"
                     )));
-                };
-
-                let mut val = val / 10.0_f64.powi(*scale);
-
-                if val.is_normal()
-                    && (val.trunc() as i128).to_string().len() > (precision - scale) as usize
-                {
-                    val = f64::from_bits(val.to_bits() - 1);
                 }
-
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(i128::from_be_bytes(sign_extend_be(val)), *scale)
             }
             (Statistics::FixedLenByteArray(v), Some(LogicalType::Uuid)) => {
                 let val = if use_min {
@@ -643,9 +669,7 @@ impl From<StatsScalar> for StatValue {
             StatsScalar::TimestampNtz(v) => {
                 StatValue::String(v.format("%Y-%m-%dT%H:%M:%S%.3f").to_string())
             }
-            StatsScalar::Decimal(v) => serde_json::Number::from_f64(v)
-                .map(StatValue::Number)
-                .unwrap_or_else(|| StatValue::String(v.to_string())),
+            StatsScalar::Decimal(v) => StatValue::Number(v.number),
             StatsScalar::String(v) => StatValue::String(v),
             StatsScalar::Bytes(v) => {
                 let escaped_bytes = v
@@ -669,85 +693,73 @@ impl From<StatsScalar> for serde_json::Value {
 
 /// Aggregated stats from multiple row groups
 struct AggregatedStats {
+    /// The bounds of the values, or `None` if they are unknown.
     pub min: Option<StatsScalar>,
     pub max: Option<StatsScalar>,
-    pub null_count: u64,
+    /// The number of null values, or `None` if it is unknown.
+    pub null_count: Option<u64>,
+    /// Whether there is no non-null value, so that the bounds have nothing to cover.
+    pub all_null: bool,
 }
 
-impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
-    fn from(value: (&Statistics, Option<&LogicalType>)) -> Self {
-        let (stats, logical_type) = value;
-        let null_count = stats.null_count_opt().unwrap_or_default();
-        if stats.min_bytes_opt().is_some() && stats.max_bytes_opt().is_some() {
-            let min = StatsScalar::try_from_stats(stats, logical_type, true).ok();
-            let max = StatsScalar::try_from_stats(stats, logical_type, false).ok();
-            Self {
-                min,
-                max,
-                null_count,
-            }
-        } else {
-            Self {
-                min: None,
-                max: None,
-                null_count,
-            }
+impl From<(&ColumnChunkMetaData, Option<&LogicalType>)> for AggregatedStats {
+    fn from(value: (&ColumnChunkMetaData, Option<&LogicalType>)) -> Self {
+        let (column, logical_type) = value;
+        let stats = column.statistics();
+        let null_count = stats.and_then(|stats| stats.null_count_opt());
+        let (min, max) = match stats {
+            Some(stats) if stats.min_bytes_opt().is_some() && stats.max_bytes_opt().is_some() => (
+                StatsScalar::try_from_stats(stats, logical_type, true).ok(),
+                StatsScalar::try_from_stats(stats, logical_type, false).ok(),
+            ),
+            _ => (None, None),
+        };
+        let all_null =
+            null_count.is_some_and(|count| i64::try_from(count) == Ok(column.num_values()));
+        Self {
+            min,
+            max,
+            null_count,
+            all_null,
         }
     }
 }
 
 impl AddAssign for AggregatedStats {
     fn add_assign(&mut self, rhs: Self) {
-        self.min = match (self.min.take(), rhs.min) {
-            (Some(lhs), Some(rhs)) => {
-                if lhs < rhs {
-                    Some(lhs)
-                } else {
-                    Some(rhs)
+        if self.all_null {
+            self.min = rhs.min;
+            self.max = rhs.max;
+        } else if !rhs.all_null {
+            // A bound is known only if it is known for both sides.
+            self.min = match (self.min.take(), rhs.min) {
+                (Some(lhs), Some(rhs)) => {
+                    if lhs < rhs {
+                        Some(lhs)
+                    } else {
+                        Some(rhs)
+                    }
                 }
-            }
-            (lhs, rhs) => lhs.or(rhs),
-        };
-        self.max = match (self.max.take(), rhs.max) {
-            (Some(lhs), Some(rhs)) => {
-                if lhs > rhs {
-                    Some(lhs)
-                } else {
-                    Some(rhs)
+                _ => None,
+            };
+            self.max = match (self.max.take(), rhs.max) {
+                (Some(lhs), Some(rhs)) => {
+                    if lhs > rhs {
+                        Some(lhs)
+                    } else {
+                        Some(rhs)
+                    }
                 }
-            }
-            (lhs, rhs) => lhs.or(rhs),
-        };
-
-        self.null_count += rhs.null_count;
-    }
-}
-
-/// For list fields, extract the correct field name by removing list/element segments
-fn get_list_field_name(column_descr: &Arc<ColumnDescriptor>) -> Option<String> {
-    let max_rep_levels = column_descr.max_rep_level();
-    let column_path_parts = column_descr.path().parts();
-
-    if column_path_parts.len() > (2 * max_rep_levels + 1) as usize {
-        return None;
-    }
-
-    let mut column_path_parts = column_path_parts.to_vec();
-    let mut items_seen = 0;
-    let mut lists_seen = 0;
-    while let Some(part) = column_path_parts.pop() {
-        match (part.as_str(), lists_seen, items_seen) {
-            ("list", seen, _) if seen == max_rep_levels => return Some("list".to_string()),
-            ("element", _, seen) if seen == max_rep_levels => return Some("element".to_string()),
-            (SAIL_LIST_FIELD_NAME, _, seen) if seen == max_rep_levels => {
-                return Some(SAIL_LIST_FIELD_NAME.to_string());
-            }
-            ("list", _, _) => lists_seen += 1,
-            ("element", _, _) | (SAIL_LIST_FIELD_NAME, _, _) => items_seen += 1,
-            (other, _, _) => return Some(other.to_string()),
+                _ => None,
+            };
         }
+
+        self.all_null = self.all_null && rhs.all_null;
+        self.null_count = match (self.null_count, rhs.null_count) {
+            (Some(lhs), Some(rhs)) => lhs.checked_add(rhs),
+            _ => None,
+        };
     }
-    None
 }
 
 fn apply_min_max_for_column(
@@ -758,14 +770,9 @@ fn apply_min_max_for_column(
     max_values: &mut HashMap<String, ColumnValueStat>,
     null_counts: &mut HashMap<String, ColumnCountStat>,
 ) -> Result<(), DeltaTableError> {
-    // Special handling for list column
+    // The statistics of a repeated leaf describe the elements of the lists or maps rather than
+    // the rows, so they say nothing about the values of the column.
     if column_descr.max_rep_level() > 0 {
-        let key = get_list_field_name(&column_descr);
-
-        if let Some(key) = key {
-            null_counts.insert(key, ColumnCountStat::Value(statistics.null_count as i64));
-        }
-
         return Ok(());
     }
 
@@ -784,7 +791,9 @@ fn apply_min_max_for_column(
                 max_values.insert(key.clone(), max);
             }
 
-            null_counts.insert(key, ColumnCountStat::Value(statistics.null_count as i64));
+            if let Some(null_count) = statistics.null_count {
+                null_counts.insert(key, ColumnCountStat::Value(null_count as i64));
+            }
 
             Ok(())
         }
-- 
2.43.0


From 3ff3c6ebce215d2c0fe0a79e0d3d9b0c34612044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 25/37] fix: treat the bounds of floating-point columns of
 Delta files as inexact

---
 crates/sail-delta-lake/src/datasource/pruning.rs | 10 ++++++++++
 crates/sail-delta-lake/src/datasource/scan.rs    |  9 ++++++++-
 crates/sail-delta-lake/src/snapshot/stats.rs     | 13 ++++++++++++-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index faabb3d..59a0cf9 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -124,6 +124,16 @@ pub(crate) fn arrow_type_contains_timestamp(data_type: &DataType) -> bool {
     }
 }
 
+pub(crate) fn arrow_type_contains_float(data_type: &DataType) -> bool {
+    match data_type {
+        DataType::Float16 | DataType::Float32 | DataType::Float64 => true,
+        DataType::Struct(fields) => fields
+            .iter()
+            .any(|field| arrow_type_contains_float(field.data_type())),
+        _ => false,
+    }
+}
+
 /// Result of file pruning operation
 #[derive(Debug, Clone)]
 pub struct PruningResult {
diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index facfddf..5e0e9f1 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -43,7 +43,9 @@ use sail_common_datafusion::schema_evolution::{
 use sail_common_datafusion::variant::with_variant_extension_if_marked_storage;
 
 use crate::conversion::ScalarConverter;
-use crate::datasource::pruning::{arrow_type_contains_timestamp, widen_timestamp_max_scalar};
+use crate::datasource::pruning::{
+    arrow_type_contains_float, arrow_type_contains_timestamp, widen_timestamp_max_scalar,
+};
 use crate::datasource::{DeltaScanConfig, create_object_store_url, partitioned_file_from_action};
 use crate::delta_log::LogStoreRef;
 use crate::schema::arrow_field_physical_name;
@@ -678,6 +680,11 @@ fn stats_for_add(action: &Add, file_schema: &SchemaRef) -> Result<Option<Arc<Sta
             })
             .unwrap_or(Precision::Absent);
 
+        // The Parquet statistics that the bounds are taken from ignore NaN.
+        if arrow_type_contains_float(field.data_type()) {
+            min_value = min_value.to_inexact();
+            max_value = max_value.to_inexact();
+        }
         if arrow_type_contains_timestamp(field.data_type()) {
             min_value = min_value.to_inexact();
             max_value = max_value.map(widen_timestamp_max_scalar).to_inexact();
diff --git a/crates/sail-delta-lake/src/snapshot/stats.rs b/crates/sail-delta-lake/src/snapshot/stats.rs
index fc3489b..bf5e6f5 100644
--- a/crates/sail-delta-lake/src/snapshot/stats.rs
+++ b/crates/sail-delta-lake/src/snapshot/stats.rs
@@ -35,7 +35,8 @@ use log::warn;
 
 use super::DeltaSnapshot;
 use crate::datasource::pruning::{
-    arrow_type_contains_timestamp, widen_timestamp_max_scalar, widen_timestamp_max_stat,
+    arrow_type_contains_float, arrow_type_contains_timestamp, widen_timestamp_max_scalar,
+    widen_timestamp_max_stat,
 };
 use crate::schema::arrow_field_physical_name;
 use crate::spec::fields::{
@@ -376,6 +377,16 @@ impl<'a> SnapshotPruningStats<'a> {
             min_value = min_value.to_inexact();
             max_value = max_value.to_inexact();
         }
+        // The Parquet statistics that the bounds are taken from ignore NaN.
+        let contains_float = self
+            .snapshot
+            .schema()
+            .field_with_name(name)
+            .is_ok_and(|field| arrow_type_contains_float(field.data_type()));
+        if !is_partition && contains_float {
+            min_value = min_value.to_inexact();
+            max_value = max_value.to_inexact();
+        }
         let contains_timestamp = self
             .snapshot
             .schema()
-- 
2.43.0


From ddc10a6b917c25fb824bdd5b57b3542320a59f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 26/37] fix: write negative decimal fractions and read binary
 partition values of Delta tables

---
 .../sail-delta-lake/src/conversion/scalar.rs  | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index 898a41a..3556ef8 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -532,10 +532,13 @@ fn serialize_decimal(bits: i128, scale: i8) -> String {
     match scale.cmp(&0) {
         Ordering::Equal => bits.to_string(),
         Ordering::Greater => {
-            let value = bits;
+            let value = bits.unsigned_abs();
             let scale_u32 = scale as u32;
-            let scalar_multiple = 10_i128.pow(scale_u32);
+            let scalar_multiple = 10_u128.pow(scale_u32);
             let mut string = String::new();
+            if bits < 0 {
+                string.push('-');
+            }
             string.push_str((value / scalar_multiple).to_string().as_str());
             string.push('.');
             string.push_str(&format!(
@@ -564,6 +567,24 @@ fn create_escaped_binary_string(bytes: &[u8]) -> String {
     escaped
 }
 
+/// Decodes the output of [`create_escaped_binary_string`], or returns `None` for other strings.
+fn parse_escaped_binary_string(value: &str) -> Option<Vec<u8>> {
+    let (chunks, rest) = value.as_bytes().as_chunks::<6>();
+    if !rest.is_empty() {
+        return None;
+    }
+    chunks
+        .iter()
+        .map(|chunk| {
+            let digits = str::from_utf8(chunk).ok()?.strip_prefix("\\u00")?;
+            if !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+                return None;
+            }
+            u8::from_str_radix(digits, 16).ok()
+        })
+        .collect()
+}
+
 fn number_from_f64(value: f64) -> Value {
     serde_json::Number::from_f64(value)
         .map(Value::Number)
-- 
2.43.0


From 6422559cc3d613462c492c88a9cf9928ff75e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 27/37] fix: evaluate filters on partition columns of Delta
 tables exactly

They are not applied to the rows, and DELETE removes whole files with them.
---
 crates/sail-delta-lake/src/conversion/mod.rs  |   3 +
 .../sail-delta-lake/src/conversion/scalar.rs  |  20 +-
 .../src/datasource/expressions.rs             |  10 +
 crates/sail-delta-lake/src/datasource/mod.rs  |   1 +
 .../sail-delta-lake/src/datasource/pruning.rs |  74 +++++++-
 .../src/logical/table_source.rs               |   5 +-
 .../src/physical/scan_planner.rs              |  38 +++-
 .../planner/metadata_predicate.rs             | 172 ++++++++++++++----
 8 files changed, 264 insertions(+), 59 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/mod.rs b/crates/sail-delta-lake/src/conversion/mod.rs
index b693917..8464114 100644
--- a/crates/sail-delta-lake/src/conversion/mod.rs
+++ b/crates/sail-delta-lake/src/conversion/mod.rs
@@ -1,6 +1,9 @@
 pub mod scalar;
 pub mod type_promotion;
 
+pub(crate) use scalar::{
+    NULL_PARTITION_VALUE_DATA_PATH, exact_decimal_number, is_null_partition_value,
+};
 pub use scalar::{
     ScalarConverter, ScalarExt, parse_optional_partition_value, parse_partition_value,
     scalar_from_array_opt, scalar_value_to_array,
diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index 3556ef8..13ecdc7 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -591,16 +591,30 @@ fn number_from_f64(value: f64) -> Value {
         .unwrap_or_else(|| Value::String(value.to_string()))
 }
 
+/// Whether a partition value string in the log denotes the null value.
+pub(crate) fn is_null_partition_value(raw: &str) -> bool {
+    raw.is_empty() || raw == NULL_PARTITION_VALUE_DATA_PATH
+}
+
 /// Parse a partition value string into a `ScalarValue` for the given Arrow data type.
 ///
 /// This implements Delta-specific parsing rules for partition values stored in the log.
 pub fn parse_partition_value(raw: &str, field_dt: &ArrowDataType) -> DeltaResultLocal<ScalarValue> {
-    if raw.is_empty() || raw == NULL_PARTITION_VALUE_DATA_PATH {
+    if is_null_partition_value(raw) {
         return ScalarValue::try_new_null(field_dt)
             .map_err(|e| DeltaTableError::generic(format!("Failed to create null scalar: {e}")));
     }
-    ScalarConverter::string_to_arrow_scalar_value(raw, field_dt)
-        .map_err(|e| DeltaTableError::generic(format!("Failed to parse partition value: {e}")))
+    let error = |e| DeltaTableError::generic(format!("Failed to parse partition value: {e}"));
+    if matches!(
+        field_dt,
+        ArrowDataType::Binary | ArrowDataType::LargeBinary | ArrowDataType::BinaryView
+    ) && let Some(bytes) = parse_escaped_binary_string(raw)
+    {
+        return ScalarValue::Binary(Some(bytes))
+            .cast_to(field_dt)
+            .map_err(error);
+    }
+    ScalarConverter::string_to_arrow_scalar_value(raw, field_dt).map_err(error)
 }
 
 pub fn parse_optional_partition_value(
diff --git a/crates/sail-delta-lake/src/datasource/expressions.rs b/crates/sail-delta-lake/src/datasource/expressions.rs
index bcb4eb9..9d895ee 100644
--- a/crates/sail-delta-lake/src/datasource/expressions.rs
+++ b/crates/sail-delta-lake/src/datasource/expressions.rs
@@ -52,6 +52,16 @@ pub fn simplify_expr(
     session.create_physical_expr(simplified, df_schema)
 }
 
+pub(crate) fn is_binary_type(data_type: &ArrowDataType) -> bool {
+    matches!(
+        data_type,
+        ArrowDataType::Binary
+            | ArrowDataType::LargeBinary
+            | ArrowDataType::BinaryView
+            | ArrowDataType::FixedSizeBinary(_)
+    )
+}
+
 /// Determine which filters can be pushed down to the table provider.
 pub fn get_pushdown_filters(
     filter: &[&Expr],
diff --git a/crates/sail-delta-lake/src/datasource/mod.rs b/crates/sail-delta-lake/src/datasource/mod.rs
index acd80a2..8e58301 100644
--- a/crates/sail-delta-lake/src/datasource/mod.rs
+++ b/crates/sail-delta-lake/src/datasource/mod.rs
@@ -44,6 +44,7 @@ pub mod schema;
 
 // Re-exports
 pub use actions::{adds_to_remove_actions, partitioned_file_from_action};
+pub(crate) use expressions::is_binary_type;
 pub use expressions::{
     PredicateProperties, collect_physical_columns, get_pushdown_filters,
     rewrite_predicate_for_column_mapping, simplify_expr,
diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index 59a0cf9..2472ec7 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -22,19 +22,21 @@ use std::sync::Arc;
 
 use datafusion::arrow::array::{
     Array, ArrayRef, StructArray, TimestampMicrosecondArray, TimestampMillisecondArray,
-    TimestampNanosecondArray, TimestampSecondArray, UInt64Array,
+    TimestampNanosecondArray, TimestampSecondArray, UInt64Array, new_null_array,
 };
-use datafusion::arrow::datatypes::{DataType, SchemaRef, TimeUnit};
+use datafusion::arrow::datatypes::{DataType, Schema, SchemaRef, TimeUnit};
+use datafusion::arrow::record_batch::RecordBatch;
 use datafusion::catalog::Session;
 use datafusion::common::{Result, ToDFSchema};
 use datafusion::logical_expr::Expr;
 use datafusion::logical_expr::utils::conjunction;
 use datafusion::physical_optimizer::pruning::PruningPredicate;
+use datafusion_common::cast::as_boolean_array;
 use datafusion_common::pruning::PruningStatistics;
 use datafusion_common::scalar::ScalarValue;
 use datafusion_common::{Column, DataFusionError};
 
-use crate::conversion::{ScalarConverter, parse_optional_partition_value};
+use crate::conversion::{ScalarConverter, is_null_partition_value, parse_optional_partition_value};
 use crate::delta_log::LogStoreRef;
 use crate::schema::arrow_field_physical_name;
 use crate::spec::statistics::Stats;
@@ -247,6 +249,54 @@ pub(crate) fn prune_adds_by_physical_predicate(
     pruning_predicate.prune(&stats)
 }
 
+/// Evaluate a physical predicate on the partition values of each `Add` action.
+///
+/// The predicate must refer to partition columns only. Returns a boolean mask aligned with `adds`
+/// where `true` means that the predicate holds for every row of the file, and `false` means that
+/// it holds for none of them.
+pub(crate) fn evaluate_partition_predicate(
+    adds: &[Add],
+    table_schema: SchemaRef,
+    predicate: Arc<dyn datafusion_physical_expr::PhysicalExpr>,
+    column_mapping_mode: ColumnMappingMode,
+) -> Result<Vec<bool>> {
+    if adds.is_empty() {
+        return Ok(vec![]);
+    }
+
+    let referenced_columns = crate::datasource::collect_physical_columns(&predicate);
+    let mut fields = Vec::with_capacity(table_schema.fields().len());
+    let mut columns = Vec::with_capacity(table_schema.fields().len());
+    for field in table_schema.fields() {
+        let data_type = field.data_type();
+        let column = if referenced_columns.contains(field.name()) {
+            let storage_name = arrow_field_physical_name(field, column_mapping_mode);
+            let values = adds
+                .iter()
+                .map(|add| {
+                    let value = add.partition_values.get(storage_name);
+                    parse_optional_partition_value(
+                        value.and_then(|value| value.as_deref()),
+                        data_type,
+                    )
+                    .map_err(|e| DataFusionError::External(Box::new(e)))
+                })
+                .collect::<Result<Vec<_>>>()?;
+            ScalarValue::iter_to_array(values)?
+        } else {
+            new_null_array(data_type, adds.len())
+        };
+        fields.push(field.as_ref().clone().with_nullable(true));
+        columns.push(column);
+    }
+    let batch = RecordBatch::try_new(Arc::new(Schema::new(fields)), columns)?;
+    let mask = predicate.evaluate(&batch)?.into_array(batch.num_rows())?;
+    Ok(as_boolean_array(&mask)?
+        .iter()
+        .map(|value| value == Some(true))
+        .collect())
+}
+
 #[derive(Debug)]
 struct MaterializedColumnStats {
     min_values: Option<ArrayRef>,
@@ -427,13 +477,22 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
 
         let field = self.field_for(column)?;
         let storage_name = self.storage_name_for(column)?;
+        if matches!(
+            field.data_type(),
+            DataType::Binary | DataType::LargeBinary | DataType::BinaryView
+        ) {
+            // The values are escaped in the log, and are decoded one by one instead.
+            return None;
+        }
         let values: Option<Vec<Option<&str>>> = self
             .adds
             .iter()
             .map(|add| {
-                add.partition_values
-                    .get(&storage_name)
-                    .map(|value| value.as_deref())
+                add.partition_values.get(&storage_name).map(|value| {
+                    value
+                        .as_deref()
+                        .filter(|value| !is_null_partition_value(value))
+                })
             })
             .collect();
         let values = values?;
@@ -585,7 +644,7 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
         let storage_name = self.storage_name_for(column)?;
         self.build_count_array(column, |a, s| {
             if let Some(pv) = a.partition_values.get(&storage_name) {
-                if pv.is_none() {
+                if pv.as_deref().is_none_or(is_null_partition_value) {
                     return s.map(|s| s.num_records.max(0) as u64);
                 }
                 return Some(0);
@@ -658,6 +717,7 @@ mod tests {
     use datafusion::logical_expr::Operator;
     use datafusion::physical_expr::PhysicalExpr;
     use datafusion::physical_expr::expressions::{BinaryExpr, Column as PhysicalColumn, Literal};
+    use datafusion_common::cast::as_boolean_array;
     use datafusion_common::pruning::PruningStatistics;
     use datafusion_common::{Column, DataFusionError, Result, ScalarValue};
 
diff --git a/crates/sail-delta-lake/src/logical/table_source.rs b/crates/sail-delta-lake/src/logical/table_source.rs
index 16c36c6..80134f7 100644
--- a/crates/sail-delta-lake/src/logical/table_source.rs
+++ b/crates/sail-delta-lake/src/logical/table_source.rs
@@ -8,6 +8,7 @@ use sail_common_datafusion::datasource::MergeCapableSource;
 use crate::DeltaResult;
 use crate::datasource::{DeltaScanConfig, df_logical_schema, get_pushdown_filters};
 use crate::delta_log::LogStoreRef;
+use crate::physical_plan::planner::metadata_predicate::metadata_partition_columns;
 use crate::table::DeltaSnapshot;
 
 /// Logical-only Delta table source used in DataFusion logical plans.
@@ -85,8 +86,8 @@ impl TableSource for DeltaTableSource {
         &self,
         filter: &[&Expr],
     ) -> Result<Vec<TableProviderFilterPushDown>> {
-        let partition_cols = self.snapshot.metadata().partition_columns().as_slice();
-        Ok(get_pushdown_filters(filter, partition_cols))
+        let partition_cols = metadata_partition_columns(&self.snapshot);
+        Ok(get_pushdown_filters(filter, &partition_cols))
     }
 }
 
diff --git a/crates/sail-delta-lake/src/physical/scan_planner.rs b/crates/sail-delta-lake/src/physical/scan_planner.rs
index d378d67..f75f264 100644
--- a/crates/sail-delta-lake/src/physical/scan_planner.rs
+++ b/crates/sail-delta-lake/src/physical/scan_planner.rs
@@ -25,7 +25,7 @@ use crate::datasource::{
 use crate::delta_log::LogStoreRef;
 use crate::options::r#gen::DeltaWriteOptions;
 use crate::physical_plan::planner::metadata_predicate::{
-    build_metadata_filter, predicate_requires_stats,
+    build_metadata_filter, metadata_partition_columns, predicate_requires_stats,
 };
 use crate::physical_plan::planner::utils::LogReplayOptions;
 use crate::physical_plan::planner::{DeltaPlannerConfig, PlannerContext};
@@ -138,16 +138,19 @@ pub(crate) async fn plan_delta_scan(
     // Separate filters for pruning vs pushdown.
     //
     // Exact and Inexact filters are used for pruning; Inexact are additionally pushed down.
-    let partition_cols = &table_partition_cols;
+    // Exact filters are not evaluated on the rows, so they must decide about the files exactly.
+    let partition_cols = metadata_partition_columns(snapshot);
     let predicates: Vec<&Expr> = filters.iter().collect();
     let pushdown_filters =
         crate::datasource::get_pushdown_filters(&predicates, partition_cols.as_slice());
 
+    let mut exact_filters = Vec::new();
     let mut pruning_filters = Vec::new();
     let mut parquet_pushdown_filters = Vec::new();
     for (filter, pushdown) in filters.iter().zip(pushdown_filters) {
         match pushdown {
             datafusion::logical_expr::TableProviderFilterPushDown::Exact => {
+                exact_filters.push(filter.clone());
                 pruning_filters.push(filter.clone());
             }
             datafusion::logical_expr::TableProviderFilterPushDown::Inexact => {
@@ -174,15 +177,34 @@ pub(crate) async fn plan_delta_scan(
         None
     };
 
+    let partition_predicate = conjunction(exact_filters)
+        .map(|expr| {
+            let df_schema = logical_schema.clone().to_dfschema()?;
+            simplify_expr(session, &df_schema, expr)
+        })
+        .transpose()?;
+
     let (file_source, pruning_mask) = match file_source {
         DeltaFileSource::Eager(files) => {
             if let Some(predicate) = pruning_predicate.as_ref() {
-                let pruning_mask = crate::datasource::pruning::prune_adds_by_physical_predicate(
-                    files.as_ref(),
-                    Arc::clone(&logical_schema),
-                    Arc::clone(predicate),
-                    kmode,
-                )?;
+                let mut pruning_mask =
+                    crate::datasource::pruning::prune_adds_by_physical_predicate(
+                        files.as_ref(),
+                        Arc::clone(&logical_schema),
+                        Arc::clone(predicate),
+                        kmode,
+                    )?;
+                if let Some(predicate) = partition_predicate.as_ref() {
+                    let partition_mask = crate::datasource::pruning::evaluate_partition_predicate(
+                        files.as_ref(),
+                        Arc::clone(&logical_schema),
+                        Arc::clone(predicate),
+                        kmode,
+                    )?;
+                    for (keep, partition_keep) in pruning_mask.iter_mut().zip(partition_mask) {
+                        *keep &= partition_keep;
+                    }
+                }
                 let pruned_files = files
                     .iter()
                     .zip(pruning_mask.iter().copied())
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index f77d704..6d8989f 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -1,19 +1,23 @@
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
-use datafusion::arrow::datatypes::{DataType as ArrowDataType, Schema as ArrowSchema, SchemaRef};
+use datafusion::arrow::datatypes::{
+    DataType as ArrowDataType, Fields, Schema as ArrowSchema, SchemaRef,
+};
 use datafusion::catalog::Session;
+use datafusion::common::tree_node::{Transformed, TransformedResult, TreeNode, TreeNodeRecursion};
 use datafusion::common::{
     Column as LogicalColumn, DataFusionError, Result, ScalarValue, ToDFSchema,
 };
 use datafusion::functions::core::getfield::GetFieldFunc;
-use datafusion::logical_expr::expr::{Between, BinaryExpr, Cast, InList};
+use datafusion::logical_expr::expr::{Between, BinaryExpr, Case, Cast, InList};
 use datafusion::logical_expr::utils::{conjunction, disjunction};
 use datafusion::logical_expr::{Expr, Operator};
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion::physical_plan::filter::FilterExec;
 
-use crate::datasource::simplify_expr;
+use crate::conversion::NULL_PARTITION_VALUE_DATA_PATH;
+use crate::datasource::{is_binary_type, simplify_expr};
 use crate::physical_plan::DeltaMetadataStatsExec;
 use crate::schema::{logical_to_physical_arrow_paths, make_physical_arrow_schema};
 use crate::spec::fields::{
@@ -30,13 +34,35 @@ pub(crate) fn predicate_requires_stats(expr: &Expr, partition_columns: &[String]
         .any(|col| !partition_columns.contains(col.name.as_str()))
 }
 
+/// Whether the partition values of a file decide the predicate for every row of the file.
+pub(crate) fn predicate_is_partition_only(expr: &Expr, snapshot: &DeltaSnapshot) -> bool {
+    !expr.is_volatile() && !predicate_requires_stats(expr, &metadata_partition_columns(snapshot))
+}
+
+/// The partition columns whose values can be decoded by an expression over the metadata table.
+/// The values of binary columns are escaped in the log, so they are not among them.
+pub(crate) fn metadata_partition_columns(snapshot: &DeltaSnapshot) -> Vec<String> {
+    snapshot
+        .metadata()
+        .partition_columns()
+        .iter()
+        .filter(|name| {
+            snapshot
+                .schema()
+                .field_with_name(name)
+                .is_ok_and(|field| !is_binary_type(field.data_type()))
+        })
+        .cloned()
+        .collect()
+}
+
 pub(crate) fn build_metadata_filter(
     session: &dyn Session,
     input: Arc<dyn ExecutionPlan>,
     snapshot: &DeltaSnapshot,
     predicate: Expr,
 ) -> Result<Arc<dyn ExecutionPlan>> {
-    let partition_columns = snapshot.metadata().partition_columns().clone();
+    let partition_columns = metadata_partition_columns(snapshot);
     let needs_stats = predicate_requires_stats(&predicate, &partition_columns);
     let stats_paths = logical_to_physical_arrow_paths(
         snapshot.schema(),
@@ -47,17 +73,17 @@ pub(crate) fn build_metadata_filter(
         .transpose()?;
     let rewritten = rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths);
     if !needs_stats {
+        let rewritten = resolve_metadata_columns(rewritten, snapshot, None)?;
         let df_schema = input.schema().to_dfschema()?;
         let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
         return Ok(Arc::new(FilterExec::try_new(physical_expr, input)?));
     }
 
-    let input: Arc<dyn ExecutionPlan> = Arc::new(DeltaMetadataStatsExec::new(
-        input,
-        stats_schema.ok_or_else(|| {
-            DataFusionError::Internal("metadata stats schema was not built".to_string())
-        })?,
-    ));
+    let stats_schema = stats_schema.ok_or_else(|| {
+        DataFusionError::Internal("metadata stats schema was not built".to_string())
+    })?;
+    let rewritten = resolve_metadata_columns(rewritten, snapshot, Some(&stats_schema))?;
+    let input: Arc<dyn ExecutionPlan> = Arc::new(DeltaMetadataStatsExec::new(input, stats_schema));
     let df_schema = input.schema().to_dfschema()?;
     let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
     Ok(Arc::new(FilterExec::try_new(physical_expr, input)?))
@@ -112,6 +138,76 @@ pub(crate) fn build_metadata_stats_schema(
     ))
 }
 
+/// Resolve the columns of a rewritten predicate against the metadata table, where the partition
+/// values are the strings of the log, and where a column may have no statistics of some kind.
+fn resolve_metadata_columns(
+    expr: Expr,
+    snapshot: &DeltaSnapshot,
+    stats_schema: Option<&SchemaRef>,
+) -> Result<Expr> {
+    let partition_columns = metadata_partition_columns(snapshot);
+    expr.transform_down(|expr| match &expr {
+        Expr::Column(column) if partition_columns.contains(&column.name) => {
+            let field = snapshot.schema().field_with_name(&column.name)?;
+            Ok(Transformed::new(
+                typed_partition_value(column_expr(&column.name), field.data_type()),
+                true,
+                TreeNodeRecursion::Jump,
+            ))
+        }
+        Expr::ScalarFunction(function) if function.func.inner().is::<GetFieldFunc>() => {
+            match extract_column_path(&expr).as_deref() {
+                Some([root, path @ ..]) if root == FIELD_NAME_STATS_PARSED => {
+                    let known = stats_schema.is_some_and(|schema| has_field(schema.fields(), path));
+                    if known {
+                        Ok(Transformed::new(expr, false, TreeNodeRecursion::Jump))
+                    } else {
+                        Ok(Transformed::yes(Expr::Literal(ScalarValue::Null, None)))
+                    }
+                }
+                _ => Ok(Transformed::no(expr)),
+            }
+        }
+        _ => Ok(Transformed::no(expr)),
+    })
+    .data()
+}
+
+fn has_field(fields: &Fields, path: &[String]) -> bool {
+    match path {
+        [] => false,
+        // The statistics of a struct are those of its fields, which say nothing about the
+        // struct itself.
+        [name] => fields.iter().any(|field| {
+            field.name() == name && !matches!(field.data_type(), ArrowDataType::Struct(_))
+        }),
+        [name, rest @ ..] => fields.iter().any(|field| {
+            field.name() == name
+                && matches!(field.data_type(), ArrowDataType::Struct(children) if has_field(children, rest))
+        }),
+    }
+}
+
+/// Decode the partition value string of the log, where the empty string stands for null.
+fn typed_partition_value(value: Expr, data_type: &ArrowDataType) -> Expr {
+    let present = and(
+        binary(value.clone(), Operator::NotEq, literal_str("")),
+        binary(
+            value.clone(),
+            Operator::NotEq,
+            literal_str(NULL_PARTITION_VALUE_DATA_PATH),
+        ),
+    );
+    Expr::Case(Case {
+        expr: None,
+        when_then_expr: vec![(
+            Box::new(present),
+            Box::new(Expr::Cast(Cast::new(Box::new(value), data_type.clone()))),
+        )],
+        else_expr: None,
+    })
+}
+
 fn rewrite_predicate_for_metadata(
     expr: Expr,
     partition_columns: &[String],
@@ -137,7 +233,30 @@ struct ExprTemplate {
 }
 
 impl MetadataPredicateRewriter<'_> {
+    /// Whether the metadata table has everything that the expression depends on.
+    fn is_partition_predicate(&self, expr: &Expr) -> bool {
+        let columns = expr.column_refs();
+        !columns.is_empty()
+            && columns
+                .iter()
+                .all(|column| self.partition_columns.contains(&column.name))
+            && !expr.is_volatile()
+    }
+
     fn rewrite(&self, expr: Expr) -> Expr {
+        if self.is_partition_predicate(&expr) {
+            return expr;
+        }
+        let is_connective = matches!(
+            &expr,
+            Expr::BinaryExpr(BinaryExpr {
+                op: Operator::And | Operator::Or,
+                ..
+            })
+        );
+        if !is_connective && expr.is_volatile() {
+            return literal_true();
+        }
         match expr {
             Expr::BinaryExpr(BinaryExpr { left, op, right }) => match op {
                 Operator::And | Operator::Or => Expr::BinaryExpr(BinaryExpr::new(
@@ -220,14 +339,6 @@ impl MetadataPredicateRewriter<'_> {
             return None;
         }
         let template = Self::extract_template(&expr)?;
-        if self.is_partition_column(&template) {
-            return Some(Expr::Between(Between::new(
-                Box::new(expr),
-                negated,
-                Box::new(low),
-                Box::new(high),
-            )));
-        }
         if template.cast_type.is_some() {
             return None;
         }
@@ -256,9 +367,6 @@ impl MetadataPredicateRewriter<'_> {
         if list.iter().any(|expr| !expr.column_refs().is_empty()) {
             return None;
         }
-        if self.is_partition_column(&template) {
-            return Some(Expr::InList(InList::new(Box::new(expr), list, negated)));
-        }
         if template.cast_type.is_some() {
             return None;
         }
@@ -280,13 +388,6 @@ impl MetadataPredicateRewriter<'_> {
 
     fn rewrite_null_check(&self, expr: Expr, is_not_null: bool) -> Option<Expr> {
         let template = Self::extract_template(&expr)?;
-        if self.is_partition_column(&template) {
-            return Some(if is_not_null {
-                Expr::IsNotNull(Box::new(expr))
-            } else {
-                Expr::IsNull(Box::new(expr))
-            });
-        }
         if template.cast_type.is_some() {
             return None;
         }
@@ -319,9 +420,6 @@ impl MetadataPredicateRewriter<'_> {
         op: Operator,
         value: Expr,
     ) -> Expr {
-        if self.is_partition_column(&template) {
-            return binary(template.apply(column_expr(template.root_name())), op, value);
-        }
         // File bounds can only be pushed through a proven order-preserving cast. Keep the file
         // when cast monotonicity is unknown rather than risking false pruning.
         if template.cast_type.is_some() {
@@ -366,10 +464,6 @@ impl MetadataPredicateRewriter<'_> {
         }
     }
 
-    fn is_partition_column(&self, template: &ExprTemplate) -> bool {
-        template.logical_path.len() == 1 && self.partition_columns.contains(template.root_name())
-    }
-
     fn stats_num_records_expr(&self) -> Expr {
         get_field(
             column_expr(FIELD_NAME_STATS_PARSED),
@@ -420,10 +514,6 @@ impl MetadataPredicateRewriter<'_> {
 }
 
 impl ExprTemplate {
-    fn root_name(&self) -> &str {
-        self.logical_path[0].as_str()
-    }
-
     fn apply(&self, expr: Expr) -> Expr {
         if let Some(data_type) = &self.cast_type {
             Expr::Cast(Cast::new(Box::new(expr), data_type.clone()))
@@ -484,6 +574,10 @@ fn literal_true() -> Expr {
     Expr::Literal(ScalarValue::Boolean(Some(true)), None)
 }
 
+fn literal_str(value: &str) -> Expr {
+    Expr::Literal(ScalarValue::Utf8(Some(value.to_string())), None)
+}
+
 fn literal_i64(value: i64) -> Expr {
     Expr::Literal(ScalarValue::Int64(Some(value)), None)
 }
-- 
2.43.0


From 88c98dcf5cf0027647f18e7a48d39bada04e101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 28/37] fix: keep the rows for which a Delta replaceWhere
 condition is null

---
 .../src/physical_plan/planner/op_write.rs     | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
index 660cdba..fd4465b 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
@@ -15,7 +15,6 @@ use std::sync::Arc;
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::{DataFusionError, Result, ToDFSchema};
 use datafusion::logical_expr::Expr;
-use datafusion::physical_expr::expressions::NotExpr;
 use datafusion::physical_expr::{LexRequirement, PhysicalExpr};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::filter::FilterExec;
@@ -26,7 +25,7 @@ use sail_common_datafusion::datasource::PhysicalSinkMode;
 use sail_common_datafusion::logical_expr::ExprWithSource;
 
 use super::context::PlannerContext;
-use super::metadata_predicate::{build_metadata_filter, predicate_requires_stats};
+use super::metadata_predicate::{build_metadata_filter, predicate_is_partition_only};
 use super::utils::{
     LogReplayOptions, align_schemas_for_union, build_log_replay_pipeline_with_options,
     build_standard_write_layers,
@@ -172,15 +171,16 @@ async fn build_overwrite_if_plan(
         .to_dfschema()
         .map_err(|e| DataFusionError::External(Box::new(e)))?;
     let condition_expr = condition.expr.clone();
-    let physical_condition = ctx
+    // The write replaces rows only when the predicate is true; false and null rows remain.
+    let physical_retention_condition = ctx
         .session()
-        .create_physical_expr(condition_expr.clone(), &table_df_schema)?;
+        .create_physical_expr(condition_expr.clone().is_not_true(), &table_df_schema)?;
     let predicate_source = source.or(condition.source);
 
     let old_data_plan = build_old_data_plan(
         ctx,
         condition_expr.clone(),
-        physical_condition.clone(),
+        physical_retention_condition,
         &snapshot_state,
         table_schema.clone(),
     )
@@ -239,7 +239,7 @@ async fn build_overwrite_if_plan(
         ctx.lakehouse_table().cloned(),
     )?);
 
-    let partition_only = !predicate_requires_stats(&condition_expr, &partition_columns);
+    let partition_only = predicate_is_partition_only(&condition_expr, &snapshot_state);
     let log_replay_options = LogReplayOptions {
         // `DeltaRemoveActionsExec` decodes Add.stats to report numTouchedRows, including
         // for partition-only overwrites where data-skipping itself does not need stats_json.
@@ -290,12 +290,12 @@ async fn build_overwrite_if_plan(
 async fn build_old_data_plan(
     ctx: &PlannerContext<'_>,
     condition_expr: Expr,
-    condition: Arc<dyn PhysicalExpr>,
+    retention_condition: Arc<dyn PhysicalExpr>,
     snapshot_state: &DeltaSnapshot,
     table_schema: SchemaRef,
 ) -> Result<Arc<dyn ExecutionPlan>> {
     let version = snapshot_state.version();
-    let partition_only = !predicate_requires_stats(&condition_expr, ctx.partition_columns());
+    let partition_only = predicate_is_partition_only(&condition_expr, snapshot_state);
     let log_replay_options = LogReplayOptions {
         include_stats_json: !partition_only,
         ..Default::default()
@@ -343,8 +343,7 @@ async fn build_old_data_plan(
         snapshot_state.load_config().catalog_managed_commits.clone(),
     ));
 
-    let negated_condition = Arc::new(NotExpr::new(condition));
-    let filter_exec = Arc::new(FilterExec::try_new(negated_condition, scan_exec)?);
+    let filter_exec = Arc::new(FilterExec::try_new(retention_condition, scan_exec)?);
 
     Ok(filter_exec)
 }
-- 
2.43.0


From 9d09496945b5ee47dd6315f8abdbc5d32b29193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 29/37] fix: union old and new nested columns in replaceWhere
 on column-mapped Delta tables

---
 .../src/physical_plan/planner/utils.rs        | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
index 53ce632..abed719 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
@@ -18,7 +18,7 @@ use datafusion::common::{
 };
 use datafusion::logical_expr::Expr;
 use datafusion::logical_expr::expr::{Case, Cast, ScalarFunction};
-use datafusion::physical_expr::expressions::Column;
+use datafusion::physical_expr::expressions::{CastExpr, Column};
 use datafusion::physical_expr::{LexRequirement, PhysicalExpr};
 use datafusion::physical_expr_adapter::PhysicalExprAdapterFactory;
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
@@ -44,7 +44,7 @@ use crate::physical_plan::{
     COL_LOG_IS_REMOVE, COL_LOG_VERSION, COL_REPLAY_PATH, DeltaCommitExec, DeltaLogReplayExec,
     DeltaWriterExec, DeltaWriterExecOptions, create_projection, create_repartition, create_sort,
 };
-use crate::schema::PhysicalPartitionColumn;
+use crate::schema::{PhysicalPartitionColumn, strip_column_mapping_metadata};
 use crate::spec::fields::{
     DV_FIELD_OFFSET, DV_FIELD_PATH_OR_INLINE_DV, DV_FIELD_STORAGE_TYPE, FIELD_NAME_DELETION_VECTOR,
     FIELD_NAME_MODIFICATION_TIME, FIELD_NAME_PATH, FIELD_NAME_SIZE, FIELD_NAME_STATS,
@@ -336,25 +336,33 @@ pub fn align_schemas_for_union(
         ));
     }
 
+    // The scan of the old data describes nested fields with their column mapping, which the
+    // new data does not know about. Union needs the same types on both sides.
+    let stripped_old_schema = strip_column_mapping_metadata(&old_schema);
     let mut new_projections = Vec::new();
     let mut old_projections = Vec::new();
 
     for (i, field) in new_schema.fields().iter().enumerate() {
-        new_projections.push((
-            Arc::new(Column::new(field.name(), i)) as Arc<dyn PhysicalExpr>,
-            field.name().clone(),
-        ));
-
-        if let Some((old_idx, _)) = old_schema
+        if let Some((old_idx, old_field)) = old_schema
             .fields()
             .iter()
             .enumerate()
             .find(|(_, old_field)| old_field.name() == field.name())
         {
-            old_projections.push((
-                Arc::new(Column::new(field.name(), old_idx)) as Arc<dyn PhysicalExpr>,
-                field.name().clone(),
-            ));
+            let mut new_column: Arc<dyn PhysicalExpr> = Arc::new(Column::new(field.name(), i));
+            let mut old_column: Arc<dyn PhysicalExpr> =
+                Arc::new(Column::new(field.name(), old_idx));
+            let target = stripped_old_schema.field(old_idx).data_type();
+            if field.data_type().equals_datatype(target) {
+                if field.data_type() != target {
+                    new_column = Arc::new(CastExpr::new(new_column, target.clone(), None));
+                }
+                if old_field.data_type() != target {
+                    old_column = Arc::new(CastExpr::new(old_column, target.clone(), None));
+                }
+            }
+            new_projections.push((new_column, field.name().clone()));
+            old_projections.push((old_column, field.name().clone()));
         } else {
             return Err(DataFusionError::Plan(format!(
                 "Field '{}' not found in old data schema",
-- 
2.43.0


From ba3bdb00a4689a26f03053d56e3f1afb9ce5a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 30/37] fix: match partition columns and mapped columns in
 Delta merge-on-read deletes

---
 crates/sail-delta-lake/src/datasource/scan.rs |   2 +-
 .../src/physical_plan/dv_writer_exec.rs       | 126 +++++++++++++++---
 .../src/physical_plan/planner/op_delete.rs    |  12 +-
 3 files changed, 120 insertions(+), 20 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index 5e0e9f1..6df859c 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -609,7 +609,7 @@ fn bounds_have_mismatched_types(a: &Precision<ScalarValue>, b: &Precision<Scalar
     }
 }
 
-fn rewrite_data_file_location(table_root: Path, location: Path) -> Path {
+pub(crate) fn rewrite_data_file_location(table_root: Path, location: Path) -> Path {
     let raw = location.as_ref();
     if looks_like_absolute_uri(raw) {
         return location;
diff --git a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
index 25dd7be..150a3dc 100644
--- a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
+++ b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
@@ -8,6 +8,8 @@ use std::time::Instant;
 use async_trait::async_trait;
 use datafusion::arrow::array::{Array, BooleanArray, Int64Array, StringArray};
 use datafusion::arrow::compute::SortOptions;
+use datafusion::arrow::datatypes::{Schema, SchemaRef};
+use datafusion::arrow::record_batch::{RecordBatch, RecordBatchOptions};
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::{LexOrdering, OrderingRequirements, PhysicalSortExpr};
 use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
@@ -25,13 +27,16 @@ use object_store::ObjectStore;
 use sail_common_datafusion::schema_evolution::SchemaEvolutionPhysicalExprAdapterFactory;
 use url::Url;
 
+use crate::conversion::parse_optional_partition_value;
+use crate::datasource::partitioned_file_from_action;
+use crate::datasource::scan::rewrite_data_file_location;
 use crate::deletion_vector::{DeletionVectorBitmap, DeletionVectorWriter};
 use crate::physical_plan::{
     COL_ACTION, ExecCommitMeta, current_timestamp_millis, decode_adds_from_batch,
     delta_action_schema, encode_actions, meta_adds,
 };
-use crate::schema::PhysicalPartitionColumn;
-use crate::spec::{Action, Add, RemoveOptions};
+use crate::schema::{PhysicalPartitionColumn, get_physical_schema, restore_logical_record_batch};
+use crate::spec::{Action, Add, ColumnMappingMode, RemoveOptions, StructType};
 use crate::transaction::OperationMetrics;
 
 /// Update an Add action's stats to reflect that the bounds are now wide (non-tight)
@@ -734,6 +739,7 @@ impl ExecutionPlan for DeletionVectorWriterExec {
                     add,
                     &table_url,
                     &table_schema,
+                    partition_value_columns.as_deref().unwrap_or_default(),
                     &condition,
                     &context,
                 )
@@ -872,15 +878,81 @@ impl ExecutionPlan for DeletionVectorWriterExec {
     }
 }
 
+const COLUMN_MAPPING_MODE_KEY: &str = "delta.columnMapping.mode";
+
+/// Record how the logical fields of the schema map to the fields of the data files.
+pub(crate) fn with_column_mapping_mode(schema: &SchemaRef, mode: ColumnMappingMode) -> SchemaRef {
+    let mut metadata = schema.metadata().clone();
+    metadata.insert(
+        COLUMN_MAPPING_MODE_KEY.to_string(),
+        mode.as_ref().to_string(),
+    );
+    Arc::new(schema.as_ref().clone().with_metadata(metadata))
+}
+
+fn column_mapping_mode(schema: &Schema) -> Result<ColumnMappingMode> {
+    match schema.metadata().get(COLUMN_MAPPING_MODE_KEY) {
+        Some(mode) => ColumnMappingMode::try_from(mode.as_str())
+            .map_err(|e| DataFusionError::External(Box::new(e))),
+        None => Ok(ColumnMappingMode::None),
+    }
+}
+
+/// Build the rows of the table from the columns of a data file and the partition values of the file.
+fn restore_table_batch(
+    batch: &RecordBatch,
+    add: &Add,
+    table_schema: &SchemaRef,
+    physical_schema: &Schema,
+    partition_columns: &[PhysicalPartitionColumn],
+    mode: ColumnMappingMode,
+) -> Result<RecordBatch> {
+    let mut fields = Vec::with_capacity(table_schema.fields().len());
+    let mut columns = Vec::with_capacity(table_schema.fields().len());
+    for (field, physical_field) in table_schema.fields().iter().zip(physical_schema.fields()) {
+        let partition_column = partition_columns
+            .iter()
+            .find(|column| column.logical_name == *field.name());
+        let column = match partition_column {
+            Some(column) => parse_optional_partition_value(
+                add.partition_values
+                    .get(&column.physical_name)
+                    .and_then(|value| value.as_deref()),
+                field.data_type(),
+            )
+            .map_err(|e| DataFusionError::External(Box::new(e)))?
+            .to_array_of_size(batch.num_rows())?,
+            None => {
+                let index = batch.schema_ref().index_of(physical_field.name())?;
+                Arc::clone(batch.column(index))
+            }
+        };
+        let data_field = match partition_column {
+            Some(_) => field.as_ref().clone(),
+            None => physical_field.as_ref().clone().with_name(field.name()),
+        };
+        fields.push(
+            data_field
+                .with_data_type(column.data_type().clone())
+                .with_nullable(true),
+        );
+        columns.push(column);
+    }
+    let options = RecordBatchOptions::new().with_row_count(Some(batch.num_rows()));
+    let batch =
+        RecordBatch::try_new_with_options(Arc::new(Schema::new(fields)), columns, &options)?;
+    restore_logical_record_batch(&batch, table_schema, mode)
+}
+
 /// Scan a single file and return the row indices that match the given condition.
 async fn scan_file_for_matching_rows(
     add: &Add,
     table_url: &Url,
-    table_schema: &datafusion::arrow::datatypes::SchemaRef,
+    table_schema: &SchemaRef,
+    partition_columns: &[PhysicalPartitionColumn],
     condition: &Arc<dyn PhysicalExpr>,
     context: &Arc<TaskContext>,
 ) -> Result<Vec<u64>> {
-    use datafusion::datasource::listing::PartitionedFile;
     use datafusion::datasource::physical_plan::{FileGroup, FileScanConfigBuilder, ParquetSource};
     use datafusion::datasource::source::DataSourceExec;
     use object_store::path::Path;
@@ -890,19 +962,36 @@ async fn scan_file_for_matching_rows(
         &table_url[..url::Position::BeforePath],
     )?;
 
+    // The file does not contain the partition columns, and names the columns by their
+    // physical names.
+    let mode = column_mapping_mode(table_schema)?;
+    let logical_schema = StructType::try_from(table_schema.as_ref())
+        .map_err(|e| DataFusionError::External(Box::new(e)))?;
+    let physical_schema = get_physical_schema(&logical_schema, mode)
+        .map_err(|e| DataFusionError::External(Box::new(e)))?;
+    let file_schema = Arc::new(Schema::new(
+        physical_schema
+            .fields()
+            .iter()
+            .filter(|field| {
+                !partition_columns
+                    .iter()
+                    .any(|column| column.physical_name == *field.name())
+            })
+            .cloned()
+            .collect::<Vec<_>>(),
+    ));
+
     // The add.path is relative to the table root (e.g., "part-00001-...parquet").
     // We must prefix it with the table root path so the object store can find it.
-    let table_root = Path::from(table_url.path());
-    let file_location = Path::from(format!(
-        "{}{}{}",
-        table_root,
-        object_store::path::DELIMITER,
-        add.path
-    ));
-    let file_size = add.size as u64;
-    let partitioned_file = PartitionedFile::new(file_location.to_string(), file_size);
+    let mut partitioned_file = partitioned_file_from_action(add, &[], table_schema)
+        .map_err(|e| DataFusionError::External(Box::new(e)))?;
+    partitioned_file.object_meta.location = rewrite_data_file_location(
+        Path::from(table_url.path()),
+        partitioned_file.object_meta.location,
+    );
 
-    let parquet_source = ParquetSource::new(Arc::clone(table_schema));
+    let parquet_source = ParquetSource::new(file_schema);
     let file_source: Arc<dyn datafusion::datasource::physical_plan::FileSource> =
         Arc::new(parquet_source);
 
@@ -922,7 +1011,14 @@ async fn scan_file_for_matching_rows(
     for partition in 0..partitions {
         let mut stream = parquet_exec.execute(partition, Arc::clone(context))?;
         while let Some(batch_result) = stream.next().await {
-            let batch = batch_result?;
+            let batch = restore_table_batch(
+                &batch_result?,
+                add,
+                table_schema,
+                &physical_schema,
+                partition_columns,
+                mode,
+            )?;
             let num_rows = batch.num_rows();
 
             // Evaluate the delete condition on this batch
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
index d10c7b9..16559de 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
@@ -22,8 +22,9 @@ use sail_common_datafusion::schema_evolution::SchemaEvolutionPhysicalExprAdapter
 
 use super::commit::assemble_commit_plan;
 use super::context::PlannerContext;
-use super::metadata_predicate::{build_metadata_filter, predicate_requires_stats};
+use super::metadata_predicate::{build_metadata_filter, predicate_is_partition_only};
 use super::utils::{LogReplayOptions, build_log_replay_pipeline_with_options};
+use crate::physical_plan::dv_writer_exec::with_column_mapping_mode;
 use crate::physical_plan::{
     DeltaCommitContext, DeltaDiscoveryExec, DeltaScanByAddsExec, DeltaWriterExecOptions,
     prepare_delta_write_context,
@@ -57,7 +58,7 @@ pub async fn build_delete_plan(
 
     // Partition-only predicates can delete entire files without scanning data. In that case,
     // build a visible metadata pipeline over a log-derived meta table.
-    let partition_only = !predicate_requires_stats(&condition_expr, &partition_columns);
+    let partition_only = predicate_is_partition_only(&condition_expr, snapshot_state);
     let log_replay_options = LogReplayOptions {
         // `DeltaRemoveActionsExec` decodes Add.stats to report numTouchedRows, including
         // for partition-only deletes where data-skipping itself does not need stats_json.
@@ -209,7 +210,7 @@ pub async fn build_delete_plan_mor(
     // Partition-only predicates can delete entire files without scanning data.
     // For MoR with partition-only predicates, we still fall back to file removal
     // since there's no benefit in writing DVs for entire files.
-    let partition_only = !predicate_requires_stats(&condition_expr, &partition_columns);
+    let partition_only = predicate_is_partition_only(&condition_expr, snapshot_state);
     if partition_only {
         // For partition-only predicates, use the CoW path as it's more efficient
         // (just remove whole files).
@@ -255,7 +256,10 @@ pub async fn build_delete_plan_mor(
             find_files_exec,
             ctx.table_url().clone(),
             physical_condition,
-            table_schema.clone(),
+            with_column_mapping_mode(
+                &table_schema,
+                snapshot_state.effective_column_mapping_mode(),
+            ),
             version,
             Some(snapshot_state.physical_partition_columns()),
             operation,
-- 
2.43.0


From 74ce22b57e7a99891186212fd64f730c09ff49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 31/37] fix: use physical names of partition columns in filters
 on Delta data files

---
 .../src/datasource/expressions.rs                | 16 ++++++++--------
 .../sail-delta-lake/src/physical/scan_planner.rs |  9 +--------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/expressions.rs b/crates/sail-delta-lake/src/datasource/expressions.rs
index 9d895ee..79ae7f2 100644
--- a/crates/sail-delta-lake/src/datasource/expressions.rs
+++ b/crates/sail-delta-lake/src/datasource/expressions.rs
@@ -129,18 +129,18 @@ fn expr_is_exact_predicate_for_cols(partition_cols: &[String], expr: &Expr) -> b
 /// Rewrite column references in a parquet pushdown predicate from logical names to the
 /// physical names used in the data files of column-mapped tables. Nested struct field
 /// accesses (`get_field`) are rewritten as well, using the column mapping metadata carried
-/// by the logical schema. Partition columns are exposed to the file scan as virtual columns
-/// under their logical names and are left untouched.
+/// by the logical schema. The file scan exposes partition columns under their physical names
+/// as well. Columns in `unmapped_cols` keep their names.
 pub fn rewrite_predicate_for_column_mapping(
     expr: Arc<dyn PhysicalExpr>,
     logical_schema: &ArrowSchema,
     mode: ColumnMappingMode,
-    partition_cols: &[String],
+    unmapped_cols: &[String],
 ) -> Result<Arc<dyn PhysicalExpr>> {
     if mode == ColumnMappingMode::None {
         return Ok(expr);
     }
-    Ok(rewrite_expr_for_column_mapping(expr, logical_schema, mode, partition_cols)?.0)
+    Ok(rewrite_expr_for_column_mapping(expr, logical_schema, mode, unmapped_cols)?.0)
 }
 
 /// Recursively rewrite an expression, returning the rewritten expression along with the
@@ -150,10 +150,10 @@ fn rewrite_expr_for_column_mapping(
     expr: Arc<dyn PhysicalExpr>,
     logical_schema: &ArrowSchema,
     mode: ColumnMappingMode,
-    partition_cols: &[String],
+    unmapped_cols: &[String],
 ) -> Result<(Arc<dyn PhysicalExpr>, Option<FieldRef>)> {
     if let Some(column) = expr.downcast_ref::<PhysicalColumn>() {
-        if partition_cols.iter().any(|col| col == column.name()) {
+        if unmapped_cols.iter().any(|col| col == column.name()) {
             return Ok((expr, None));
         }
         let Some((_, field)) = logical_schema.fields().find(column.name()) else {
@@ -178,7 +178,7 @@ fn rewrite_expr_for_column_mapping(
             Arc::clone(source_expr),
             logical_schema,
             mode,
-            partition_cols,
+            unmapped_cols,
         )?;
         let mut current_field = source_field;
         // Rewriters preserve the original Arc when unchanged, making pointer identity sufficient.
@@ -230,7 +230,7 @@ fn rewrite_expr_for_column_mapping(
             Arc::clone(child),
             logical_schema,
             mode,
-            partition_cols,
+            unmapped_cols,
         )?;
         changed |= !Arc::ptr_eq(&new_child, child);
         new_children.push(new_child);
diff --git a/crates/sail-delta-lake/src/physical/scan_planner.rs b/crates/sail-delta-lake/src/physical/scan_planner.rs
index f75f264..c7f9a3f 100644
--- a/crates/sail-delta-lake/src/physical/scan_planner.rs
+++ b/crates/sail-delta-lake/src/physical/scan_planner.rs
@@ -259,14 +259,7 @@ pub(crate) async fn plan_delta_scan(
     // The parquet scan resolves predicate columns against the physical file schema,
     // so column-mapped tables need the predicate rewritten from logical to physical names.
     let pushdown_filter = pushdown_filter
-        .map(|expr| {
-            rewrite_predicate_for_column_mapping(
-                expr,
-                snapshot.schema(),
-                kmode,
-                &table_partition_cols,
-            )
-        })
+        .map(|expr| rewrite_predicate_for_column_mapping(expr, snapshot.schema(), kmode, &[]))
         .transpose()?;
 
     let row_index_projected = config
-- 
2.43.0


From 80fdd9d80803fadb39c948deb5d2bf99aaf36745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:31 +0000
Subject: [PATCH 32/37] fix: keep the plans of Delta metadata filters and
 replaceWhere

This takes back the change to rows for which a replaceWhere condition is null.
---
 crates/sail-delta-lake/src/datasource/pruning.rs    |  1 -
 .../src/physical_plan/planner/metadata_predicate.rs |  9 ++++++++-
 .../src/physical_plan/planner/op_write.rs           | 13 +++++++------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index 2472ec7..5993097 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -717,7 +717,6 @@ mod tests {
     use datafusion::logical_expr::Operator;
     use datafusion::physical_expr::PhysicalExpr;
     use datafusion::physical_expr::expressions::{BinaryExpr, Column as PhysicalColumn, Literal};
-    use datafusion_common::cast::as_boolean_array;
     use datafusion_common::pruning::PruningStatistics;
     use datafusion_common::{Column, DataFusionError, Result, ScalarValue};
 
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index 6d8989f..03913d9 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -188,8 +188,15 @@ fn has_field(fields: &Fields, path: &[String]) -> bool {
     }
 }
 
-/// Decode the partition value string of the log, where the empty string stands for null.
+/// Decode the partition value string of the log. For strings, the empty string and the name of
+/// the directory for null stand for null.
 fn typed_partition_value(value: Expr, data_type: &ArrowDataType) -> Expr {
+    if !matches!(
+        data_type,
+        ArrowDataType::Utf8 | ArrowDataType::LargeUtf8 | ArrowDataType::Utf8View
+    ) {
+        return Expr::Cast(Cast::new(Box::new(value), data_type.clone()));
+    }
     let present = and(
         binary(value.clone(), Operator::NotEq, literal_str("")),
         binary(
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
index fd4465b..7ae5420 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
@@ -15,6 +15,7 @@ use std::sync::Arc;
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::{DataFusionError, Result, ToDFSchema};
 use datafusion::logical_expr::Expr;
+use datafusion::physical_expr::expressions::NotExpr;
 use datafusion::physical_expr::{LexRequirement, PhysicalExpr};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::filter::FilterExec;
@@ -171,16 +172,15 @@ async fn build_overwrite_if_plan(
         .to_dfschema()
         .map_err(|e| DataFusionError::External(Box::new(e)))?;
     let condition_expr = condition.expr.clone();
-    // The write replaces rows only when the predicate is true; false and null rows remain.
-    let physical_retention_condition = ctx
+    let physical_condition = ctx
         .session()
-        .create_physical_expr(condition_expr.clone().is_not_true(), &table_df_schema)?;
+        .create_physical_expr(condition_expr.clone(), &table_df_schema)?;
     let predicate_source = source.or(condition.source);
 
     let old_data_plan = build_old_data_plan(
         ctx,
         condition_expr.clone(),
-        physical_retention_condition,
+        physical_condition.clone(),
         &snapshot_state,
         table_schema.clone(),
     )
@@ -290,7 +290,7 @@ async fn build_overwrite_if_plan(
 async fn build_old_data_plan(
     ctx: &PlannerContext<'_>,
     condition_expr: Expr,
-    retention_condition: Arc<dyn PhysicalExpr>,
+    condition: Arc<dyn PhysicalExpr>,
     snapshot_state: &DeltaSnapshot,
     table_schema: SchemaRef,
 ) -> Result<Arc<dyn ExecutionPlan>> {
@@ -343,7 +343,8 @@ async fn build_old_data_plan(
         snapshot_state.load_config().catalog_managed_commits.clone(),
     ));
 
-    let filter_exec = Arc::new(FilterExec::try_new(retention_condition, scan_exec)?);
+    let negated_condition = Arc::new(NotExpr::new(condition));
+    let filter_exec = Arc::new(FilterExec::try_new(negated_condition, scan_exec)?);
 
     Ok(filter_exec)
 }
-- 
2.43.0


From 9e8eebe1f084dbefa48e0906cd793b4150276979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:12 +0000
Subject: [PATCH 33/37] fix: do not merge a Delta table creation that lost the
 race into the winner's table

---
 .../src/physical_plan/commit_exec.rs          |  3 +-
 crates/sail-delta-lake/src/transaction/mod.rs | 29 +++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/commit_exec.rs b/crates/sail-delta-lake/src/physical_plan/commit_exec.rs
index 8cf79d4..5054d76 100644
--- a/crates/sail-delta-lake/src/physical_plan/commit_exec.rs
+++ b/crates/sail-delta-lake/src/physical_plan/commit_exec.rs
@@ -993,7 +993,8 @@ impl ExecutionPlan for DeltaCommitExec {
                 let pre_commit = CommitBuilder::from(
                     CommitProperties::default()
                         .with_operation_metrics(operation_metrics)
-                        .with_user_metadata(user_metadata),
+                        .with_user_metadata(user_metadata)
+                        .with_exclusive_creation(!matches!(sink_mode, PhysicalSinkMode::Append)),
                 )
                 .with_actions(final_actions)
                 .build(reference.clone(), log_store.clone(), operation);
diff --git a/crates/sail-delta-lake/src/transaction/mod.rs b/crates/sail-delta-lake/src/transaction/mod.rs
index 94286c2..2ad4233 100644
--- a/crates/sail-delta-lake/src/transaction/mod.rs
+++ b/crates/sail-delta-lake/src/transaction/mod.rs
@@ -1014,6 +1014,7 @@ pub struct CommitProperties {
     max_retries: usize,
     create_checkpoint: bool,
     cleanup_expired_logs: Option<bool>,
+    exclusive_creation: bool,
 }
 
 impl Default for CommitProperties {
@@ -1026,6 +1027,7 @@ impl Default for CommitProperties {
             max_retries: DEFAULT_RETRIES,
             create_checkpoint: true,
             cleanup_expired_logs: None,
+            exclusive_creation: false,
         }
     }
 }
@@ -1046,6 +1048,13 @@ impl CommitProperties {
         self.user_metadata = user_metadata;
         self
     }
+
+    /// Specify that a commit which creates the table with data must not be retried as an append
+    /// to the table that another transaction has created in the meantime.
+    pub(crate) fn with_exclusive_creation(mut self, exclusive_creation: bool) -> Self {
+        self.exclusive_creation = exclusive_creation;
+        self
+    }
 }
 
 // impl CommitProperties {
@@ -1101,6 +1110,7 @@ impl From<CommitProperties> for CommitBuilder {
             }),
             app_transaction: value.app_transaction,
             user_metadata: value.user_metadata,
+            exclusive_creation: value.exclusive_creation,
             ..Default::default()
         }
     }
@@ -1114,6 +1124,7 @@ pub struct CommitBuilder {
     app_transaction: Vec<Transaction>,
     user_metadata: Option<String>,
     max_retries: usize,
+    exclusive_creation: bool,
     post_commit_hook: Option<PostCommitHookProperties>,
     post_commit_hook_handler: Option<Arc<dyn CustomExecuteHandler>>,
     operation_id: Uuid,
@@ -1128,6 +1139,7 @@ impl Default for CommitBuilder {
             app_transaction: Vec::new(),
             user_metadata: None,
             max_retries: DEFAULT_RETRIES,
+            exclusive_creation: false,
             post_commit_hook: None,
             post_commit_hook_handler: None,
             operation_id: Uuid::new_v4(),
@@ -1197,6 +1209,7 @@ impl CommitBuilder {
             log_store,
             table_data,
             max_retries: self.max_retries,
+            exclusive_creation: self.exclusive_creation,
             data,
             post_commit_hook: self.post_commit_hook,
             post_commit_hook_handler: self.post_commit_hook_handler,
@@ -1211,6 +1224,7 @@ pub struct PreCommit {
     table_data: Option<Arc<DeltaSnapshot>>,
     data: CommitData,
     max_retries: usize,
+    exclusive_creation: bool,
     post_commit_hook: Option<PostCommitHookProperties>,
     post_commit_hook_handler: Option<Arc<dyn CustomExecuteHandler>>,
     operation_id: Uuid,
@@ -1252,6 +1266,7 @@ impl PreCommit {
                 log_store: this.log_store,
                 table_data: this.table_data,
                 max_retries: this.max_retries,
+                exclusive_creation: this.exclusive_creation,
                 data: this.data,
                 post_commit: this.post_commit_hook,
                 post_commit_hook_handler: this.post_commit_hook_handler,
@@ -1281,6 +1296,7 @@ pub struct PreparedCommit {
     data: CommitData,
     table_data: Option<Arc<DeltaSnapshot>>,
     max_retries: usize,
+    exclusive_creation: bool,
     post_commit: Option<PostCommitHookProperties>,
     post_commit_hook_handler: Option<Arc<dyn CustomExecuteHandler>>,
     operation_id: Uuid,
@@ -1352,6 +1368,19 @@ impl std::future::IntoFuture for PreparedCommit {
                         // For creation attempts where the table now exists, ensure protocol/metadata match
                         // and strip creation-only actions before retrying as an append.
                         if creation_intent {
+                            // Only an append may add its data to a table created by another
+                            // transaction.
+                            if this.exclusive_creation
+                                && local_actions
+                                    .iter()
+                                    .any(|action| matches!(action, CommitAction::Add(_)))
+                            {
+                                return Err(TransactionError::CommitConflict(
+                                    CommitConflictError::MetadataChanged,
+                                )
+                                .into());
+                            }
+
                             if let Some(txn_protocol) = creation_protocol.as_ref()
                                 && txn_protocol != snapshot.protocol()
                             {
-- 
2.43.0


From 24ce1f0cff8e2f35ed404d692dbc5a0a950ddffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:20 +0000
Subject: [PATCH 34/37] fix: do not record an overwrite of an empty Delta table
 as a blind append

---
 crates/sail-delta-lake/src/transaction/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/sail-delta-lake/src/transaction/mod.rs b/crates/sail-delta-lake/src/transaction/mod.rs
index 2ad4233..642e8c2 100644
--- a/crates/sail-delta-lake/src/transaction/mod.rs
+++ b/crates/sail-delta-lake/src/transaction/mod.rs
@@ -41,9 +41,9 @@ use crate::delta_log::{
 };
 use crate::snapshot::DeltaSnapshotConfig;
 use crate::spec::{
-    Action, CommitAction, DeltaError, DeltaOperation, DeltaResult, Metadata, TableFeature,
-    Transaction, VersionChecksum, checksum_path, logical_file_key, staged_commit_path,
-    temp_commit_path,
+    Action, CommitAction, DeltaError, DeltaOperation, DeltaResult, Metadata, SaveMode,
+    TableFeature, Transaction, VersionChecksum, checksum_path, logical_file_key,
+    staged_commit_path, temp_commit_path,
 };
 pub use crate::spec::{CommitConflictError, TransactionError};
 use crate::table::DeltaSnapshot;
@@ -659,7 +659,9 @@ impl CommitData {
 
     fn is_blind_append(actions: &[CommitAction], operation: &DeltaOperation) -> bool {
         match operation {
-            DeltaOperation::Write { predicate, .. } if predicate.is_none() => {
+            DeltaOperation::Write {
+                mode, predicate, ..
+            } if *mode != SaveMode::Overwrite && predicate.is_none() => {
                 actions.iter().all(|action| {
                     matches!(
                         action,
-- 
2.43.0


From 240d4fdfdbdb2cee9b4e8543d430fd20e119fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:22 +0000
Subject: [PATCH 35/37] fix: count the initial workers toward the maximum
 number of workers

The workers launched when the driver is activated were neither recorded as
requested nor limited, so the workers requested for a job before they
registered came on top of them and exceeded worker_max_count.
---
 crates/sail-execution/src/driver/actor/handler.rs    |  5 ++++-
 .../sail-execution/src/driver/task_assigner/core.rs  | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/sail-execution/src/driver/actor/handler.rs b/crates/sail-execution/src/driver/actor/handler.rs
index 7ec8542..5e585ad 100644
--- a/crates/sail-execution/src/driver/actor/handler.rs
+++ b/crates/sail-execution/src/driver/actor/handler.rs
@@ -40,7 +40,10 @@ impl DriverActor {
 
     pub(super) fn handle_activate(&mut self, ctx: &mut ActorContext<Self>) -> ActorAction {
         info!("activating driver {}", self.options.driver_id);
-        for _ in 0..self.options.worker_initial_count {
+        let worker_count = self
+            .task_assigner
+            .request_initial_workers(self.options.worker_initial_count);
+        for _ in 0..worker_count {
             self.worker_pool.start_worker(ctx);
         }
         ActorAction::Continue
diff --git a/crates/sail-execution/src/driver/task_assigner/core.rs b/crates/sail-execution/src/driver/task_assigner/core.rs
index b6e8d83..142dedb 100644
--- a/crates/sail-execution/src/driver/task_assigner/core.rs
+++ b/crates/sail-execution/src/driver/task_assigner/core.rs
@@ -55,6 +55,18 @@ impl TaskAssigner {
         required_workers
     }
 
+    /// Records the workers launched when the driver is activated, and returns how many to launch.
+    /// These workers count toward the maximum number of workers like the ones requested later.
+    pub fn request_initial_workers(&mut self, count: usize) -> usize {
+        let initial_workers = if self.options.worker_max_count == 0 {
+            count
+        } else {
+            count.min(self.options.worker_max_count)
+        };
+        self.requested_worker_count = self.requested_worker_count.saturating_add(initial_workers);
+        initial_workers
+    }
+
     pub fn track_worker_failed_to_start(&mut self) {
         self.requested_worker_count = self.requested_worker_count.saturating_sub(1);
     }
-- 
2.43.0


From 0a90e484b14381f1604ad75099fccf0eef8a4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:44 +0000
Subject: [PATCH 36/37] fix: keep the results of a completed operation until
 the client releases them

A client that lost its connection after the operation completed, but before it
received all the responses, could not reattach: the buffered responses were
dropped as soon as the last one was handed to the response stream.
---
 crates/sail-spark-connect/src/executor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/sail-spark-connect/src/executor.rs b/crates/sail-spark-connect/src/executor.rs
index 0ebc2ad..0239cef 100644
--- a/crates/sail-spark-connect/src/executor.rs
+++ b/crates/sail-spark-connect/src/executor.rs
@@ -10,6 +10,7 @@ use datafusion::arrow::array::RecordBatch;
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::arrow::ipc::writer::StreamWriter;
 use datafusion::execution::SendableRecordBatchStream;
+use datafusion::physical_plan::EmptyRecordBatchStream;
 use fastrace::Span;
 use fastrace::future::FutureExt;
 use futures::Stream;
@@ -167,6 +168,9 @@ pub(crate) enum ExecutorTaskState {
         batches: Vec<RecordBatch>,
         completion: Option<CommandCompletionHandler>,
     },
+    /// All the outputs have been produced. The ones that the client has not released
+    /// remain in the buffer so that they can be sent again.
+    Completed,
 }
 
 enum ExecutorTaskItem {
@@ -209,7 +213,6 @@ impl ExecutorTaskContext {
 enum ExecutorTaskResult {
     Paused(ExecutorTaskContext),
     Failed(SparkError),
-    Completed,
 }
 
 impl Executor {
@@ -352,6 +355,7 @@ impl Executor {
                     .await?;
                 }
             }
+            ExecutorTaskState::Completed => {}
         }
         Ok(())
     }
@@ -367,7 +371,13 @@ impl Executor {
             _ = listener => return ExecutorTaskResult::Paused(context),
         };
         match out {
-            Ok(()) => ExecutorTaskResult::Completed,
+            Ok(()) => {
+                // The client may have lost its connection before it receives all the outputs,
+                // so the outputs must be available when the client reattaches.
+                context.state = ExecutorTaskState::Completed;
+                context.stream = Box::pin(EmptyRecordBatchStream::new(context.stream.schema()));
+                ExecutorTaskResult::Paused(context)
+            }
             Err(SparkError::SendError(_)) => ExecutorTaskResult::Paused(context),
             Err(e) => {
                 let _ = tx.send(Err(e)).await;
@@ -442,7 +452,6 @@ impl Executor {
         let _ = task.notifier.send(());
         let state = match task.handle.await? {
             ExecutorTaskResult::Paused(context) => ExecutorState::Pending { context, span },
-            ExecutorTaskResult::Completed => ExecutorState::Idle,
             ExecutorTaskResult::Failed(e) => ExecutorState::Failed(e),
         };
         *(self.state.lock()?) = state;
-- 
2.43.0


From ecb3cc3edcbc6256fb45a9aaca85635838364514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:13 +0000
Subject: [PATCH 37/37] fix: refuse to resume an operation when responses are
 no longer buffered

When more responses were outstanding than the buffer of a reattachable
operation holds, the oldest were dropped silently, and a client that
reattached continued after a gap and returned an incomplete result.
---
 crates/sail-spark-connect/src/executor.rs     | 33 +++++++++++++++++--
 .../src/service/plan_executor.rs              |  4 +--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/crates/sail-spark-connect/src/executor.rs b/crates/sail-spark-connect/src/executor.rs
index 0239cef..36d36ed 100644
--- a/crates/sail-spark-connect/src/executor.rs
+++ b/crates/sail-spark-connect/src/executor.rs
@@ -65,6 +65,8 @@ pub type ExecutorOutputStream = Pin<Box<dyn Stream<Item = SparkResult<ExecutorOu
 struct ExecutorBuffer {
     capacity: usize,
     inner: VecDeque<ExecutorOutput>,
+    /// The ID of the last output that was removed from the buffer.
+    last_removed: Option<String>,
 }
 
 // TODO: use "spark.connect.execute.reattachable.observerRetryBufferSize"
@@ -76,6 +78,7 @@ impl ExecutorBuffer {
         Self {
             capacity,
             inner: VecDeque::with_capacity(capacity),
+            last_removed: None,
         }
     }
 
@@ -83,8 +86,10 @@ impl ExecutorBuffer {
         if self.capacity == 0 {
             return;
         }
-        if self.inner.len() >= self.capacity {
-            self.inner.pop_front();
+        if self.inner.len() >= self.capacity
+            && let Some(output) = self.inner.pop_front()
+        {
+            self.last_removed = Some(output.id);
         }
         self.inner.push_back(output);
     }
@@ -93,9 +98,19 @@ impl ExecutorBuffer {
         let index = self.inner.iter().position(|x| x.id == id);
         if let Some(index) = index {
             self.inner.drain(0..=index);
+            self.last_removed = Some(id.to_string());
         }
     }
 
+    /// Removes the outputs up to the last one that the client has received.
+    /// Returns whether all the outputs after it are in the buffer.
+    fn seek(&mut self, id: Option<&str>) -> bool {
+        if let Some(id) = id {
+            self.remove_until(id);
+        }
+        self.last_removed.as_deref() == id
+    }
+
     fn iter(&self) -> impl Iterator<Item = &ExecutorOutput> {
         self.inner.iter()
     }
@@ -458,6 +473,20 @@ impl Executor {
         Ok(())
     }
 
+    /// Prepares for resuming the operation after the last response that the client has received.
+    pub(crate) fn seek(&self, response_id: Option<String>) -> SparkResult<()> {
+        let state = self.state.lock()?;
+        if let ExecutorState::Pending { context, span: _ } = state.deref()
+            && !context.buffer.lock()?.seek(response_id.as_deref())
+        {
+            return Err(SparkError::invalid(format!(
+                "the responses after the last received one are no longer available for operation: {}",
+                self.metadata.operation_id
+            )));
+        }
+        Ok(())
+    }
+
     pub(crate) fn release(&self, response_id: String) -> SparkResult<()> {
         let state = self.state.lock()?;
         let buffer = match state.deref() {
diff --git a/crates/sail-spark-connect/src/service/plan_executor.rs b/crates/sail-spark-connect/src/service/plan_executor.rs
index b86a50a..7e527a3 100644
--- a/crates/sail-spark-connect/src/service/plan_executor.rs
+++ b/crates/sail-spark-connect/src/service/plan_executor.rs
@@ -615,9 +615,7 @@ pub(crate) async fn handle_reattach_execute(
         )));
     }
     executor.pause_if_running().await?;
-    if let Some(response_id) = response_id {
-        executor.release(response_id)?;
-    }
+    executor.seek(response_id)?;
     let rx = executor.start()?;
     Ok(ExecutePlanResponseStream::new(
         spark.session_id().to_string(),
-- 
2.43.0

