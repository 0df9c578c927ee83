From 32c5f28d62c87b580d6d963ecb6bae746863ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:52 +0000
Subject: [PATCH 01/10] fix: reject out-of-range values before touching an
 AtomicHistogram

Recording exactly 2^max_value_power panicked with an index out of bounds
in the inner histogram, and a rejected first value still allocated the
buckets so that an empty histogram was reported.
---
 metriken/src/histogram.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 24bfd9e..216ac1e 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -40,7 +40,17 @@ impl AtomicHistogram {
     }
 
     /// Increments the bucket for a corresponding value.
+    ///
+    /// Values outside of the range of the histogram are rejected with an error
+    /// and do not otherwise affect the histogram.
     pub fn increment(&self, value: u64) -> Result<(), Error> {
+        // Check the range here: the inner histogram accepts a value of exactly
+        // `2^max_value_power` and then panics as there is no bucket for it.
+        let max_value_power = self.config.max_value_power() as u32;
+        if value.checked_shr(max_value_power).unwrap_or(0) != 0 {
+            return Err(Error::OutOfRange);
+        }
+
         self.get_or_init().increment(value)
     }
 
-- 
2.43.0


From a61eac59ebee777fb4e76eba8220ec6d3da4a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:30 +0000
Subject: [PATCH 02/10] fix: never expose an RwLockHistogram update before it
 happened

The first update_from created zeroed storage and only then took the lock
to copy the data, so a concurrent load could report an all-zero histogram
that no update ever contained.
---
 metriken/src/histogram.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 216ac1e..038a905 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -120,10 +120,19 @@ impl RwLockHistogram {
             return Err(Error::IncompatibleParameters);
         }
 
-        let mut histogram = self.get_or_init().write();
-
-        let buckets = histogram.as_mut_slice();
-        buckets.copy_from_slice(data);
+        // The first update creates the storage already holding its data, so that
+        // a concurrent load can never observe an update which has not happened.
+        let mut created = false;
+        let inner = self.inner.get_or_init(|| {
+            created = true;
+            let mut histogram = ::histogram::Histogram::with_config(&self.config);
+            histogram.as_mut_slice().copy_from_slice(data);
+            histogram.into()
+        });
+
+        if !created {
+            inner.write().as_mut_slice().copy_from_slice(data);
+        }
 
         Ok(())
     }
@@ -137,11 +146,6 @@ impl RwLockHistogram {
     pub fn load(&self) -> Option<Histogram> {
         self.inner.get().map(|h| h.read().clone())
     }
-
-    fn get_or_init(&self) -> &RwLock<::histogram::Histogram> {
-        self.inner
-            .get_or_init(|| ::histogram::Histogram::with_config(&self.config).into())
-    }
 }
 
 impl Metric for RwLockHistogram {
-- 
2.43.0


From cdd8268dd6ae80c70a1256fd59c2397c12dc19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:58 +0000
Subject: [PATCH 03/10] fix: use the custom formatter of dynamic metrics

MetricBuilder::formatter stores the formatter in the provider map, which
provides it by reference, but MetricEntry::formatted only asked for it by
value, so a formatter set on a dynamic metric was never called.
---
 metriken-core/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..9f864e9 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -126,9 +126,15 @@ impl MetricEntry {
 
     /// Format the metric into a string with the given format.
     pub fn formatted(&self, format: Format) -> String {
+        // Statically declared metrics provide their formatter by value while
+        // dynamic ones store it in the provider map and provide it by reference.
         let formatter = self
             .request_value::<crate::wrapper::FormattingFn>()
             .map(|func| func.0)
+            .or_else(|| {
+                self.request_ref::<crate::wrapper::FormattingFn>()
+                    .map(|func| func.0)
+            })
             .unwrap_or(crate::default_formatter);
 
         formatter(self, format)
-- 
2.43.0


From f29e608b7d00fb928a42a95a654afeef044b4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:58 +0000
Subject: [PATCH 04/10] fix: count dynamic metrics in MetricsIter::size_hint

The static iterator's bounds were added to themselves, so the reported
bounds did not contain the number of metrics left.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From 38b97b5bf4bc9df76c622a991acc4f66282d5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:58 +0000
Subject: [PATCH 05/10] fix: make MetricsIter::nth_back continue into the
 static metrics

Skipping past the dynamic metrics asked the exhausted dynamic iterator
again instead of the static one, so the walk ended early.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From f954f582518727bafd38b74f1ef223757a0301dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:09 +0000
Subject: [PATCH 06/10] fix: report input errors from conversion instead of
 panicking

Reading or seeking the input could fail, or merely be interrupted, between
two snapshots, and convert_file_handle unwrapped those results. Interrupted
reads are now retried and all other errors are returned.
---
 metriken-exposition/src/convert.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..0f0125c 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{BufRead, BufReader, Read, Seek, Write};
+use std::io::{BufRead, BufReader, ErrorKind, Read, Seek, Write};
 use std::path::Path;
 
 use parquet::errors::ParquetError;
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !at_eof(&mut reader)? {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !at_eof(&mut reader)? {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
@@ -80,3 +80,15 @@ impl MsgpackToParquet {
         Ok(metadata.num_rows)
     }
 }
+
+/// Returns true once there is nothing left to read. As with other reads of the
+/// input, interrupted calls are retried and all other errors are reported.
+fn at_eof(reader: &mut impl BufRead) -> Result<bool, ParquetError> {
+    loop {
+        match reader.fill_buf() {
+            Ok(buf) => return Ok(buf.is_empty()),
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        }
+    }
+}
-- 
2.43.0


From 9083cb4e31f3be81968724c3809a8a374aacff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:38 +0000
Subject: [PATCH 07/10] fix: convert the same snapshots in both passes

The second pass always restarted at offset 0 and ran to the end of the input,
so a handle that did not start at offset 0, or an input that grew in the
meantime, produced rows for snapshots the schema had never seen and silently
dropped their metrics; an input that shrank was silently converted in part.
---
 metriken-exposition/src/convert.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 0f0125c..ca8a1b6 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{BufRead, BufReader, ErrorKind, Read, Seek, Write};
+use std::io::{BufRead, BufReader, ErrorKind, Read, Seek, SeekFrom, Write};
 use std::path::Path;
 
 use parquet::errors::ParquetError;
@@ -60,17 +60,24 @@ impl MsgpackToParquet {
         let mut reader = BufReader::new(reader);
         let mut schema = ParquetSchema::new();
 
+        // The input starts at the current position of the handle
+        let start = reader.stream_position()?;
+        let mut snapshots = 0;
+
         // First pass to build the schema
         while !at_eof(&mut reader)? {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
+            snapshots += 1;
         }
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
-        // Rewind file pointer and second pass for the actual metrics
-        reader.rewind()?;
-        while !at_eof(&mut reader)? {
+        // Rewind file pointer and second pass for the actual metrics. This needs
+        // to cover exactly the snapshots that the schema was built from, even if
+        // the input has changed in the meantime.
+        reader.seek(SeekFrom::Start(start))?;
+        for _ in 0..snapshots {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0


From c5608a5854713b988172c327abec01ec22dceb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:52 +0000
Subject: [PATCH 08/10] fix: decode self-describing V2 snapshots as V2

A V2 snapshot encoded as JSON has every field of a V1 snapshot, and as V1 was
tried first it was decoded as V1, losing its duration.
---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..837120d 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // Deserialization picks the first variant that matches. In self-describing
+    // formats a V2 snapshot also matches V1, so V2 needs to come first.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From 2bde052ba291afc3ac92ccaf658cd835ea33dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:21 +0000
Subject: [PATCH 09/10] fix: make MetricEntry::is recognise dynamic metrics

---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..4173984 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -157,6 +157,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// The metric needs to come first so that it has the same address as the whole,
+/// which is how [`MetricEntry::is`] recognises it.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From a77280a6777a56ed71f582e71741fc89f88f6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:57 +0000
Subject: [PATCH 10/10] fix: MetricEntry::is compares the types of the metrics,
 not of the trait object

`type_id` on a `&dyn Metric` is the id of `dyn Metric`, so the documented type
check always passed and a metric that starts with another metric was taken
for it.
---
 metriken-core/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index 9f864e9..a7ae084 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -146,8 +146,12 @@ impl MetricEntry {
     /// false positives if `metric` is a ZST since multiple ZSTs may share
     /// the same address.
     pub fn is(&self, metric: &dyn Metric) -> bool {
-        if self.metric().type_id() != metric.type_id() {
-            return false;
+        // Note that `type_id` on a `dyn Metric` is the id of `dyn Metric` itself,
+        // so the types have to be compared via `as_any`.
+        if let (Some(a), Some(b)) = (self.metric().as_any(), metric.as_any()) {
+            if a.type_id() != b.type_id() {
+                return false;
+            }
         }
 
         let a = self.metric() as *const _ as *const ();
-- 
2.43.0

