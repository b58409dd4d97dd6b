From 47508663b58dd0efb947457f694c8860d2cf1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 01/34] fix: reading a range that ends before it starts, or
 holds no sample, panicked or lost samples

---
 src/storage/common.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..0853759 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -34,17 +34,10 @@ pub trait Storage: Sized + HasTypeName {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimePoint>> {
-        //series should already sorted
-        let left = match series.binary_search(&TimePoint::new(start_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx,
-        };
-        let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
-        };
-        let res = &series[left..=right];
-        Ok(Vec::from(res))
+        Ok(series
+            .into_iter()
+            .filter(|tp| tp.timestamp >= start_time && tp.timestamp <= end_time)
+            .collect())
     }
 }
 
-- 
2.43.0


From 41862926a91a198c8206364fc2b492f2bb672b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 02/34] fix: a failed write to a known series was acknowledged

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..c3f3efb 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -130,7 +130,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
-- 
2.43.0


From a461b87c13947cda19760879938b237bc289dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 03/34] fix: samples at the first and last instant of a chunk
 were refused

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index c3f3efb..501eaf0 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -171,7 +171,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
     }
 
     fn is_in_range(&self, timestamp: &Timestamp) -> bool {
-        return self.start_time < *timestamp && self.end_time > *timestamp;
+        return self.start_time <= *timestamp && self.end_time >= *timestamp;
     }
 }
 
-- 
2.43.0


From 14596dd8289d16233896c02e17dfa97fdfa61aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 04/34] fix: chunk queries ran without holding the lock, and
 could see half of a write

---
 src/chunk/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 501eaf0..b74ab31 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -142,7 +142,8 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimeSeries>> {
-        self.mutex
+        let _m = self
+            .mutex
             .read()
             .expect("Poisoned mutex when try to read from chunk");
         if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {
-- 
2.43.0


From 7c7981aa44789593d4dcbf76b806d0499873e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 05/34] fix: one matching series without samples in the range
 made the whole query come up empty

---
 src/chunk/chunk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index b74ab31..538fedb 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -153,7 +153,12 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                Ok(data) => data,
+                // this series has nothing to contribute, others may have
+                Err(MonolithErr::NotFoundErr) | Err(OutOfRangeErr(_, _)) => continue,
+                Err(err) => return Err(err),
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From 5b4665e482df1cd822aef6ed4fe013897378fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 06/34] fix: a closed chunk still took writes

---
 src/chunk/chunk.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 538fedb..ea163fc 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -112,6 +112,11 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
             .mutex
             .write()
             .expect("Poisoned mutex when try to insert into chunk");
+        if self.is_closed() {
+            return Err(MonolithErr::InternalErr(
+                "Try to insert into a closed chunk".to_string(),
+            ));
+        }
         if !self.is_in_range(&timepoint.timestamp) {
             info!(
                 "Chunk range {}, {}; but trying to insert {}",
-- 
2.43.0


From f7617890dcdff8816dd380862bf977c983f1820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 07/34] fix: selecting by a label that no series has ignored
 that label instead of matching nothing

---
 src/indexer/sled_indexer.rs |  6 ++++--
 src/indexer/tikv_indexer.rs | 29 +++++++++++++----------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..97b09e6 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -87,8 +87,10 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                // no series has this label, so none has all of them
+                None => return Ok(Vec::new()),
             }
         }
 
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..66731e1 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -69,22 +69,19 @@ impl Indexer for TiKvIndexer {
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         // Get raw value from tikv
-        let query_res = labels
-            .vec()
-            .into_iter()
-            .map(|label| {
-                self.add_indexer_id(
-                    KvIndexerProcessor::encode_label(label)
-                        .into_bytes()
-                        .as_mut(),
-                )
-            })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
-            .collect::<Vec<Vec<u8>>>();
+        let mut query_res: Vec<Vec<u8>> = vec![];
+        for label in labels.vec() {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_label(label)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            match self.client.get(key)? {
+                Some(val) => query_res.push(val),
+                // no series has this label, so none has all of them
+                None => return Ok(Vec::new()),
+            }
+        }
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
         for val in query_res {
-- 
2.43.0


From 18b3085ec181254a366428aeb00c44aeaf37a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 08/34] fix: a failing TiKV read made a series vanish from the
 answer instead of failing the query

---
 src/indexer/tikv_indexer.rs | 46 +++++++++++--------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 66731e1..73253e6 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -32,39 +32,19 @@ impl Indexer for TiKvIndexer {
     ) -> Result<Vec<(TimeSeriesId, Labels)>> {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
-        //todo: refactor this.
-        Ok(ids
-            .iter()
-            // Convert into keys
-            .map(|id| {
-                (
-                    *id,
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_time_series_id(*id)
-                            .into_bytes()
-                            .as_mut(),
-                    ),
-                )
-            })
-            // Get raw value from db store
-            .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            // Choose the one with value
-            .filter(|(_id, option)| option.is_some())
-            // Unwrap value
-            .map(|(id, option)| (id, option.unwrap()))
-            // Convert Vec<u8> into String
-            .map(|(id, raw)| (id, String::from_utf8_lossy(raw.as_slice()).to_string()))
-            // Convert String into labels
-            .map(|(id, raw)| (id, KvIndexerProcessor::decode_labels(raw, false)))
-            // Choose valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            .collect())
+        let mut res = Vec::new();
+        for id in ids {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_time_series_id(id)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            if let Some(raw) = self.client.get(key)? {
+                let raw = String::from_utf8_lossy(raw.as_slice()).to_string();
+                res.push((id, KvIndexerProcessor::decode_labels(raw, false)?));
+            }
+        }
+        Ok(res)
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
-- 
2.43.0


From 0d121eec989f206ea9615337e8c4e45e53670cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 09/34] fix: label sets with commas, or with a first label name
 starting with R, were mixed up in the index

---
 src/indexer/sled_indexer.rs | 58 ++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 97b09e6..cef5df7 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -257,7 +257,23 @@ pub(crate) struct KvIndexerProcessor {}
 
 impl KvIndexerProcessor {
     fn _encode_label(label: &Label) -> String {
-        format!("{}={}", label.key(), label.value())
+        format!(
+            "{}={}",
+            KvIndexerProcessor::escape(label.key(), "\\,="),
+            KvIndexerProcessor::escape(label.value(), "\\,")
+        )
+    }
+
+    /// Put a backslash before each of the special characters
+    fn escape(raw: &str, special: &str) -> String {
+        let mut res = String::new();
+        for c in raw.chars() {
+            if special.contains(c) {
+                res.push('\\');
+            }
+            res.push(c);
+        }
+        res
     }
 
     /// encode single label as key
@@ -285,6 +301,10 @@ impl KvIndexerProcessor {
         }
         res.pop(); //remove last ,
         if with_prefix {
+            if res.starts_with("R") {
+                // keep it apart from the reverse index, whose prefix is LR
+                res.insert(0, '\\');
+            }
             res.insert_str(0, LABEL_PREFIX);
         }
         res
@@ -299,23 +319,27 @@ impl KvIndexerProcessor {
         if is_key {
             _labels_str.replace_range(..LABEL_PREFIX.len(), "");
         }
-        let pairs: Vec<&str> = _labels_str.split(",").collect();
         let mut res = Vec::new();
-        for pair in pairs {
-            // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
-            // Label name must match regex [a-zA-Z_][a-zA-Z0-9_]*
-            // Thus, we can always use the first = to split label name from label value
-            let equal_idx = pair.find("=").ok_or(MonolithErr::InternalErr(
-                "Cannot parse label data".to_string(),
-            ))?;
-            let (key, value_with_equal) = pair.split_at(equal_idx);
-            let value = {
-                let mut s = String::from(value_with_equal);
-                s.remove(0);
-                s
-            };
-            let label = Label::from_key_value(key, value.as_str());
-            res.push(label)
+        let mut key: Option<String> = None;
+        let mut text = String::new();
+        let mut chars = _labels_str.chars();
+        loop {
+            match chars.next() {
+                // escaped, stands for itself
+                Some('\\') => text.extend(chars.next()),
+                // The first = splits label name from label value
+                Some('=') if key.is_none() => key = Some(std::mem::replace(&mut text, String::new())),
+                Some(c) if c != ',' => text.push(c),
+                end => {
+                    let key = key.take().ok_or(MonolithErr::InternalErr(
+                        "Cannot parse label data".to_string(),
+                    ))?;
+                    res.push(Label::new(key, std::mem::replace(&mut text, String::new())));
+                    if end.is_none() {
+                        break;
+                    }
+                }
+            }
         }
         Ok(Labels::from_vec(res))
     }
-- 
2.43.0


From d15a1592c831435c358f3e129d53214bd23c8f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 10/34] fix: a failure or crash while a series was indexed left
 it half indexed, and was not reported

---
 src/indexer/sled_indexer.rs | 10 ++++----
 src/indexer/tikv_indexer.rs | 46 ++++++++++++++-----------------------
 2 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index cef5df7..975166a 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -119,13 +119,12 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
 
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -141,10 +140,13 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
-            tree.flush();
+            tree.set(&key, val.into_bytes())?;
         }
 
+        // last, because from now on the series is taken to be indexed
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
+        tree.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 73253e6..e2ad460 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -99,43 +99,31 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
+            )?;
+        }
+
+        {
+            // Create Reverse Search
+            for label in labels.vec() {
+                let key = self.add_indexer_id(
+                    KvIndexerProcessor::encode_label(label)
+                        .into_bytes()
+                        .as_mut(),
+                );
+                let mut val = self.client.get(key.clone())?.unwrap_or(Vec::new());
+                val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
+                self.client.set(key, val)?;
+            }
         }
 
         {
             //Create map between full label set to time series id
+            //last, because from now on the series is taken to be indexed
             let key = KvIndexerProcessor::encode_labels(&labels, true);
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
-        }
-
-        {
-            // Create Reverse Search
-            labels
-                .vec()
-                .iter()
-                .map(|label| {
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_label(label)
-                            .into_bytes()
-                            .as_mut(),
-                    )
-                })
-                .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
-                    Some(mut val) => {
-                        val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
-                    }
-                    None => {
-                        self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
-                    }
-                })
-                .collect::<Vec<()>>();
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From 6a4f9d57ed237d8c6ba08ae054f6cb6bc2c0344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 11/34] fix: SledStorage lost time order on late or repeated
 samples, and did not report failed writes

---
 src/storage/sled_storage.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..b64fa22 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -57,7 +57,6 @@ impl SledStorage {
 }
 
 impl Storage for SledStorage {
-    //todo: check if timestamp is earlier than last timestamp in series. If so, how to deal with?
     fn write_time_point(
         &self,
         time_series_id: u64,
@@ -66,11 +65,22 @@ impl Storage for SledStorage {
     ) -> Result<()> {
         let tree: &Tree = &self.storage;
         let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);
-        let mut value = KvStorageProcessor::encode_time_point(timestamp, value)?;
+        let value = KvStorageProcessor::encode_time_point(timestamp, value)?;
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
-            current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            // keep the series in time order, with one time point per timestamp
+            let timestamp_size = std::mem::size_of::<Timestamp>();
+            let start = value.len()
+                * current_val_bytes
+                    .chunks(value.len())
+                    .take_while(|point| point[..timestamp_size] < value[..timestamp_size])
+                    .count();
+            let end = match current_val_bytes.get(start..start + timestamp_size) {
+                Some(same) if same == &value[..timestamp_size] => start + value.len(),
+                _ => start,
+            };
+            current_val_bytes.splice(start..end, value);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
-- 
2.43.0


From 30339fddac5068df313e609ee24c9ac496fb5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 12/34] fix: comparing label sets of different length panicked
 or found them equal

---
 src/common/label.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..771601f 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,12 +98,7 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
-        for i in 0..self.len() {
-            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
-                return false;
-            }
-        }
-        true
+        self.0 == other.0
     }
 }
 
-- 
2.43.0


From 5222db0f8a535dd335757cfbd14efa5855d9bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 13/34] fix: time points with different values compared equal

---
 src/common/time_point.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/time_point.rs b/src/common/time_point.rs
index 2150cd9..86fc88a 100644
--- a/src/common/time_point.rs
+++ b/src/common/time_point.rs
@@ -22,7 +22,8 @@ impl Eq for TimePoint {}
 impl PartialEq for TimePoint {
     fn eq(&self, other: &Self) -> bool {
         self.timestamp.eq(&other.timestamp)
-            && (self.value - other.value < F64_MARGIN || other.value - self.value < F64_MARGIN)
+            && (self.value.to_bits() == other.value.to_bits()
+                || (self.value - other.value).abs() < F64_MARGIN)
     }
 }
 
-- 
2.43.0


From c214d74cf793c85fc0a7da69e160a09a985d6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 14/34] fix: chunks on TiKV shared one empty storage
 identifier, and lost track of their index on restart

---
 src/backend/tikv.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..43fb05f 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,17 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.append(value[16..].to_vec().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
             let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            res.append(value[..16].to_vec().as_mut());
+            res.append(storage_id.clone().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From 1e2c2f03eb4d8f9a6bdfa4286a81fd663fbb7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 15/34] fix: a query that met a chunk swap could see the
 samples of one chunk twice

---
 src/db.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 5208abb..67d6198 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -207,10 +207,11 @@ where
     ) -> Result<LabelPointPairs> {
         let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
         let res_ref = &mut res;
+        //hold it to the end, no chunk may move from current to previous chunks in between
+        let _c = &self.current_chuck.read().unwrap();
         //insert in reverse time order in order to quickly append vec
         {
             //check current chunk
-            let _c = &self.current_chuck.read().unwrap();
             let _res = _c.query(labels.clone(), start_time, end_time);
             if _res.is_ok() {
                 for ref t in _res.unwrap() {
@@ -303,12 +304,9 @@ where
         );
 
         let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
-        {
-            let stale = self.current_chuck.read().unwrap();
-            self.secondary_chunks.write().unwrap().push(stale.clone());
-        }
         {
             let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
+            self.secondary_chunks.write().unwrap().push(current.clone());
             let (_, end_time) = current.start_end_time();
             info!("The old chunk with end time {} is closing", end_time);
             current.close(); //close the stale one
-- 
2.43.0


From de7377be902af1e7afe90ec77007e86d32b08a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 16/34] fix: queries left out the samples of a chunk that could
 not be read, without saying so

---
 src/db.rs | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 67d6198..0e689aa 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -212,15 +212,13 @@ where
         //insert in reverse time order in order to quickly append vec
         {
             //check current chunk
-            let _res = _c.query(labels.clone(), start_time, end_time);
-            if _res.is_ok() {
-                for ref t in _res.unwrap() {
+            if _c.is_with_range(start_time, end_time) {
+                for ref t in _c.query(labels.clone(), start_time, end_time)? {
                     res_ref.insert(
                         t.meta_data().clone(),
                         t.time_points().clone().into_iter().rev().collect(),
                     );
                 }
-            } else {
             }
         };
         {
@@ -228,25 +226,21 @@ where
             let chunks = &self.secondary_chunks.read().unwrap();
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
-                    let _res = _c.query(labels.clone(), start_time, end_time);
-                    if _res.is_ok() {
-                        for ref t in _res.unwrap() {
-                            let mut current_val = t
-                                .time_points()
-                                .clone()
-                                .into_iter()
-                                .rev()
-                                .collect::<Vec<TimePoint>>();
-                            match res_ref.get_mut(t.meta_data()) {
-                                Some(val) => {
-                                    val.append(&mut current_val);
-                                }
-                                None => {
-                                    res_ref.insert(t.meta_data().clone(), current_val);
-                                }
-                            };
-                        }
-                    } else {
+                    for ref t in _c.query(labels.clone(), start_time, end_time)? {
+                        let mut current_val = t
+                            .time_points()
+                            .clone()
+                            .into_iter()
+                            .rev()
+                            .collect::<Vec<TimePoint>>();
+                        match res_ref.get_mut(t.meta_data()) {
+                            Some(val) => {
+                                val.append(&mut current_val);
+                            }
+                            None => {
+                                res_ref.insert(t.meta_data().clone(), current_val);
+                            }
+                        };
                     }
                 };
             }
-- 
2.43.0


From dbd63a69eb49ff90931fe3cb7301d51965252d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 17/34] fix: samples came out of order, and twice, where the
 windows of two chunks overlap

---
 src/db.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/db.rs b/src/db.rs
index 0e689aa..583d6f2 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -236,6 +236,9 @@ where
                         match res_ref.get_mut(t.meta_data()) {
                             Some(val) => {
                                 val.append(&mut current_val);
+                                //chunks can overlap; where they do, the newer one, which comes first, counts
+                                val.sort_by(|a, b| b.timestamp.cmp(&a.timestamp));
+                                val.dedup_by_key(|point| point.timestamp);
                             }
                             None => {
                                 res_ref.insert(t.meta_data().clone(), current_val);
-- 
2.43.0


From 2cd70378622c9b3bc9dfc437e1378d6fc8f549ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 18/34] fix: acknowledged samples ahead of the clock were not
 found after a restart

---
 src/db.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 583d6f2..96eca9d 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -144,14 +144,8 @@ where
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
-                    let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
-                    // reset end time is necessary
-                    chunk_opts.end_time = Some(if end_time > current_time {
-                        current_time
-                    } else {
-                        end_time
-                    });
+                    chunk_opts.end_time = Some(end_time);
 
                     let storage = storage_builder
                         .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
-- 
2.43.0


From b32a762731c2435157b368e3ff37f29d429582eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 19/34] fix: an unfinished chunk, or a foreign entry, in the
 data directory made every start fail

---
 src/chunk/chunk.rs | 24 +++++++++++++++---------
 src/db.rs          | 14 ++++++++++++--
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index ea163fc..56e216c 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -30,15 +30,21 @@ pub struct ChunkOpts {
 impl ChunkOpts {
     pub fn read_config_from_dir(dir: &Path) -> Result<Self> {
         let content = fs::read_to_string(dir.join(CHUNK_METADATA_FILENAME));
-        return if content.is_ok() {
-            let opts: ChunkOpts = serde_json::from_str(content.unwrap().as_str())?;
-            Ok(opts)
-        } else {
-            error!(
-                "Cannot open option file from dir {}",
-                dir.as_os_str().to_str().unwrap_or("<unreadable path>")
-            );
-            Err(MonolithErr::NotFoundErr)
+        return match content {
+            Ok(content) => {
+                let opts: ChunkOpts = serde_json::from_str(content.as_str())?;
+                Ok(opts)
+            }
+            Err(err) => {
+                error!(
+                    "Cannot open option file from dir {}",
+                    dir.as_os_str().to_str().unwrap_or("<unreadable path>")
+                );
+                match err.kind() {
+                    std::io::ErrorKind::NotFound => Err(MonolithErr::NotFoundErr),
+                    _ => Err(err.into()),
+                }
+            }
         };
     }
 
diff --git a/src/db.rs b/src/db.rs
index 96eca9d..fd1140e 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -131,7 +131,13 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = entry?.path().into_os_string().into_string().unwrap();
+            let path_str = match entry?.path().into_os_string().into_string() {
+                Ok(path_str) => path_str,
+                Err(_) => continue, // not the name of a chunk
+            };
+            if !Path::new(&path_str).is_dir() {
+                continue;
+            }
             let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
             let dir_name = path_str.clone();
             let dir_name = dir_name
@@ -143,7 +149,11 @@ where
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
-                    let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
+                    let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
+                        // not a chunk, or one that was never finished
+                        Err(MonolithErr::NotFoundErr) => continue,
+                        chunk_opts => chunk_opts?,
+                    };
                     chunk_opts.start_time = Some(start_time);
                     chunk_opts.end_time = Some(end_time);
 
-- 
2.43.0


From baf338bb588fe852dfc58748094386c1df431351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 20/34] fix: a crash or failure while metadata was written left
 a directory that could not be opened

---
 src/chunk/chunk.rs  | 11 +++++------
 src/common/utils.rs | 11 +++++++++++
 src/db.rs           | 32 +++++++++++++++++++-------------
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 56e216c..bbd74d7 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -1,7 +1,7 @@
 use crate::common::label::Labels;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::TimeSeries;
-use crate::common::utils::{get_current_timestamp, is_duration_overlap};
+use crate::common::utils::{get_current_timestamp, is_duration_overlap, write_file_atomically};
 use crate::common::IdGenerator;
 use crate::{MonolithErr, Result, Timestamp, CHUNK_METADATA_FILENAME, DEFAULT_CHUNK_SIZE};
 
@@ -15,8 +15,6 @@ use std::sync::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
-use std::fs::File;
-use std::io::BufWriter;
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -53,9 +51,10 @@ impl ChunkOpts {
         // only write when start time and end time is not null
         if self.start_time.is_some() && self.end_time.is_some() {
             std::fs::create_dir_all(dir)?;
-            let file = File::create(dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
-            let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &self.clone());
+            write_file_atomically(
+                &dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)),
+                &serde_json::to_vec(&self)?,
+            )?;
         }
         Ok(())
     }
diff --git a/src/common/utils.rs b/src/common/utils.rs
index 9f9c33e..e13971f 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -2,6 +2,7 @@ use crate::ops::OrderIntersect;
 use crate::time_series::TimeSeriesId;
 use crate::{MonolithErr, Result, Timestamp};
 use std::fs::File;
+use std::io::Write;
 use std::ops::Index;
 use std::path::Path;
 use std::sync::mpsc::{channel, Receiver, Sender, TryRecvError};
@@ -127,6 +128,16 @@ pub fn intersect_time_series_id_vec(mut ts: Vec<Vec<TimeSeriesId>>) -> Result<Ve
     }
 }
 
+/// Write a file such that, even after a crash, there is either all of it or nothing.
+pub fn write_file_atomically(path: &Path, content: &[u8]) -> Result<()> {
+    let temp_path = path.with_extension("tmp");
+    let mut file = File::create(&temp_path)?;
+    file.write_all(content)?;
+    file.sync_all()?;
+    fs::rename(&temp_path, path)?;
+    Ok(())
+}
+
 /// Read file from dir, filename must be constant
 ///
 /// Return None if no such file found
diff --git a/src/db.rs b/src/db.rs
index fd1140e..93f1faf 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -10,13 +10,13 @@ use crate::common::label::Labels;
 use crate::common::metadata::DbMetadata;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::LabelPointPairs;
-use crate::common::utils::{decode_chunk_dir, encode_chunk_dir, get_current_timestamp};
+use crate::common::utils::{
+    decode_chunk_dir, encode_chunk_dir, get_current_timestamp, write_file_atomically,
+};
 use crate::indexer::Indexer;
 use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
-use std::fs::File;
-use std::io::BufWriter;
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -107,17 +107,23 @@ where
     fn read_or_create_metadata(base_dir: &Path, db_metadata: &DbMetadata) -> Result<()> {
         let content = fs::read_to_string(base_dir.join(DB_METADATA_FILENAME));
 
-        if content.is_ok() {
-            let metadata: DbMetadata = serde_json::from_str(content.unwrap().as_str())?;
-            if metadata.indexer_type != db_metadata.indexer_type
-                || metadata.storage_type != db_metadata.storage_type
-            {
-                return Err(MonolithErr::OptionErr);
+        match content {
+            Ok(content) => {
+                let metadata: DbMetadata = serde_json::from_str(content.as_str())?;
+                if metadata.indexer_type != db_metadata.indexer_type
+                    || metadata.storage_type != db_metadata.storage_type
+                {
+                    return Err(MonolithErr::OptionErr);
+                }
+            }
+            // only if there is none, not if it cannot be read
+            Err(ref err) if err.kind() == std::io::ErrorKind::NotFound => {
+                write_file_atomically(
+                    &base_dir.join(DB_METADATA_FILENAME),
+                    &serde_json::to_vec(db_metadata)?,
+                )?;
             }
-        } else {
-            let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            Err(err) => return Err(err.into()),
         }
 
         Ok(())
-- 
2.43.0


From 6e93b826e1407670d43f657d0e35067359e064ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 21/34] fix: Gorilla blocks lost samples at the edges of the
 encoded widths

---
 src/compaction/gorilla.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 90cbc1b..768dc12 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -101,7 +101,8 @@ impl GorillaCompactor {
             } else {
                 // single one bit
                 self.bstream.write_one();
-                let leading: u8 = xord.leading_zeros() as u8;
+                // there are 5 bits to store the len of leading zeros
+                let leading: u8 = xord.leading_zeros().min(31) as u8;
                 let trailing: u8 = xord.trailing_zeros() as u8;
                 if self.len > 1 && leading >= self.leading && trailing >= self.tailing {
                     self.bstream.write_zero(); // write 10
@@ -208,7 +209,11 @@ impl GorillaDecompactor {
             if l != 6 {
                 return None;
             }
-            let sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            // 64 significant bits do not fit in 6 bits and are stored as 0
+            let sig_len = match sigbits_len[0] >> 2 {
+                0 => value_size as u8,
+                len => len,
+            };
 
             let tailing = value_size as u8 - sig_len - leading;
 
@@ -393,7 +398,7 @@ fn vec_with_len(len: usize) -> Vec<u8> {
 
 // Find if the timestamp's meaningful in the `nbit` range.
 fn in_bit_range(t: i64, nbits: u8) -> bool {
-    return -((1 << (nbits - 1)) - 1) as i64 <= t && t <= 1 << (nbits - 1) as i64;
+    return -(1i64 << (nbits - 1)) <= t && t < 1i64 << (nbits - 1);
 }
 
 #[cfg(test)]
-- 
2.43.0


From a4e1e44fe1982e1254923bb4206624d20ad62271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 22/34] fix: the None compaction dropped what it was given and
 read blocks in wrong strides

---
 src/compaction/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index b3b3fcd..fa25ef5 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -100,10 +100,11 @@ impl Compactor {
                 vec.push(CompactType::Gorilla as u8);
                 vec
             }
-            &mut Compactor::None(ref _v) => {
-                let mut vec = _v.clone();
-                vec.push(CompactType::None as u8);
-                vec
+            &mut Compactor::None(_) => {
+                for tp in data {
+                    self.compact(&tp);
+                }
+                self.get_bytes_vec()
             }
         }
     }
@@ -165,7 +166,7 @@ impl Decompactor {
             &mut Decompactor::Gorilla(ref decompactor) => Ok(Vec::from_iter(decompactor.clone())),
             &mut Decompactor::None(ref _v) => {
                 let timepoint_size =
-                    std::mem::size_of::<Timestamp>() * 8 + std::mem::size_of::<Value>();
+                    std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
                 let mut res = vec![];
                 for _b in _v.chunks(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
-- 
2.43.0


From 2d8a8e59f8a9368932a128815721f03131aedf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 23/34] fix: the server ignored the value of --tikv_config

---
 src/bin/monolith-server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index 4f327a2..cf74a16 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -54,7 +54,9 @@ fn main() {
             Arg::with_name(WORKER_NUM)
                 .long(WORKER_NUM)
                 .default_value(default_worker_num.as_str()),
-            Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG),
+            Arg::with_name(TIKV_CONFIG)
+                .long(TIKV_CONFIG)
+                .takes_value(true),
         ])
         .get_matches();
 
-- 
2.43.0


From f7e837fb7e0ce802c984ede37d170ed9b4d0fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 24/34] fix: chunks were not found again in a directory whose
 path has many non-ASCII letters

---
 src/db.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 93f1faf..1d04cb3 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -137,24 +137,18 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = match entry?.path().into_os_string().into_string() {
-                Ok(path_str) => path_str,
-                Err(_) => continue, // not the name of a chunk
-            };
-            if !Path::new(&path_str).is_dir() {
+            let entry = entry?;
+            let path = entry.path();
+            if !path.is_dir() {
                 continue;
             }
-            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let dir_name = match entry.file_name().into_string() {
+                Ok(dir_name) => dir_name,
+                Err(_) => continue, // not the name of a chunk
+            };
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
                         // not a chunk, or one that was never finished
                         Err(MonolithErr::NotFoundErr) => continue,
-- 
2.43.0


From 51ec06d03e3010f2ee2a25aa76f35f7314756a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 25/34] hook: the write-ahead log's types are exported under
 cfg(monolith_verif)

---
 src/lib.rs     | 5 +++++
 src/wal/mod.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index da5fcba..1917f0e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,11 @@ mod error;
 mod backend;
 mod wal;
 
+#[cfg(monolith_verif)]
+pub mod verif_wal {
+    pub use crate::wal::{Entry, EntryType, FlushPolicy, Segment};
+}
+
 pub mod compaction;
 pub mod chunk;
 pub mod db;
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..358275b 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -5,6 +5,9 @@ use std::sync::{Arc, Mutex};
 mod segment;
 mod writer;
 
+#[cfg(monolith_verif)]
+pub use segment::Segment;
+
 /// Note that we only use the first three byte in this magic number
 /// User can still use the remaining 5 bytes to add more metadata
 /// Like WAL for different component
-- 
2.43.0


From fc40717c2ba2cb0deecac2ed41029f8b17c7a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 26/34] fix: the length of a log entry left out its length
 field

---
 src/wal/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 358275b..4b3e5f1 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -65,7 +65,7 @@ impl Entry {
     }
 
     pub fn len(&self) -> usize {
-        8 + 1 + self.content.len() + 4 // seq_id + entry_type + content + crc32
+        8 + 1 + 2 + self.content.len() + 4 // seq_id + entry_type + len + content + crc32
     }
 
     pub fn get_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 636822bb49759f21de75f905ad7d9132795d6d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 27/34] fix: the log lost, garbled or did not frame entries,
 and did not report failing writes

---
 src/wal/segment.rs | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..0ee9b47 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -1,5 +1,5 @@
 use crate::wal::{Entry, FlushCache, FlushPolicy, WalErr, WAL_MAGIC_NUMBER};
-use crate::Result;
+use crate::{MonolithErr, Result};
 use std::fs::File;
 use std::hash::Hasher;
 use std::io::Write;
@@ -21,26 +21,24 @@ pub struct Segment<W: Write> {
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        let written = self.writer.write(bytes)?;
+        self.crc.write(&bytes[..written]); // update crc
+        Ok(written)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
         let remaining = match &mut self.cache {
             &mut FlushCache::None => vec![],
             &mut FlushCache::NumBased {
-                limit: ref size,
                 ref mut idx,
                 ref mut cache,
+                ..
             } => {
                 *idx = 0;
-                let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
-                _cache
+                std::mem::replace(cache, vec![])
             }
-            &mut FlushCache::TimeBased { .. } => {
-                // fixme and above
-                vec![]
+            &mut FlushCache::TimeBased { ref cache, .. } => {
+                std::mem::replace(&mut *cache.lock().unwrap(), vec![])
             }
             &mut FlushCache::SizeBased {
                 ref limit,
@@ -56,7 +54,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.content.as_slice())?;
+                self.write_all(entry.get_bytes().as_slice())?;
             }
         }
 
@@ -70,8 +68,8 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
@@ -101,26 +99,33 @@ impl<W> Segment<W>
 
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?;
         let _crc = self.crc.finish();
-        self.write(&_crc.to_be_bytes())?; // append crc result
+        self.write_all(&_crc.to_be_bytes())?; // append crc result
+        self.writer.flush()?;
         Ok(())
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
+        if entry.content.len() > std::u16::MAX as usize {
+            return Err(MonolithErr::InternalErr(
+                "The content is too long for one log entry".to_string(),
+            ));
+        }
         match &mut self.cache {
             &mut FlushCache::None => {
-                self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+                self.write_all(entry.get_bytes().as_slice())?;
+                self.flush()?;
             }
             &mut FlushCache::NumBased {
                 limit: ref size,
                 ref mut idx,
                 ref mut cache,
             } => {
-                cache[*idx] = entry;
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
-                    self.flush();
+                if *idx >= *size {
+                    self.flush()?;
                 }
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -134,7 +139,7 @@ impl<W> Segment<W>
                 let entry_len = entry.len();
                 cache.push(entry);
                 if *size + entry_len >= *limit {
-                    self.flush();
+                    self.flush()?;
                 } else {
                     *size += entry_len;
                 }
-- 
2.43.0


From 76875f7346094792ac744a79c4e1b26ff3ebef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 28/34] fix: a malformed request took the server down, or was
 written as far as it could be read

---
 src/server.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 45f924a..9852876 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -63,11 +63,27 @@ where
     }
 
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
+        if request.url() != server.read_path && request.url() != server.write_path {
+            request.respond(Response::empty(404));
+            return;
+        }
+
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot read request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(_content) => _content,
+            Err(err) => {
+                error!("Cannot decompress request, {}", err);
+                request.respond(Response::empty(400));
+                return;
+            }
+        };
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
 
@@ -113,7 +129,11 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
+                if let Err(err) = write_req.merge_from(&mut input_stream) {
+                    error!("Cannot read content from write request {}", err);
+                    request.respond(Response::empty(400));
+                    return;
+                }
                 match server.write(write_req) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
-- 
2.43.0


From 3d3f6b1450c82e4669a21d8141130f2aecc78ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 29/34] fix: a remote read that ends before 1970 was answered
 as if it never ended

---
 src/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 9852876..a945a5a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -165,8 +165,8 @@ where
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
-                                q.end_timestamp_ms as Timestamp,
+                                q.start_timestamp_ms.max(0) as Timestamp,
+                                q.end_timestamp_ms.max(0) as Timestamp,
                             )
                             .ok()
                             .unwrap_or(Vec::new())
-- 
2.43.0


From 566a1f777c25e6e20d4c3e5f2615ee450372fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 30/34] fix: a remote read took every matcher for an equality,
 and left out what it could not read

---
 src/server.rs | 74 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index a945a5a..02251fa 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,9 +2,11 @@ use crate::MonolithDb;
 
 use crate::common::label::{Label, Labels};
 use crate::common::time_series::TimeSeries;
-use crate::proto::{QueryResult, ReadRequest, ReadResponse, WriteRequest};
+use crate::proto::{
+    LabelMatcher, LabelMatcher_Type, QueryResult, ReadRequest, ReadResponse, WriteRequest,
+};
 use crate::storage::Storage;
-use crate::{Result, Timestamp};
+use crate::{MonolithErr, Result, Timestamp};
 use protobuf::{CodedInputStream, CodedOutputStream, Message, RepeatedField};
 use std::io::{Cursor, Read};
 use tiny_http::{Request, Response, Server};
@@ -151,43 +153,49 @@ where
     }
 
     pub fn query(&self, read_rq: ReadRequest) -> Result<ReadResponse> {
+        let mut results = Vec::new();
+        for q in read_rq.queries.iter() {
+            let timeseries = self
+                .db
+                .query(
+                    Self::labels_to_match(q.get_matchers())?,
+                    q.start_timestamp_ms.max(0) as Timestamp,
+                    q.end_timestamp_ms.max(0) as Timestamp,
+                )?
+                .iter()
+                .map(crate::proto::TimeSeries::from)
+                .collect::<Vec<crate::proto::TimeSeries>>();
+            results.push(QueryResult {
+                timeseries: RepeatedField::from(timeseries),
+                unknown_fields: Default::default(),
+                cached_size: Default::default(),
+            });
+        }
         Ok(ReadResponse {
-            results: RepeatedField::from(
-                read_rq
-                    .queries
-                    .iter()
-                    .map(|q| {
-                        self.db
-                            .query(
-                                Labels::from_vec(
-                                    q.matchers
-                                        .iter()
-                                        .map(Label::from_label_matcher)
-                                        .collect::<Vec<Label>>(),
-                                ),
-                                q.start_timestamp_ms.max(0) as Timestamp,
-                                q.end_timestamp_ms.max(0) as Timestamp,
-                            )
-                            .ok()
-                            .unwrap_or(Vec::new())
-                            .iter()
-                            .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
-                    })
-                    .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
-                        QueryResult {
-                            timeseries: RepeatedField::from(v),
-                            unknown_fields: Default::default(),
-                            cached_size: Default::default(),
-                        }
-                    })
-                    .collect::<Vec<crate::proto::QueryResult>>(),
-            ),
+            results: RepeatedField::from(results),
             unknown_fields: Default::default(),
             cached_size: Default::default(),
         })
     }
 
+    /// Labels that a series must have in order to satisfy the matchers.
+    ///
+    /// Only matchers that ask for equality with a value are supported.
+    fn labels_to_match(matchers: &[LabelMatcher]) -> Result<Labels> {
+        for matcher in matchers {
+            // an empty value matches series without that label
+            if matcher.field_type != LabelMatcher_Type::EQ || matcher.value.is_empty() {
+                return Err(MonolithErr::InternalErr(format!(
+                    "unsupported matcher for label {}",
+                    matcher.name
+                )));
+            }
+        }
+        Ok(Labels::from_vec(
+            matchers.iter().map(Label::from_label_matcher).collect(),
+        ))
+    }
+
     pub fn write(&self, write_rq: WriteRequest) -> Result<()> {
         for time_series in write_rq.timeseries.to_vec() {
             let _ts: TimeSeries = TimeSeries::from(&time_series);
-- 
2.43.0


From 688a9660df8edff11ae4a49550d8626bfc085645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 31/34] fix: messages that end too early were taken for
 complete ones

---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 02251fa..b74306d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -86,8 +86,15 @@ where
                 return;
             }
         };
+        let content_len = _content.len() as u64;
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
+        // without it, messages that end too early are taken for complete ones
+        if let Err(err) = input_stream.push_limit(content_len) {
+            error!("Cannot read request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
 
         //triage the request
         match (request.method(), request.url()) {
-- 
2.43.0


From 4e4d3ea1ffa9376a6abea07aa138fbbf05e9e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 32/34] fix: take the documented key pd_endpoint for the
 endpoints of the TiKV cluster

---
 src/backend/tikv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 43fb05f..ec203cc 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -114,7 +114,7 @@ impl Default for TiKvRawBackendSingleton {
 
 #[derive(Debug, Serialize, Deserialize)]
 pub struct TiKvBackendConfigFile {
-    #[serde(default)]
+    #[serde(default, alias = "pd_endpoint")]
     pd_endpoints: Vec<String>,
     //yaml: pd_endpoints
     #[serde(default)]
-- 
2.43.0


From 1db846837ca387a979ebdcbadcbe42bcbcb7ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 33/34] fix: a log segment reserves memory for its limit, and
 more than there is for a large one

---
 src/wal/segment.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 0ee9b47..1617b99 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -8,8 +8,6 @@ use std::sync::{Arc, Mutex};
 
 type FileMutex = Arc<Mutex<File>>;
 
-const AVG_NUM_BYTES_IN_ENTRY: usize = 8;
-
 /// Segment is one write ahead file
 ///
 /// Segment is **NOT** concurrent-safe.
@@ -41,14 +39,12 @@ impl<W: Write> Write for Segment<W> {
                 std::mem::replace(&mut *cache.lock().unwrap(), vec![])
             }
             &mut FlushCache::SizeBased {
-                ref limit,
                 ref mut cache,
                 ref mut size,
+                ..
             } => {
                 *size = 0;
-                let _cache = cache.clone();
-                *cache = Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY);
-                _cache
+                std::mem::replace(cache, vec![])
             }
         };
 
@@ -85,12 +81,12 @@ impl<W> Segment<W>
                 FlushPolicy::NumBased(limit) => FlushCache::NumBased {
                     limit,
                     idx: 0,
-                    cache: Vec::with_capacity(limit),
+                    cache: vec![],
                 },
                 FlushPolicy::SizeBased(limit) => FlushCache::SizeBased {
                     limit,
                     size: 0,
-                    cache: Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY),
+                    cache: vec![],
                 },
             },
             crc: crc::crc64::Digest::new(crc::crc64::ECMA),
-- 
2.43.0


From 3495df61b76eb9e63192a356b0c3ca4e661e02f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:45 +0000
Subject: [PATCH 34/34] fix: names that no chunk has, with a sign or leading
 zeros, were taken for a chunk's

---
 src/common/utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index e13971f..3f3059b 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -38,6 +38,13 @@ pub fn decode_chunk_dir(dir_name: String) -> Result<(Timestamp, Timestamp)> {
     let end_time: u64 = (decimal & (u64::max_value() as u128)) as u64;
     let start_time: u64 = ((decimal & (u128::max_value() - u64::max_value() as u128)) >> 64) as u64;
 
+    // numbers can be written in other ways than chunks are named, with a sign for one
+    if encode_chunk_dir(start_time, end_time) != dir_name {
+        return Err(MonolithErr::InternalErr(format!(
+            "{} is not the name of a chunk",
+            dir_name
+        )));
+    }
     Ok((start_time, end_time))
 }
 
-- 
2.43.0

