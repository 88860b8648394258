From 1268e208aa579a6f1031206df387b1bc536bbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 01/48] verif: hooks for model-based checks, guarded by --cfg
 monolith_verif

---
 src/chunk/chunk.rs  |   4 +
 src/common/mod.rs   |   4 +
 src/common/utils.rs |   3 +
 src/db.rs           |  10 +-
 src/lib.rs          |   2 +
 src/verif.rs        | 227 ++++++++++++++++++++++++++++++++++++++++++++
 src/wal/mod.rs      |   2 +
 7 files changed, 250 insertions(+), 2 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..17877f0 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -10,8 +10,12 @@ use crate::MonolithErr::OutOfRangeErr;
 
 use crate::indexer::Indexer;
 use std::path::{Path, PathBuf};
+#[cfg(not(monolith_verif))]
 use std::sync::atomic::{AtomicBool, Ordering};
+#[cfg(not(monolith_verif))]
 use std::sync::RwLock;
+#[cfg(monolith_verif)]
+use crate::verif::sync::{atomic::{AtomicBool, Ordering}, RwLock};
 
 use serde::{Deserialize, Serialize};
 use std::fs;
diff --git a/src/common/mod.rs b/src/common/mod.rs
index c41537f..d303d8d 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -5,8 +5,12 @@ use crate::common::time_series::TimeSeriesId;
 use crate::Result;
 use std::ops::Index;
 use std::path::Path;
+#[cfg(not(monolith_verif))]
 use std::sync::atomic::AtomicU64;
+#[cfg(not(monolith_verif))]
 use std::sync::atomic::Ordering;
+#[cfg(monolith_verif)]
+use crate::verif::sync::atomic::{AtomicU64, Ordering};
 
 pub mod label;
 pub mod metadata;
diff --git a/src/common/utils.rs b/src/common/utils.rs
index 9f9c33e..b9e35ec 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -5,7 +5,10 @@ use std::fs::File;
 use std::ops::Index;
 use std::path::Path;
 use std::sync::mpsc::{channel, Receiver, Sender, TryRecvError};
+#[cfg(not(monolith_verif))]
 use std::time::{SystemTime, UNIX_EPOCH};
+#[cfg(monolith_verif)]
+use crate::verif::time::{SystemTime, UNIX_EPOCH};
 use std::{fs, thread};
 
 pub fn is_duration_overlap(
diff --git a/src/db.rs b/src/db.rs
index 5208abb..2fd8cf0 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,9 +1,15 @@
 use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::channel;
-use std::sync::{Arc, RwLock};
+use std::fs;
+use std::sync::Arc;
+#[cfg(not(monolith_verif))]
+use std::sync::RwLock;
+#[cfg(not(monolith_verif))]
+use std::thread;
 use std::time::Duration;
-use std::{fs, thread};
+#[cfg(monolith_verif)]
+use crate::verif::{sync::RwLock, thread};
 
 use crate::chunk::{Chunk, ChunkOpts};
 use crate::common::label::Labels;
diff --git a/src/lib.rs b/src/lib.rs
index da5fcba..e6ae0ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,8 @@ pub mod db;
 pub mod server;
 pub mod indexer;
 pub mod storage;
+#[cfg(monolith_verif)]
+pub mod verif;
 
 
 /// Generated proto definition
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..721bc7f
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,227 @@
+//! Hooks for the model-based checks. Compiled only with `--cfg monolith_verif`.
+//!
+//! * a virtual clock (`set_clock`), seen by `time::SystemTime` and `thread::sleep`;
+//! * scheduling points (`set_scheduler`) at lock acquisitions and atomic operations;
+//! * access to the private write ahead log.
+//!
+//! With no clock and no scheduler installed everything behaves as in `std`.
+
+use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
+use std::sync::{Arc, Mutex};
+
+static CLOCK: AtomicU64 = AtomicU64::new(0); // milliseconds since epoch, 0: real clock
+static SLEEPING: AtomicUsize = AtomicUsize::new(0);
+static WOKEN: AtomicUsize = AtomicUsize::new(0);
+
+/// Set the virtual clock, in milliseconds since epoch.
+pub fn set_clock(millis: u64) {
+    CLOCK.store(millis, SeqCst)
+}
+
+pub fn clock() -> u64 {
+    CLOCK.load(SeqCst)
+}
+
+/// Number of threads that currently wait for the virtual clock, and how often one was woken.
+pub fn sleepers() -> (usize, usize) {
+    (SLEEPING.load(SeqCst), WOKEN.load(SeqCst))
+}
+
+/// What a thread is about to do when it reaches a scheduling point.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Point {
+    Read,
+    Write,
+    Atomic,
+    /// the lock could not be taken; the thread tries again when it is scheduled next.
+    Blocked,
+}
+
+type Scheduler = Arc<dyn Fn(Point) -> bool + Send + Sync>;
+static SCHEDULER: Mutex<Option<Scheduler>> = Mutex::new(None);
+
+/// Install a scheduler. It is called at every scheduling point and returns whether it controls the calling thread.
+pub fn set_scheduler(scheduler: Option<Scheduler>) {
+    *SCHEDULER.lock().unwrap() = scheduler
+}
+
+fn point(p: Point) -> bool {
+    let scheduler = SCHEDULER.lock().unwrap().clone();
+    match scheduler {
+        Some(s) => s(p),
+        None => false,
+    }
+}
+
+pub mod time {
+    pub use std::time::*;
+
+    pub struct SystemTime;
+
+    impl SystemTime {
+        pub fn now() -> std::time::SystemTime {
+            match super::clock() {
+                0 => std::time::SystemTime::now(),
+                millis => UNIX_EPOCH + Duration::from_millis(millis),
+            }
+        }
+    }
+}
+
+pub mod thread {
+    pub use std::thread::*;
+    use std::time::Duration;
+
+    pub fn sleep(dur: Duration) {
+        use super::{clock, SLEEPING, WOKEN};
+        use std::sync::atomic::Ordering::SeqCst;
+        if clock() == 0 {
+            return std::thread::sleep(dur);
+        }
+        let deadline = clock() + dur.as_millis() as u64;
+        SLEEPING.fetch_add(1, SeqCst);
+        while clock() < deadline {
+            std::thread::sleep(Duration::from_micros(200));
+        }
+        WOKEN.fetch_add(1, SeqCst);
+        SLEEPING.fetch_sub(1, SeqCst);
+    }
+}
+
+pub mod sync {
+    use super::{point, Point};
+    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+    use std::sync::{LockResult, RwLockReadGuard, RwLockWriteGuard, TryLockError};
+
+    /// `std::sync::RwLock` with scheduling points. Like the original one it prefers writers: while a writer waits, no
+    /// new reader gets in.
+    #[derive(Debug, Default)]
+    pub struct RwLock<T> {
+        inner: std::sync::RwLock<T>,
+        writers_waiting: AtomicUsize,
+    }
+
+    impl<T> RwLock<T> {
+        pub fn new(t: T) -> Self {
+            RwLock {
+                inner: std::sync::RwLock::new(t),
+                writers_waiting: AtomicUsize::new(0),
+            }
+        }
+
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            if !point(Point::Read) {
+                return self.inner.read();
+            }
+            loop {
+                if self.writers_waiting.load(SeqCst) == 0 {
+                    match self.inner.try_read() {
+                        Ok(guard) => return Ok(guard),
+                        Err(TryLockError::Poisoned(e)) => return Err(e),
+                        Err(TryLockError::WouldBlock) => {}
+                    }
+                }
+                if !point(Point::Blocked) {
+                    return self.inner.read();
+                }
+            }
+        }
+
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            if !point(Point::Write) {
+                return self.inner.write();
+            }
+            let mut waiting = false;
+            let res = loop {
+                match self.inner.try_write() {
+                    Ok(guard) => break Ok(guard),
+                    Err(TryLockError::Poisoned(e)) => break Err(e),
+                    Err(TryLockError::WouldBlock) => {}
+                }
+                if !waiting {
+                    waiting = true;
+                    self.writers_waiting.fetch_add(1, SeqCst);
+                }
+                if !point(Point::Blocked) {
+                    break self.inner.write();
+                }
+            };
+            if waiting {
+                self.writers_waiting.fetch_sub(1, SeqCst);
+            }
+            res
+        }
+    }
+
+    pub mod atomic {
+        use super::{point, Point};
+        pub use std::sync::atomic::Ordering;
+
+        macro_rules! atomic {
+            ($name:ident, $t:ty) => {
+                /// The atomic of the same name in `std` with scheduling points.
+                #[derive(Debug, Default)]
+                pub struct $name(std::sync::atomic::$name);
+
+                impl $name {
+                    pub fn new(v: $t) -> Self {
+                        $name(std::sync::atomic::$name::new(v))
+                    }
+                    pub fn load(&self, order: Ordering) -> $t {
+                        point(Point::Atomic);
+                        self.0.load(order)
+                    }
+                    pub fn store(&self, v: $t, order: Ordering) {
+                        point(Point::Atomic);
+                        self.0.store(v, order)
+                    }
+                    pub fn swap(&self, v: $t, order: Ordering) -> $t {
+                        point(Point::Atomic);
+                        self.0.swap(v, order)
+                    }
+                    pub fn compare_exchange(
+                        &self,
+                        old: $t,
+                        new: $t,
+                        ok: Ordering,
+                        err: Ordering,
+                    ) -> Result<$t, $t> {
+                        point(Point::Atomic);
+                        self.0.compare_exchange(old, new, ok, err)
+                    }
+                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
+                        &self,
+                        set: Ordering,
+                        fetch: Ordering,
+                        f: F,
+                    ) -> Result<$t, $t> {
+                        point(Point::Atomic);
+                        self.0.fetch_update(set, fetch, f)
+                    }
+                }
+            };
+        }
+        atomic!(AtomicU64, u64);
+        atomic!(AtomicBool, bool);
+
+        impl AtomicU64 {
+            pub fn fetch_add(&self, v: u64, order: Ordering) -> u64 {
+                point(Point::Atomic);
+                self.0.fetch_add(v, order)
+            }
+            pub fn fetch_sub(&self, v: u64, order: Ordering) -> u64 {
+                point(Point::Atomic);
+                self.0.fetch_sub(v, order)
+            }
+            pub fn fetch_max(&self, v: u64, order: Ordering) -> u64 {
+                point(Point::Atomic);
+                self.0.fetch_max(v, order)
+            }
+        }
+    }
+}
+
+/// The write ahead log is private to the crate.
+pub mod wal {
+    pub use crate::wal::{Entry, EntryType, FlushPolicy, Segment};
+}
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..aa77bd7 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -3,6 +3,8 @@ use std::path::PathBuf;
 use std::sync::{Arc, Mutex};
 
 mod segment;
+#[cfg(monolith_verif)]
+pub use segment::Segment;
 mod writer;
 
 /// Note that we only use the first three byte in this magic number
-- 
2.43.0


From 0ed722fb4c508fdefce5198234cb029b12ea353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 02/48] fix: label sets where one is a prefix of the other are
 not equal

---
 src/common/label.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..771601f 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,12 +98,7 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
-        for i in 0..self.len() {
-            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
-                return false;
-            }
-        }
-        true
+        self.0 == other.0
     }
 }
 
-- 
2.43.0


From 82e9330a589d870a0cfb6654f48a0a2af4ac9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 03/48] fix: hold the read lock of the chunk during a query

---
 src/chunk/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 17877f0..480efb9 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -146,7 +146,8 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimeSeries>> {
-        self.mutex
+        let _m = self
+            .mutex
             .read()
             .expect("Poisoned mutex when try to read from chunk");
         if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {
-- 
2.43.0


From ab1e70f83c22789808dc8276dd4b51de2d0d5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 04/48] fix: a series without time points in the window no
 longer fails the query of its chunk

---
 src/chunk/chunk.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 480efb9..1903122 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -157,7 +157,11 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                // no time point of this series in the window, other series may have some
+                Err(OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => continue,
+                res => res?,
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From bfa2a98bf4c12834f4a4fb93d968dcdfb44be056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 05/48] fix: report a failed write to an existing series

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 1903122..7f2551a 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -134,7 +134,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
-- 
2.43.0


From f075c89c1a98ee8529d9add2ec66814b3297a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 06/48] fix: accept time points on the boundaries of the chunk,
 as write_time_points expects

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 7f2551a..b4c75bc 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -180,7 +180,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
     }
 
     fn is_in_range(&self, timestamp: &Timestamp) -> bool {
-        return self.start_time < *timestamp && self.end_time > *timestamp;
+        return self.start_time <= *timestamp && self.end_time >= *timestamp;
     }
 }
 
-- 
2.43.0


From ee2725c0dff48cad43198d9c4c52c91cbc65f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 07/48] fix: refuse writes to a closed chunk

---
 src/chunk/chunk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index b4c75bc..8138fcb 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -116,6 +116,9 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
             .mutex
             .write()
             .expect("Poisoned mutex when try to insert into chunk");
+        if self.is_closed() {
+            return Err(MonolithErr::InternalErr("Chunk is closed".to_string()));
+        }
         if !self.is_in_range(&timepoint.timestamp) {
             info!(
                 "Chunk range {}, {}; but trying to insert {}",
-- 
2.43.0


From 0804b1bea84dacdd70d40256767c51540265f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 08/48] fix: a label that no series carries matches no series

---
 src/indexer/sled_indexer.rs | 5 +++--
 src/indexer/tikv_indexer.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..be0a15c 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -87,8 +87,9 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                None => return Ok(Vec::new()), // no series has this label
             }
         }
 
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..f4ca10d 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -82,8 +82,8 @@ impl Indexer for TiKvIndexer {
             .map(|key| self.client.get(key)) //todo: error handling
             .filter(|res| res.is_ok())
             .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
+            // a label that no series has matches no series
+            .map(|res| res.unwrap_or(Vec::new()))
             .collect::<Vec<Vec<u8>>>();
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
-- 
2.43.0


From 740f5c86d9adab1f9995ab0e8f6b5993ffee1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 09/48] fix: label values may contain the separator of the
 index

---
 src/indexer/sled_indexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index be0a15c..47d0db3 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -256,7 +256,9 @@ pub(crate) struct KvIndexerProcessor {}
 
 impl KvIndexerProcessor {
     fn _encode_label(label: &Label) -> String {
-        format!("{}={}", label.key(), label.value())
+        // , separates labels, so it cannot be part of a value
+        let value = label.value().replace('%', "%25").replace(',', "%2C");
+        format!("{}={}", label.key(), value)
     }
 
     /// encode single label as key
@@ -311,7 +313,7 @@ impl KvIndexerProcessor {
             let value = {
                 let mut s = String::from(value_with_equal);
                 s.remove(0);
-                s
+                s.replace("%2C", ",").replace("%25", "%")
             };
             let label = Label::from_key_value(key, value.as_str());
             res.push(label)
-- 
2.43.0


From 4aa420ecfec9051b8b12e08caa5a0fada43edda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 10/48] fix: keys of label sets never coincide with keys of the
 reverse index

---
 src/indexer/sled_indexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 47d0db3..6bfd435 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -286,6 +286,10 @@ impl KvIndexerProcessor {
         }
         res.pop(); //remove last ,
         if with_prefix {
+            if format!("{}{}", LABEL_PREFIX, res).starts_with(LABEL_REVERSE_PREFIX) {
+                // without separator this would be the key of a reverse index
+                res.insert(0, ',');
+            }
             res.insert_str(0, LABEL_PREFIX);
         }
         res
@@ -300,7 +304,7 @@ impl KvIndexerProcessor {
         if is_key {
             _labels_str.replace_range(..LABEL_PREFIX.len(), "");
         }
-        let pairs: Vec<&str> = _labels_str.split(",").collect();
+        let pairs: Vec<&str> = _labels_str.trim_start_matches(',').split(",").collect();
         let mut res = Vec::new();
         for pair in pairs {
             // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
-- 
2.43.0


From 2671a83d03766fa582157fda48bac6913b24f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 11/48] fix: keep series sorted and free of duplicates in sled
 storage

---
 src/storage/sled_storage.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..8428ccd 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -66,11 +66,21 @@ impl Storage for SledStorage {
     ) -> Result<()> {
         let tree: &Tree = &self.storage;
         let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);
-        let mut value = KvStorageProcessor::encode_time_point(timestamp, value)?;
+        let value = KvStorageProcessor::encode_time_point(timestamp, value)?;
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
-            current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            // keep the series sorted by timestamp, a time point written again replaces the previous one
+            let timestamp_bytes = &value[..std::mem::size_of::<Timestamp>()];
+            let mut idx = current_val_bytes.len();
+            while idx > 0 && &current_val_bytes[idx - value.len()..][..timestamp_bytes.len()] > timestamp_bytes {
+                idx -= value.len();
+            }
+            let end = idx;
+            if idx > 0 && current_val_bytes[idx - value.len()..].starts_with(timestamp_bytes) {
+                idx -= value.len();
+            }
+            current_val_bytes.splice(idx..end, value);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
-- 
2.43.0


From eaa4b4ac662fc38e68ec5704f5c6e5e87e4f7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 12/48] fix: windows without time points are answered with an
 empty series

---
 src/storage/common.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..2ba21bc 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -40,10 +40,13 @@ pub trait Storage: Sized + HasTypeName {
             Err(idx) => idx,
         };
         let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
+            Ok(idx) => idx + 1,
+            Err(idx) => idx,
         };
-        let res = &series[left..=right];
+        if left >= right {
+            return Ok(Vec::new());
+        }
+        let res = &series[left..right];
         Ok(Vec::from(res))
     }
 }
-- 
2.43.0


From 4961aa7f86180fded6ac404014064ff9bba72cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 13/48] fix: a query never sees a chunk twice while it is
 rotated

---
 src/db.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 2fd8cf0..ed5f1c4 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -213,10 +213,13 @@ where
     ) -> Result<LabelPointPairs> {
         let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
         let res_ref = &mut res;
+        // lock both, so that no chunk moves from one to the other meanwhile
+        let current = self.current_chuck.read().unwrap();
+        let secondary = self.secondary_chunks.read().unwrap();
         //insert in reverse time order in order to quickly append vec
         {
             //check current chunk
-            let _c = &self.current_chuck.read().unwrap();
+            let _c = &current;
             let _res = _c.query(labels.clone(), start_time, end_time);
             if _res.is_ok() {
                 for ref t in _res.unwrap() {
@@ -230,7 +233,7 @@ where
         };
         {
             //chuck previous chunk, normally users query more on recent data, so we go backwards
-            let chunks = &self.secondary_chunks.read().unwrap();
+            let chunks = &secondary;
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
                     let _res = _c.query(labels.clone(), start_time, end_time);
@@ -309,12 +312,9 @@ where
         );
 
         let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
-        {
-            let stale = self.current_chuck.read().unwrap();
-            self.secondary_chunks.write().unwrap().push(stale.clone());
-        }
         {
             let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
+            self.secondary_chunks.write().unwrap().push(current.clone());
             let (_, end_time) = current.start_end_time();
             info!("The old chunk with end time {} is closing", end_time);
             current.close(); //close the stale one
-- 
2.43.0


From 84843729af15f19aa5dc5be4b043524aa5c7076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 14/48] fix: a query that failed in one of the chunks is not
 answered with part of the data

---
 src/db.rs     | 13 +++++++++++--
 src/server.rs | 20 ++++++++++----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index ed5f1c4..145cce8 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -211,6 +211,13 @@ where
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<LabelPointPairs> {
+        // only a chunk that has no data in the window may be left out
+        fn is_out_of_range<T>(res: &Result<T>) -> bool {
+            match res {
+                Err(MonolithErr::OutOfRangeErr(_, _)) => true,
+                _ => false,
+            }
+        }
         let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
         let res_ref = &mut res;
         // lock both, so that no chunk moves from one to the other meanwhile
@@ -228,7 +235,8 @@ where
                         t.time_points().clone().into_iter().rev().collect(),
                     );
                 }
-            } else {
+            } else if !is_out_of_range(&_res) {
+                return Err(_res.err().unwrap());
             }
         };
         {
@@ -254,7 +262,8 @@ where
                                 }
                             };
                         }
-                    } else {
+                    } else if !is_out_of_range(&_res) {
+                        return Err(_res.err().unwrap());
                     }
                 };
             }
diff --git a/src/server.rs b/src/server.rs
index 45f924a..c42c987 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -148,20 +148,20 @@ where
                                 q.start_timestamp_ms as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
                             )
-                            .ok()
-                            .unwrap_or(Vec::new())
-                            .iter()
-                            .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
+                            .map(|res| {
+                                res.iter()
+                                    .map(crate::proto::TimeSeries::from)
+                                    .collect::<Vec<crate::proto::TimeSeries>>()
+                            })
                     })
-                    .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
-                        QueryResult {
-                            timeseries: RepeatedField::from(v),
+                    .map(|res: Result<Vec<crate::proto::TimeSeries>>| -> Result<QueryResult> {
+                        Ok(QueryResult {
+                            timeseries: RepeatedField::from(res?),
                             unknown_fields: Default::default(),
                             cached_size: Default::default(),
-                        }
+                        })
                     })
-                    .collect::<Vec<crate::proto::QueryResult>>(),
+                    .collect::<Result<Vec<crate::proto::QueryResult>>>()?,
             ),
             unknown_fields: Default::default(),
             cached_size: Default::default(),
-- 
2.43.0


From fa54e0b8859af8df03091172657cf295e907b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 15/48] fix: time points dated after a restart stay visible

---
 src/db.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 145cce8..81c9e5f 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -150,14 +150,9 @@ where
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
-                    let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
-                    // reset end time is necessary
-                    chunk_opts.end_time = Some(if end_time > current_time {
-                        current_time
-                    } else {
-                        end_time
-                    });
+                    // may be later than now, as may be the time points in it
+                    chunk_opts.end_time = Some(end_time);
 
                     let storage = storage_builder
                         .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
@@ -268,6 +263,12 @@ where
                 };
             }
         }
+        // Chunks opened after a restart may overlap with previous ones. If a timestamp is in more than one chunk, the
+        // time point in the most recent one, which comes first, is kept.
+        for points in res.values_mut() {
+            points.sort_by(|a, b| b.timestamp.cmp(&a.timestamp));
+            points.dedup_by_key(|tp| tp.timestamp);
+        }
         //reverse time again before return
         let res_vec: Vec<(Labels, Vec<TimePoint>)> = res
             .keys()
-- 
2.43.0


From 73aa12f9b49579eea4bc4931aaac2e25475029fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 16/48] fix: find existing chunks in base directories with any
 name

---
 src/db.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 81c9e5f..b4ee3ac 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::sync::mpsc::channel;
 use std::fs;
 use std::sync::Arc;
@@ -137,18 +137,12 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = entry?.path().into_os_string().into_string().unwrap();
-            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let entry = entry?;
+            let path = entry.path();
+            let dir_name = entry.file_name().to_string_lossy().to_string();
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
                     chunk_opts.start_time = Some(start_time);
                     // may be later than now, as may be the time points in it
-- 
2.43.0


From 20ec58c08eb7429c744f9fbb68ac3ab89edfccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 17/48] fix: a chunk that was not created completely does not
 prevent reopening

---
 src/db.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index b4ee3ac..7493e38 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -143,7 +143,14 @@ where
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
+                    // It is written before any data, thus there is nothing to lose if it is not there
+                    let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
+                        Ok(chunk_opts) => chunk_opts,
+                        Err(err) => {
+                            error!("{} is not a complete chunk, {}", path.display(), err);
+                            continue;
+                        }
+                    };
                     chunk_opts.start_time = Some(start_time);
                     // may be later than now, as may be the time points in it
                     chunk_opts.end_time = Some(end_time);
-- 
2.43.0


From 01e34426b7716511c3299cbc2e4164b6beb813ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 18/48] fix: write the metadata of the database atomically

---
 src/db.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 7493e38..859072a 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -22,7 +22,7 @@ use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -121,9 +121,12 @@ where
                 return Err(MonolithErr::OptionErr);
             }
         } else {
-            let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            // never leave a partial file behind
+            let temp_file = base_dir.join(format!("{}.tmp", DB_METADATA_FILENAME));
+            let mut writer = BufWriter::new(File::create(&temp_file)?);
+            serde_json::to_writer(&mut writer, db_metadata)?;
+            writer.flush()?;
+            fs::rename(&temp_file, base_dir.join(DB_METADATA_FILENAME))?;
         }
 
         Ok(())
-- 
2.43.0


From 188a85c940253eaaaa2e3436dc80d00073a211d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 19/48] fix: report backend failures during an index lookup

---
 src/indexer/tikv_indexer.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index f4ca10d..80e9ea6 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -33,7 +33,7 @@ impl Indexer for TiKvIndexer {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
         //todo: refactor this.
-        Ok(ids
+        let res = ids
             .iter()
             // Convert into keys
             .map(|id| {
@@ -47,11 +47,10 @@ impl Indexer for TiKvIndexer {
                 )
             })
             // Get raw value from db store
-            .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
+            .map(|(id, key)| Ok((id, self.client.get(key)?)))
+            .collect::<Result<Vec<(TimeSeriesId, Option<Vec<u8>>)>>>()?;
+        Ok(res
+            .into_iter()
             // Choose the one with value
             .filter(|(_id, option)| option.is_some())
             // Unwrap value
@@ -79,12 +78,9 @@ impl Indexer for TiKvIndexer {
                         .as_mut(),
                 )
             })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
             // a label that no series has matches no series
-            .map(|res| res.unwrap_or(Vec::new()))
-            .collect::<Vec<Vec<u8>>>();
+            .map(|key| Ok(self.client.get(key)?.unwrap_or(Vec::new())))
+            .collect::<Result<Vec<Vec<u8>>>>()?;
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
         for val in query_res {
-- 
2.43.0


From bb1864647530b0415fc5e5df7968cfc93c5621f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 20/48] fix: report backend failures when a series is created,
 and allow to repeat it

---
 src/indexer/tikv_indexer.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 80e9ea6..fa8a51b 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -118,16 +118,7 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
-        }
-
-        {
-            //Create map between full label set to time series id
-            let key = KvIndexerProcessor::encode_labels(&labels, true);
-            self.client.set(
-                self.add_indexer_id(key.into_bytes().as_mut()),
-                Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
+            )?;
         }
 
         {
@@ -142,19 +133,27 @@ impl Indexer for TiKvIndexer {
                             .as_mut(),
                     )
                 })
-                .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
+                .map(|key| match self.client.get(key.to_vec())? {
                     Some(mut val) => {
                         val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
+                        self.client.set(key.clone(), val)
                     }
                     None => {
                         self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
+                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]))
                     }
                 })
-                .collect::<Vec<()>>();
+                .collect::<Result<Vec<()>>>()?;
+        }
+
+        // Last, because a series with this mapping is taken to be complete
+        {
+            //Create map between full label set to time series id
+            let key = KvIndexerProcessor::encode_labels(&labels, true);
+            self.client.set(
+                self.add_indexer_id(key.into_bytes().as_mut()),
+                Vec::from(&time_series_id.to_be_bytes()[..]),
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From 02740763d5aa497783798b5b16bed80402f2a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 21/48] fix: give every component on a shared backend its own
 identifier and remember it

---
 src/backend/tikv.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..43fb05f 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,17 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.append(value[16..].to_vec().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
             let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            res.append(value[..16].to_vec().as_mut());
+            res.append(storage_id.clone().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From 4bc1f62888ddf437841cb0fa0bc204a2208531c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 22/48] fix: a request that cannot be decompressed does not
 stop the server

---
 src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index c42c987..d9ed302 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -65,9 +65,20 @@ where
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot receive request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(_content) => _content,
+            Err(err) => {
+                error!("Cannot decompress request, {}", err);
+                request.respond(Response::empty(400));
+                return;
+            }
+        };
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
 
-- 
2.43.0


From 8c27bf405a5361307338abae8fe3c483f5e0dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 23/48] fix: a write request that cannot be decoded is refused

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index d9ed302..2a74ba1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -124,7 +124,11 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
+                if let Err(err) = write_req.merge_from(&mut input_stream) {
+                    error!("Cannot read content from write request {}", err);
+                    request.respond(Response::empty(400));
+                    return;
+                }
                 match server.write(write_req) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
-- 
2.43.0


From adb82567bc7fbe9bc390f15c2c511768afb0755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 24/48] fix: windows that begin before the epoch begin at the
 epoch

---
 src/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2a74ba1..5000817 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -160,8 +160,8 @@ where
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
-                                q.end_timestamp_ms as Timestamp,
+                                q.start_timestamp_ms.max(0) as Timestamp,
+                                q.end_timestamp_ms.max(0) as Timestamp,
                             )
                             .map(|res| {
                                 res.iter()
-- 
2.43.0


From 2f31de3ecbfd75152bfdb00666b5f51aef1e4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 25/48] fix: no overflow when choosing the size of a delta of
 delta

---
 src/compaction/gorilla.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 90cbc1b..1fd576c 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -393,7 +393,7 @@ fn vec_with_len(len: usize) -> Vec<u8> {
 
 // Find if the timestamp's meaningful in the `nbit` range.
 fn in_bit_range(t: i64, nbits: u8) -> bool {
-    return -((1 << (nbits - 1)) - 1) as i64 <= t && t <= 1 << (nbits - 1) as i64;
+    return -((1i64 << (nbits - 1)) - 1) <= t && t <= 1i64 << (nbits - 1);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 89805ec508066dedf00a07c96855e4e1245b72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 26/48] fix: decompress a delta of delta at the upper end of
 its range

---
 src/compaction/gorilla.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 1fd576c..b306f53 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -244,13 +244,13 @@ impl GorillaDecompactor {
         }
         match range {
             8 => {
-                self.d = i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                self.d += from_bit_range(u8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64, 8);
             }
             16 => {
-                self.d = i16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                self.d += from_bit_range(u16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64, 16);
             }
             32 => {
-                self.d = i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                self.d += from_bit_range(u32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64, 32);
             }
             64 => {
                 self.d = i64::from_be_bytes(bytes.as_slice().try_into().unwrap()) + self.d;
@@ -396,6 +396,15 @@ fn in_bit_range(t: i64, nbits: u8) -> bool {
     return -((1i64 << (nbits - 1)) - 1) <= t && t <= 1i64 << (nbits - 1);
 }
 
+// Inverse of `in_bit_range`: the range of `nbit` is [-(2^(nbits-1) - 1), 2^(nbits-1)]
+fn from_bit_range(bits: i64, nbits: u8) -> i64 {
+    if bits > 1i64 << (nbits - 1) {
+        bits - (1i64 << nbits)
+    } else {
+        bits
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::common::time_point::TimePoint;
-- 
2.43.0


From 879faf69c4ce96f754d848eec7661e081ce3800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 27/48] fix: compress and decompress jumps of any size between
 timestamps

---
 src/compaction/gorilla.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index b306f53..5cd8e8f 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -58,7 +58,8 @@ impl GorillaCompactor {
             self.d = t_delta;
         } else {
             let t_delta: i64 = (tp.timestamp - self.t) as i64;
-            let dod = t_delta - self.d;
+            // deltas may be larger than i64, in which case they wrap, as they do when decompacting
+            let dod = t_delta.wrapping_sub(self.d);
 
             self.d = t_delta;
 
@@ -244,22 +245,25 @@ impl GorillaDecompactor {
         }
         match range {
             8 => {
-                self.d += from_bit_range(u8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64, 8);
+                let dod = u8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = self.d.wrapping_add(from_bit_range(dod, 8));
             }
             16 => {
-                self.d += from_bit_range(u16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64, 16);
+                let dod = u16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = self.d.wrapping_add(from_bit_range(dod, 16));
             }
             32 => {
-                self.d += from_bit_range(u32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64, 32);
+                let dod = u32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = self.d.wrapping_add(from_bit_range(dod, 32));
             }
             64 => {
-                self.d = i64::from_be_bytes(bytes.as_slice().try_into().unwrap()) + self.d;
+                self.d = i64::from_be_bytes(bytes.as_slice().try_into().unwrap()).wrapping_add(self.d);
             }
             _ => {
                 // should never been here.
             }
         }
-        let timestamp = self.t + self.d as u64;
+        let timestamp = self.t.wrapping_add(self.d as u64);
         Some(timestamp)
     }
 }
@@ -302,7 +306,7 @@ impl Iterator for GorillaDecompactor {
             }
 
             let delta = i64::from_be_bytes(delta_v.as_slice().try_into().unwrap());
-            let timestamp = delta + self.t as i64;
+            let timestamp = delta.wrapping_add(self.t as i64);
 
             self.d = delta;
             self.t = timestamp as u64;
@@ -325,7 +329,7 @@ impl Iterator for GorillaDecompactor {
             let mut timestamp = 0;
             if dod_flag_byte & 0b10000000 == 0 {
                 // dod == 0
-                timestamp = self.t + self.d as u64;
+                timestamp = self.t.wrapping_add(self.d as u64);
                 self.source
                     .reset_cursor(self.source.get_cursor() + (4 - l) - 3);
             } else if dod_flag_byte & 0b11000000 == 0b10000000 {
-- 
2.43.0


From 17e66900ec8df9c06db3fea41bef00c7d3649451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 28/48] fix: compress values that differ in the lower half only

---
 src/compaction/gorilla.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 5cd8e8f..f73faa7 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -102,7 +102,8 @@ impl GorillaCompactor {
             } else {
                 // single one bit
                 self.bstream.write_one();
-                let leading: u8 = xord.leading_zeros() as u8;
+                // there are 5 bits to store it
+                let leading: u8 = (xord.leading_zeros() as u8).min(31);
                 let trailing: u8 = xord.trailing_zeros() as u8;
                 if self.len > 1 && leading >= self.leading && trailing >= self.tailing {
                     self.bstream.write_zero(); // write 10
-- 
2.43.0


From 2f184b1363cf80defddf0f41c6420a2601b67522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 29/48] fix: decompress values that differ in the first and the
 last bit

---
 src/compaction/gorilla.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index f73faa7..9c96d34 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -210,7 +210,10 @@ impl GorillaDecompactor {
             if l != 6 {
                 return None;
             }
-            let sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            let sig_len = match sigbits_len[0] >> 2 {
+                0 => 64, // does not fit into the 6 bits, and there is always at least one
+                sig_len => sig_len,
+            };
 
             let tailing = value_size as u8 - sig_len - leading;
 
-- 
2.43.0


From 8e86e6ac0b5733cbf92b85009424da19d1b6b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 30/48] fix: store and read uncompressed series

---
 src/compaction/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index b3b3fcd..fa25ef5 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -100,10 +100,11 @@ impl Compactor {
                 vec.push(CompactType::Gorilla as u8);
                 vec
             }
-            &mut Compactor::None(ref _v) => {
-                let mut vec = _v.clone();
-                vec.push(CompactType::None as u8);
-                vec
+            &mut Compactor::None(_) => {
+                for tp in data {
+                    self.compact(&tp);
+                }
+                self.get_bytes_vec()
             }
         }
     }
@@ -165,7 +166,7 @@ impl Decompactor {
             &mut Decompactor::Gorilla(ref decompactor) => Ok(Vec::from_iter(decompactor.clone())),
             &mut Decompactor::None(ref _v) => {
                 let timepoint_size =
-                    std::mem::size_of::<Timestamp>() * 8 + std::mem::size_of::<Value>();
+                    std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
                 let mut res = vec![];
                 for _b in _v.chunks(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
-- 
2.43.0


From c2b7cadfa2778dce523c517baaf45b903e45e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 31/48] fix: write ahead log copes with writers that take part
 of a buffer

---
 src/wal/segment.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..9d2e057 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -21,8 +21,9 @@ pub struct Segment<W: Write> {
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        let written = self.writer.write(bytes)?;
+        self.crc.write(&bytes[..written]); // update crc
+        Ok(written)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -70,8 +71,8 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
@@ -109,8 +110,8 @@ impl<W> Segment<W>
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
         match &mut self.cache {
             &mut FlushCache::None => {
-                self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+                self.write_all(entry.get_bytes().as_slice())?;
+                self.flush()?;
             }
             &mut FlushCache::NumBased {
                 limit: ref size,
-- 
2.43.0


From 040f99a3cfdbd5a5cd0b3489820382106891ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 32/48] fix: write ahead log writes cached entries with their
 frame

---
 src/wal/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 9d2e057..226cc7a 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -57,7 +57,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.content.as_slice())?;
+                self.write_all(entry.get_bytes().as_slice())?;
             }
         }
 
-- 
2.43.0


From 0640f7a56202002f49a7fe17d4b31dd6341abb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 33/48] fix: write ahead log caches entries by number without
 padding

---
 src/wal/segment.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 226cc7a..0c12b4f 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -36,7 +36,7 @@ impl<W: Write> Write for Segment<W> {
             } => {
                 *idx = 0;
                 let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
+                *cache = Vec::with_capacity(*size);
                 _cache
             }
             &mut FlushCache::TimeBased { .. } => {
@@ -118,10 +118,10 @@ impl<W> Segment<W>
                 ref mut idx,
                 ref mut cache,
             } => {
-                cache[*idx] = entry;
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
-                    self.flush();
+                if *idx >= *size {
+                    self.flush()?;
                 }
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -135,7 +135,7 @@ impl<W> Segment<W>
                 let entry_len = entry.len();
                 cache.push(entry);
                 if *size + entry_len >= *limit {
-                    self.flush();
+                    self.flush()?;
                 } else {
                     *size += entry_len;
                 }
-- 
2.43.0


From 64822c4be52b5b1859c260a426b329dacf20441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 34/48] fix: closing a write ahead log segment flushes it

---
 src/wal/segment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 0c12b4f..2491eca 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -102,8 +102,10 @@ impl<W> Segment<W>
 
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?;
         let _crc = self.crc.finish();
-        self.write(&_crc.to_be_bytes())?; // append crc result
+        self.writer.write_all(&_crc.to_be_bytes())?; // append crc result
+        self.writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 712fdf85415fca8d6f5b2e26b9f769017c4454cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 35/48] fix: length of a write ahead log entry includes its
 length field

---
 src/wal/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index aa77bd7..f66ca93 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -64,7 +64,7 @@ impl Entry {
     }
 
     pub fn len(&self) -> usize {
-        8 + 1 + self.content.len() + 4 // seq_id + entry_type + content + crc32
+        8 + 1 + 2 + self.content.len() + 4 // seq_id + entry_type + len + content + crc32
     }
 
     pub fn get_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From aeeb57ef6aad5e7a91c7d37a3a21fc2bb52b8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 36/48] verif: end timer threads of databases that are no
 longer used

---
 src/verif.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index 721bc7f..91e247d 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -12,6 +12,7 @@ use std::sync::{Arc, Mutex};
 static CLOCK: AtomicU64 = AtomicU64::new(0); // milliseconds since epoch, 0: real clock
 static SLEEPING: AtomicUsize = AtomicUsize::new(0);
 static WOKEN: AtomicUsize = AtomicUsize::new(0);
+static STOPPED: AtomicUsize = AtomicUsize::new(0);
 
 /// Set the virtual clock, in milliseconds since epoch.
 pub fn set_clock(millis: u64) {
@@ -27,6 +28,11 @@ pub fn sleepers() -> (usize, usize) {
     (SLEEPING.load(SeqCst), WOKEN.load(SeqCst))
 }
 
+/// End all threads that wait for the virtual clock.
+pub fn stop_sleepers() {
+    STOPPED.fetch_add(1, SeqCst);
+}
+
 /// What a thread is about to do when it reaches a scheduling point.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Point {
@@ -73,14 +79,19 @@ pub mod thread {
     use std::time::Duration;
 
     pub fn sleep(dur: Duration) {
-        use super::{clock, SLEEPING, WOKEN};
+        use super::{clock, SLEEPING, STOPPED, WOKEN};
         use std::sync::atomic::Ordering::SeqCst;
         if clock() == 0 {
             return std::thread::sleep(dur);
         }
         let deadline = clock() + dur.as_millis() as u64;
+        let stopped = STOPPED.load(SeqCst);
         SLEEPING.fetch_add(1, SeqCst);
         while clock() < deadline {
+            if STOPPED.load(SeqCst) != stopped {
+                SLEEPING.fetch_sub(1, SeqCst);
+                std::panic::resume_unwind(Box::new("stopped"));
+            }
             std::thread::sleep(Duration::from_micros(200));
         }
         WOKEN.fetch_add(1, SeqCst);
-- 
2.43.0


From 6fe4f8a533aae2fd82f5c5d64957311760991948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 37/48] verif: fall back to the locks of std

---
 src/verif.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index 91e247d..bfaca4c 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -51,6 +51,7 @@ pub fn set_scheduler(scheduler: Option<Scheduler>) {
     *SCHEDULER.lock().unwrap() = scheduler
 }
 
+#[cfg_attr(monolith_verif_std, allow(dead_code))]
 fn point(p: Point) -> bool {
     let scheduler = SCHEDULER.lock().unwrap().clone();
     match scheduler {
@@ -99,6 +100,13 @@ pub mod thread {
     }
 }
 
+/// Without scheduling points, for trees that mix these types with the ones in `std`.
+#[cfg(monolith_verif_std)]
+pub mod sync {
+    pub use std::sync::*;
+}
+
+#[cfg(not(monolith_verif_std))]
 pub mod sync {
     use super::{point, Point};
     use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
-- 
2.43.0


From cd93214433b20e44ab3630dbce77e481f205f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 38/48] verif: scheduling points and faults at the embedded
 store

---
 src/indexer/sled_indexer.rs |   3 +
 src/storage/sled_storage.rs |   3 +
 src/verif.rs                | 108 ++++++++++++++++++++++++++++++++++++
 3 files changed, 114 insertions(+)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 6bfd435..54d2fa1 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -1,4 +1,7 @@
+#[cfg(not(monolith_verif))]
 use sled::Db;
+#[cfg(monolith_verif)]
+use crate::verif::sled::{self, Db};
 
 use crate::common::label::{Label, Labels};
 
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index 8428ccd..cc186bf 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -3,7 +3,10 @@ use crate::common::time_point::TimePoint;
 use crate::storage::{Decoder, Encoder, Storage};
 use crate::MonolithErr::{NotFoundErr, OutOfRangeErr};
 use crate::{Builder, HasTypeName, MonolithErr, Result, Timestamp, Value};
+#[cfg(not(monolith_verif))]
 use sled::{Db, Tree};
+#[cfg(monolith_verif)]
+use crate::verif::sled::{self, Db, Tree};
 
 use crate::chunk::ChunkOpts;
 use crate::option::DbOpts;
diff --git a/src/verif.rs b/src/verif.rs
index bfaca4c..cb38f60 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -240,6 +240,114 @@ pub mod sync {
     }
 }
 
+/// Effect of a fault on an access to the embedded store.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Fault {
+    None,
+    /// the call fails and has no effect
+    Before,
+    /// the call takes effect, but reports a failure
+    After,
+}
+
+type StoreHook = Arc<dyn Fn(bool, &[u8]) -> Fault + Send + Sync>;
+static STORE_HOOK: Mutex<Option<StoreHook>> = Mutex::new(None);
+
+/// Called before every access to the embedded store with (is it a change?, key).
+pub fn set_store_hook(hook: Option<StoreHook>) {
+    *STORE_HOOK.lock().unwrap() = hook
+}
+
+#[cfg_attr(monolith_verif_std, allow(dead_code))]
+fn store_call(change: bool, key: &[u8]) -> Fault {
+    point(Point::Atomic);
+    let hook = STORE_HOOK.lock().unwrap().clone();
+    hook.map(|h| h(change, key)).unwrap_or(Fault::None)
+}
+
+#[cfg(monolith_verif_std)]
+pub mod sled {
+    pub use ::sled::*;
+}
+
+/// The embedded store with scheduling points and faults.
+#[cfg(not(monolith_verif_std))]
+pub mod sled {
+    use super::{store_call, Fault};
+    pub use ::sled::*;
+    use std::ops::Deref;
+
+    #[derive(Clone)]
+    pub struct Tree(::sled::Db);
+
+    #[derive(Clone)]
+    pub struct Db(Tree);
+
+    fn injected() -> Error {
+        Error::Unsupported("injected".to_string())
+    }
+
+    fn change<T>(key: &[u8], f: impl FnOnce() -> Result<T>) -> Result<T> {
+        match store_call(true, key) {
+            Fault::None => f(),
+            Fault::Before => Err(injected()),
+            Fault::After => f().and(Err(injected())),
+        }
+    }
+
+    fn read<T>(key: &[u8], f: impl FnOnce() -> Result<T>) -> Result<T> {
+        match store_call(false, key) {
+            Fault::None => f(),
+            _ => Err(injected()),
+        }
+    }
+
+    impl Deref for Db {
+        type Target = Tree;
+        fn deref(&self) -> &Tree {
+            &self.0
+        }
+    }
+
+    impl Deref for Tree {
+        type Target = ::sled::Tree;
+        fn deref(&self) -> &::sled::Tree {
+            &self.0
+        }
+    }
+
+    impl Db {
+        pub fn start_default<P: AsRef<std::path::Path>>(path: P) -> Result<Db> {
+            change(b"", || Ok(Db(Tree(::sled::Db::start_default(path)?))))
+        }
+        pub fn start(config: Config) -> Result<Db> {
+            change(b"", || Ok(Db(Tree(::sled::Db::start(config)?))))
+        }
+    }
+
+    impl Tree {
+        pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
+            read(key.as_ref(), || self.0.get(key.as_ref()))
+        }
+        pub fn contains_key<K: AsRef<[u8]>>(&self, key: K) -> Result<bool> {
+            read(key.as_ref(), || self.0.contains_key(key.as_ref()))
+        }
+        pub fn set<K, V>(&self, key: K, value: V) -> Result<Option<IVec>>
+        where
+            K: AsRef<[u8]>,
+            IVec: From<V>,
+        {
+            change(key.as_ref(), || self.0.set(key.as_ref(), value))
+        }
+        pub fn del<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
+            change(key.as_ref(), || self.0.del(key.as_ref()))
+        }
+        pub fn flush(&self) -> Result<usize> {
+            change(b"", || self.0.flush())
+        }
+    }
+}
+
 /// The write ahead log is private to the crate.
 pub mod wal {
     pub use crate::wal::{Entry, EntryType, FlushPolicy, Segment};
-- 
2.43.0


From b66c1937e38425584a5d5bd3b8f585ebaa3da4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 39/48] fix: report failures of the embedded index when a
 series is created, and allow to repeat it

---
 src/indexer/sled_indexer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 54d2fa1..185c966 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -121,13 +121,11 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
-
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -143,10 +141,13 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
+            tree.set(&key, val.into_bytes())?;
             tree.flush();
         }
 
+        // last, because a series with this mapping is taken to be complete
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
+
         Ok(())
     }
 }
-- 
2.43.0


From f053d60c358afa4d4a0d51a0c28a86a605b66a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 40/48] fix: a sample of negative zero keeps its sign over HTTP

---
 src/proto/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/types.rs b/src/proto/types.rs
index 6c7e9bf..c4ce108 100644
--- a/src/proto/types.rs
+++ b/src/proto/types.rs
@@ -124,7 +124,7 @@ impl ::protobuf::Message for Sample {
     #[allow(unused_variables)]
     fn compute_size(&self) -> u32 {
         let mut my_size = 0;
-        if self.value != 0. {
+        if self.value.to_bits() != 0 {
             my_size += 9;
         }
         if self.timestamp != 0 {
@@ -143,7 +143,7 @@ impl ::protobuf::Message for Sample {
         &self,
         os: &mut ::protobuf::CodedOutputStream<'_>,
     ) -> ::protobuf::ProtobufResult<()> {
-        if self.value != 0. {
+        if self.value.to_bits() != 0 {
             os.write_double(1, self.value)?;
         }
         if self.timestamp != 0 {
-- 
2.43.0


From 4d7e328be4700be3aade24b8641f0191d7e8ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 41/48] fix: a client that stalls in the middle of a request
 does not stop the server

---
 src/server.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 5000817..8cc3902 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -48,16 +48,19 @@ where
         let addr = format!("127.0.0.1:{}", self.port);
         let server = Server::http(addr).unwrap();
 
+        // One more than the workers, for the loop that hands out the requests.
         let workers = rayon::ThreadPoolBuilder::new()
-            .num_threads(self.worker_num)
+            .num_threads(self.worker_num.max(1) + 1)
             .build()
             .unwrap();
 
-        for request in server.incoming_requests() {
-            let server = self.clone();
-            //do we need a context and a time out in case some thread stuck for some reason?
-            workers.install(move || MonolithServer::_process(server, request));
-        }
+        workers.scope(|scope| {
+            for request in server.incoming_requests() {
+                let server = self.clone();
+                //do we need a context and a time out in case some thread stuck for some reason?
+                scope.spawn(move |_| MonolithServer::_process(server, request));
+            }
+        });
 
         Ok(())
     }
-- 
2.43.0


From 584956cd266281b1ce73c97bc7daa54b1ccb390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 42/48] fix: a request body that ends within a message is
 refused

---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 8cc3902..c911765 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -82,8 +82,15 @@ where
                 return;
             }
         };
+        let length = _content.len() as u64;
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
+        //without it a message that announces more than there is is taken for complete
+        if let Err(err) = input_stream.push_limit(length) {
+            error!("Cannot read request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
 
         //triage the request
         match (request.method(), request.url()) {
-- 
2.43.0


From 4cdeed64ee6ef9ee157f68c7729ae5bf8b6c23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 43/48] fix: --tikv_config takes the path of the configuration
 file

---
 src/bin/monolith-server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index 4f327a2..cf74a16 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -54,7 +54,9 @@ fn main() {
             Arg::with_name(WORKER_NUM)
                 .long(WORKER_NUM)
                 .default_value(default_worker_num.as_str()),
-            Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG),
+            Arg::with_name(TIKV_CONFIG)
+                .long(TIKV_CONFIG)
+                .takes_value(true),
         ])
         .get_matches();
 
-- 
2.43.0


From 766f29eb75b0ce8c640f5ebe38f826f2c076227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 44/48] fix: a request that announces more than can be
 allocated ends the server

---
 src/server.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index c911765..ebc8c1e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,6 +13,9 @@ use crate::indexer::Indexer;
 use crate::option::ServerOpts;
 use std::sync::Arc;
 
+/// The longest content that snappy can decompress
+const MAX_BODY_LENGTH: u64 = 32 + u32::max_value() as u64 + u32::max_value() as u64 / 6;
+
 /// Http Server that accept Prometheus requests
 ///
 /// Note that the Prometheus remote storage requests using __unframed__ snappy encoding __proto__ object.
@@ -66,6 +69,16 @@ where
     }
 
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
+        if request
+            .body_length()
+            .map_or(false, |length| length as u64 > MAX_BODY_LENGTH)
+        {
+            error!("Request is too large, {:?} bytes", request.body_length());
+            // What is left of a body is read at once when its reader is dropped. The memory for that may not be
+            // there, so this connection is left as it is.
+            std::mem::forget(request.upgrade("close", Response::empty(413)));
+            return;
+        }
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
         if let Err(err) = request.as_reader().read_to_end(&mut content) {
-- 
2.43.0


From b098b45708f5fa5af03b8c42e7c67ad22f03f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 45/48] verif: injected errors of several kinds

---
 src/verif.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index cb38f60..f00a7a0 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -283,8 +283,18 @@ pub mod sled {
     #[derive(Clone)]
     pub struct Db(Tree);
 
+    /// One kind of error after the other: none of them means that there is nothing to find.
     fn injected() -> Error {
-        Error::Unsupported("injected".to_string())
+        use std::io::{Error as IoError, ErrorKind::*};
+        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
+        static COUNT: AtomicUsize = AtomicUsize::new(0);
+        let kinds = [NotFound, Other, PermissionDenied, TimedOut, UnexpectedEof, AlreadyExists, InvalidData];
+        match COUNT.fetch_add(1, Relaxed) % 10 {
+            0 => Error::Unsupported("injected".to_string()),
+            1 => Error::ReportableBug("injected".to_string()),
+            2 => Error::CollectionNotFound(b"injected".to_vec()),
+            n => Error::Io(IoError::new(kinds[n - 3], "injected")),
+        }
     }
 
     fn change<T>(key: &[u8], f: impl FnOnce() -> Result<T>) -> Result<T> {
-- 
2.43.0


From 93fc32b17b958c6bc191345ad87107cb81cb3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:05 +0000
Subject: [PATCH 46/48] verif: which error an access reports, and flushing the
 stores

---
 src/verif.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index f00a7a0..79eabc8 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -253,6 +253,14 @@ pub enum Fault {
 type StoreHook = Arc<dyn Fn(bool, &[u8]) -> Fault + Send + Sync>;
 static STORE_HOOK: Mutex<Option<StoreHook>> = Mutex::new(None);
 
+#[cfg_attr(monolith_verif_std, allow(dead_code))]
+static FAULT_KIND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
+
+/// Which error the next access that fails reports.
+pub fn set_fault_kind(kind: usize) {
+    FAULT_KIND.store(kind, std::sync::atomic::Ordering::SeqCst)
+}
+
 /// Called before every access to the embedded store with (is it a change?, key).
 pub fn set_store_hook(hook: Option<StoreHook>) {
     *STORE_HOOK.lock().unwrap() = hook
@@ -268,6 +276,10 @@ fn store_call(change: bool, key: &[u8]) -> Fault {
 #[cfg(monolith_verif_std)]
 pub mod sled {
     pub use ::sled::*;
+    /// What the stores' own threads do about twice a second.
+    pub fn flush_all() {
+        std::thread::sleep(std::time::Duration::from_millis(1300))
+    }
 }
 
 /// The embedded store with scheduling points and faults.
@@ -276,20 +288,36 @@ pub mod sled {
     use super::{store_call, Fault};
     pub use ::sled::*;
     use std::ops::Deref;
+    use std::sync::{Arc, Mutex, Weak};
 
     #[derive(Clone)]
-    pub struct Tree(::sled::Db);
+    pub struct Tree(Arc<::sled::Db>);
+
+    static OPEN: Mutex<Vec<Weak<::sled::Db>>> = Mutex::new(Vec::new());
+
+    fn opened(db: ::sled::Db) -> Db {
+        let db = Arc::new(db);
+        let mut open = OPEN.lock().unwrap();
+        open.retain(|w| w.strong_count() > 0);
+        open.push(Arc::downgrade(&db));
+        Db(Tree(db))
+    }
+
+    /// What the stores' own threads do about twice a second.
+    pub fn flush_all() {
+        let open: Vec<_> = OPEN.lock().unwrap().iter().filter_map(|w| w.upgrade()).collect();
+        for db in open {
+            let _ = db.flush();
+        }
+    }
 
     #[derive(Clone)]
     pub struct Db(Tree);
 
-    /// One kind of error after the other: none of them means that there is nothing to find.
     fn injected() -> Error {
         use std::io::{Error as IoError, ErrorKind::*};
-        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
-        static COUNT: AtomicUsize = AtomicUsize::new(0);
         let kinds = [NotFound, Other, PermissionDenied, TimedOut, UnexpectedEof, AlreadyExists, InvalidData];
-        match COUNT.fetch_add(1, Relaxed) % 10 {
+        match super::FAULT_KIND.load(std::sync::atomic::Ordering::SeqCst) % 10 {
             0 => Error::Unsupported("injected".to_string()),
             1 => Error::ReportableBug("injected".to_string()),
             2 => Error::CollectionNotFound(b"injected".to_vec()),
@@ -328,10 +356,10 @@ pub mod sled {
 
     impl Db {
         pub fn start_default<P: AsRef<std::path::Path>>(path: P) -> Result<Db> {
-            change(b"", || Ok(Db(Tree(::sled::Db::start_default(path)?))))
+            change(b"", || Ok(opened(::sled::Db::start_default(path)?)))
         }
         pub fn start(config: Config) -> Result<Db> {
-            change(b"", || Ok(Db(Tree(::sled::Db::start(config)?))))
+            change(b"", || Ok(opened(::sled::Db::start(config)?)))
         }
     }
 
-- 
2.43.0


From 6ba0db652ecc9fde6d86e277cc04d016ee1a6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 47/48] fix: write ahead log keeps what its file refused

---
 src/wal/segment.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 2491eca..0a7f00d 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -17,6 +17,8 @@ pub struct Segment<W: Write> {
     writer: W,
     cache: FlushCache,
     crc: crc::crc64::Digest,
+    // bytes of entries that left the cache but are not written yet
+    unwritten: Vec<u8>,
 }
 
 impl<W: Write> Write for Segment<W> {
@@ -55,11 +57,25 @@ impl<W: Write> Write for Segment<W> {
             }
         };
 
-        if remaining.len() > 0 {
-            for entry in remaining {
-                self.write_all(entry.get_bytes().as_slice())?;
-            }
+        for entry in remaining {
+            self.unwritten.append(&mut entry.get_bytes());
         }
+        // what cannot be written now is left for the next flush
+        let mut bytes = std::mem::replace(&mut self.unwritten, vec![]);
+        let mut written = 0;
+        let res = loop {
+            if written == bytes.len() {
+                break Ok(());
+            }
+            match self.write(&bytes[written..]) {
+                Ok(0) => break Err(std::io::ErrorKind::WriteZero.into()),
+                Ok(n) => written += n,
+                Err(ref err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(err) => break Err(err),
+            }
+        };
+        self.unwritten = bytes.split_off(written);
+        res?;
 
         self.writer.flush()
     }
@@ -97,6 +113,7 @@ impl<W> Segment<W>
                 },
             },
             crc: crc::crc64::Digest::new(crc::crc64::ECMA),
+            unwritten: vec![],
         })
     }
 
@@ -112,7 +129,7 @@ impl<W> Segment<W>
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
         match &mut self.cache {
             &mut FlushCache::None => {
-                self.write_all(entry.get_bytes().as_slice())?;
+                self.unwritten.append(&mut entry.get_bytes());
                 self.flush()?;
             }
             &mut FlushCache::NumBased {
-- 
2.43.0


From 800a8cbfe8e800aaac0edc80967c8496bb4f6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:07 +0000
Subject: [PATCH 48/48] fix: a directory whose metadata cannot be read is not
 taken for a new one

---
 src/db.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 859072a..b8042f5 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -112,9 +112,14 @@ where
     /// is the same type. If it doesn't, then create one base on db_metadata
     fn read_or_create_metadata(base_dir: &Path, db_metadata: &DbMetadata) -> Result<()> {
         let content = fs::read_to_string(base_dir.join(DB_METADATA_FILENAME));
+        // only a file that is not there may be created
+        let is_new = match &content {
+            Err(err) => err.kind() == std::io::ErrorKind::NotFound,
+            Ok(_) => false,
+        };
 
-        if content.is_ok() {
-            let metadata: DbMetadata = serde_json::from_str(content.unwrap().as_str())?;
+        if !is_new {
+            let metadata: DbMetadata = serde_json::from_str(content?.as_str())?;
             if metadata.indexer_type != db_metadata.indexer_type
                 || metadata.storage_type != db_metadata.storage_type
             {
-- 
2.43.0

