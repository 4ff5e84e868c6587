From 6aa1d19ed2d14de5d140730b2f381c35105022d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 01/48] hook: expose private items to the verification harness
 under cfg(rudis_verif)

---
 component/db/src/lib.rs       | 12 +++++++++++
 component/db/src/verif.rs     | 37 ++++++++++++++++++++++++++++++++
 component/pd/src/lib.rs       |  4 ++++
 component/server/src/lib.rs   |  3 +++
 component/server/src/verif.rs | 40 +++++++++++++++++++++++++++++++++++
 5 files changed, 96 insertions(+)
 create mode 100644 component/db/src/verif.rs
 create mode 100644 component/server/src/verif.rs

diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index caf9b76..c55015e 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -1,8 +1,20 @@
 pub mod child_process;
+#[cfg(not(rudis_verif))]
 mod expire;
+#[cfg(rudis_verif)]
+pub mod expire;
+#[cfg(not(rudis_verif))]
 mod forward;
+#[cfg(rudis_verif)]
+pub mod forward;
 mod pd_handle;
+#[cfg(not(rudis_verif))]
 mod slot;
+#[cfg(rudis_verif)]
+pub mod slot;
+/// Verification hooks, compiled only with `--cfg rudis_verif`.
+#[cfg(rudis_verif)]
+pub mod verif;
 
 use std::{
     collections::{BTreeSet, HashMap, HashSet},
diff --git a/component/db/src/verif.rs b/component/db/src/verif.rs
new file mode 100644
index 0000000..ef1f422
--- /dev/null
+++ b/component/db/src/verif.rs
@@ -0,0 +1,37 @@
+//! Access to private items for the verification harness.
+//!
+//! Nothing here is compiled in a normal build.
+
+use crate::{expire, forward, slot::Slot, BgTask, Db};
+
+/// The slot the given key is routed to.
+#[must_use]
+pub fn slot_of(db: &Db, key: &[u8]) -> usize {
+    db.get_slot(key).slot_id
+}
+
+/// A single slot together with the receiving ends of its background channels.
+#[must_use]
+pub fn lone_slot(
+    slot_id: usize,
+) -> (
+    Slot,
+    flume::Receiver<expire::Message>,
+    flume::Receiver<forward::Message>,
+) {
+    let (expire_sender, expire_rx) = flume::unbounded();
+    let (forward_sender, forward_rx) = flume::unbounded();
+    let slot = Slot::new(
+        slot_id,
+        BgTask {
+            expire_sender,
+            forward_sender,
+        },
+    );
+    (slot, expire_rx, forward_rx)
+}
+
+/// Empty a slot the way FLUSHALL does.
+pub fn flush(slot: &Slot) {
+    slot.flush(true);
+}
diff --git a/component/pd/src/lib.rs b/component/pd/src/lib.rs
index 4be6678..4a5bb37 100644
--- a/component/pd/src/lib.rs
+++ b/component/pd/src/lib.rs
@@ -8,7 +8,11 @@ mod cmd;
 /// 连接处理模块
 mod connect;
 /// 全局状态
+#[cfg(not(rudis_verif))]
 mod status;
+/// 全局状态
+#[cfg(rudis_verif)]
+pub mod status;
 
 /// run pd
 /// # Errors
diff --git a/component/server/src/lib.rs b/component/server/src/lib.rs
index ddefc12..0186666 100644
--- a/component/server/src/lib.rs
+++ b/component/server/src/lib.rs
@@ -2,6 +2,9 @@
 mod cmd;
 mod frame_parse;
 mod limit;
+/// Verification hooks, compiled only with `--cfg rudis_verif`.
+#[cfg(rudis_verif)]
+pub mod verif;
 
 use std::{future::Future, sync::Arc};
 
diff --git a/component/server/src/verif.rs b/component/server/src/verif.rs
new file mode 100644
index 0000000..68a27a5
--- /dev/null
+++ b/component/server/src/verif.rs
@@ -0,0 +1,40 @@
+//! Access to private items for the verification harness.
+//!
+//! Nothing here is compiled in a normal build.
+
+use std::sync::Arc;
+
+use common::connection::Connection;
+use db::Db;
+
+pub use crate::cmd::Command;
+use crate::{limit::Limit, Handler};
+
+/// The real per-connection loop, on the given connection.
+pub async fn serve(db: Arc<Db>, connection: Connection) -> common::Result<()> {
+    let limit = Limit::new(1);
+    limit.acquire().await;
+    let handler = Handler {
+        db,
+        connection,
+        _limit_connections: limit,
+    };
+    handler.run().await
+}
+
+/// A connection limiter with `permits` permits; returns how many are free.
+#[must_use]
+pub fn limiter(permits: usize) -> Limiter {
+    Limiter(Limit::new(permits))
+}
+
+/// Handle on the private connection limiter.
+pub struct Limiter(Limit);
+
+impl Limiter {
+    /// Wait for a slot and return the guard a connection handler holds.
+    pub async fn enter(&self) -> impl Drop {
+        self.0.acquire().await;
+        self.0.clone()
+    }
+}
-- 
2.43.0


From 5702583086f9680122ba2843fb181a0cddc52d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 02/48] fix: purge removes expired values (lookup must not hide
 them)

---
 component/db/src/expire.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/component/db/src/expire.rs b/component/db/src/expire.rs
index b36062a..6eaffaf 100644
--- a/component/db/src/expire.rs
+++ b/component/db/src/expire.rs
@@ -153,7 +153,7 @@ impl Expiration {
                     None => continue,
                 };
                 debug!("before: slot: {}, dict_len: {}", entry.slot, dict.len());
-                let res = match dict.get(&entry.key) {
+                let res = match dict.raw_get(&entry.key) {
                     // 如果过期时间更新过，可能会有时间不一样的情况
                     Some(value) if value.expires_at == entry.expires_at => {
                         Some(dict.remove(&entry.key))
@@ -176,13 +176,13 @@ impl Expiration {
 pub fn scan_all(db: &Db) {
     db.expiration_data.lock().retain(|entry| {
         let slot = db.get_slot_by_id(entry.slot);
-        let mut lock = slot.share_status.lock();
-        let dict = match &mut *lock {
-            Some(s) => &mut s.dict,
+        let lock = slot.share_status.lock();
+        let dict = match &*lock {
+            Some(s) => &s.dict,
             None => return false,
         };
         // 只保留key存在，且过期时间能对上的记录
-        matches!(dict.get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
+        matches!(dict.raw_get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
     });
 }
 
-- 
2.43.0


From c4122a687d392785cac4cc62ff2da828a339e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 03/48] fix: visit log survives the wrap of its 16-bit minute
 counter

---
 component/dict/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/lib.rs b/component/dict/src/lib.rs
index 9df8e65..9d07326 100644
--- a/component/dict/src/lib.rs
+++ b/component/dict/src/lib.rs
@@ -110,7 +110,8 @@ impl Value {
         let old_last_desc_time = self.get_last_desc_time();
         let last_desc_time = Self::get_min(now);
         // todo diff / minutes
-        let diff = last_desc_time - old_last_desc_time;
+        // the minute counter is 16 bits wide and wraps around
+        let diff = last_desc_time.wrapping_sub(old_last_desc_time) & ((1 << 16) - 1);
         let mut visit_times = self.get_visit_times();
         if diff > visit_times {
             visit_times = 0;
-- 
2.43.0


From 1a2b692dc02aee2bfa9bab931f3b09132784519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 04/48] fix: DEL of an expired key deletes nothing

---
 component/dict/src/cmd/simple/del.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/simple/del.rs b/component/dict/src/cmd/simple/del.rs
index 7d69ac8..539cd08 100644
--- a/component/dict/src/cmd/simple/del.rs
+++ b/component/dict/src/cmd/simple/del.rs
@@ -1,3 +1,4 @@
+use common::now_timestamp_ms;
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -38,7 +39,8 @@ impl<D: Dict> ExpiresOp<Option<Value>, D> for Req {
                 };
 
                 ExpiresOpResp {
-                    payload: Some(v),
+                    // an expired value no longer exists for the client
+                    payload: (v.expires_at == 0 || v.expires_at > now_timestamp_ms()).then(|| v),
                     expires_status,
                 }
             },
-- 
2.43.0


From 430b622a77b12d3845cb59ba283c3f5370af9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 05/48] fix: SET ... GET does not return an expired value

---
 component/dict/src/cmd/simple/set.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/simple/set.rs b/component/dict/src/cmd/simple/set.rs
index 95acf2d..3bcf567 100644
--- a/component/dict/src/cmd/simple/set.rs
+++ b/component/dict/src/cmd/simple/set.rs
@@ -1,4 +1,7 @@
-use common::options::{ExpiresAt, NxXx};
+use common::{
+    now_timestamp_ms,
+    options::{ExpiresAt, NxXx},
+};
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -55,7 +58,9 @@ impl<D: Dict> ExpiresOp<DataType, D> for Req {
                 (old, ExpiresStatus::None)
             };
             return Ok(ExpiresOpResp {
-                payload: old.map_or(DataType::Null, |v| v.data),
+                payload: old
+                    .filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms())
+                    .map_or(DataType::Null, |v| v.data),
                 expires_status,
             });
         }
-- 
2.43.0


From f6be28112d1a527593e80d4c1487ad36ffe038af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 06/48] fix: SET NX/XX replies nil when the condition is not
 met

---
 component/server/src/cmd/base/set.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index e621fa1..8e56bf6 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -31,6 +31,7 @@ impl Set {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply<'a>(self, db: &Db) -> common::Result<Frame<'a>> {
         let get = self.get;
+        let nx_xx = self.nx_xx;
         let res = db.set(dict::cmd::simple::set::Req {
             key: self.key,
             value: self.value,
@@ -46,6 +47,11 @@ impl Set {
         })?;
         let response = if get {
             data_type_to_frame(res)
+        } else if (nx_xx.is_nx() && res != DataType::Null)
+            || (nx_xx.is_xx() && res == DataType::Null)
+        {
+            // the condition was not met, nothing was set
+            Frame::Null
         } else {
             // async drop
             tokio::spawn(async { res });
-- 
2.43.0


From ff02bfb6d14de5335fef62befee0edd742326cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:09 +0000
Subject: [PATCH 07/48] fix: counters report an overflow instead of wrapping or
 panicking

---
 component/dict/src/cmd/kvp/incr.rs      |  4 +++-
 component/dict/src/cmd/simple/incr.rs   |  4 +++-
 component/server/src/cmd/base/decrby.rs | 18 +++++++-----------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/component/dict/src/cmd/kvp/incr.rs b/component/dict/src/cmd/kvp/incr.rs
index feb7c7d..c567470 100644
--- a/component/dict/src/cmd/kvp/incr.rs
+++ b/component/dict/src/cmd/kvp/incr.rs
@@ -35,7 +35,9 @@ impl<D: Dict> Write<i64, D> for Req {
             DataType::Kvp(ref mut kvp) => {
                 if let Some(s) = kvp.get_mut(&self.field) {
                     let old: i64 = (&*s).try_into()?;
-                    let new = old + self.value;
+                    let new = old
+                        .checked_add(self.value)
+                        .ok_or("increment or decrement would overflow")?;
                     *s = DataType::Integer(new);
                     Ok(new)
                 } else {
diff --git a/component/dict/src/cmd/simple/incr.rs b/component/dict/src/cmd/simple/incr.rs
index cd1e5bb..37c17f1 100644
--- a/component/dict/src/cmd/simple/incr.rs
+++ b/component/dict/src/cmd/simple/incr.rs
@@ -27,7 +27,9 @@ impl<D: Dict> Write<i64, D> for Req {
     fn apply(self, dict: &mut D) -> common::Result<i64> {
         if let Some(v) = dict.get(&self.key) {
             let old: i64 = (&v.data).try_into()?;
-            let new = old + self.value;
+            let new = old
+                .checked_add(self.value)
+                .ok_or("increment or decrement would overflow")?;
             v.data = DataType::Integer(new);
             Ok(new)
         } else {
diff --git a/component/server/src/cmd/base/decrby.rs b/component/server/src/cmd/base/decrby.rs
index 8108612..8ef3ede 100644
--- a/component/server/src/cmd/base/decrby.rs
+++ b/component/server/src/cmd/base/decrby.rs
@@ -10,20 +10,16 @@ pub struct Decrby {
     pub value: i64,
 }
 
-impl From<Decrby> for dict::cmd::simple::incr::Req {
-    #[inline]
-    fn from(old: Decrby) -> Self {
-        Self {
-            key: old.key,
-            value: -old.value,
-        }
-    }
-}
-
 impl Decrby {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let response = db.incr(self.into())?;
+        let response = db.incr(dict::cmd::simple::incr::Req {
+            key: self.key,
+            value: self
+                .value
+                .checked_neg()
+                .ok_or("decrement would overflow")?,
+        })?;
         Ok(Frame::Integer(response))
     }
 }
-- 
2.43.0


From bd47147e2ede404a57aa704651f050507fb182b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 08/48] fix: expiry arguments out of range are refused or
 clamped, never wrapped

---
 component/common/src/lib.rs                | 29 ++++++++++++++++++++++
 component/server/src/cmd/base/expire.rs    |  6 ++---
 component/server/src/cmd/base/expireat.rs  |  5 ++--
 component/server/src/cmd/base/pexpire.rs   |  6 ++---
 component/server/src/cmd/base/pexpireat.rs |  5 ++--
 component/server/src/cmd/base/psetex.rs    | 26 +++++++++----------
 component/server/src/cmd/base/set.rs       | 18 +++++++++++---
 component/server/src/cmd/base/setex.rs     | 26 +++++++++----------
 8 files changed, 79 insertions(+), 42 deletions(-)

diff --git a/component/common/src/lib.rs b/component/common/src/lib.rs
index cc86f9a..7094106 100644
--- a/component/common/src/lib.rs
+++ b/component/common/src/lib.rs
@@ -49,6 +49,35 @@ pub fn now_timestamp_ms() -> u64 {
         .as_millis() as u64
 }
 
+/// Deadline in ms: `amount` units of `unit_ms` milliseconds after `base_ms`.
+///
+/// A deadline in the past is valid, but never `0`, which means "no deadline".
+///
+/// # Errors
+/// the deadline is out of range
+#[inline]
+#[allow(clippy::cast_sign_loss)]
+pub fn deadline_ms(base_ms: u64, amount: i64, unit_ms: i64) -> Result<u64> {
+    i64::try_from(base_ms)
+        .ok()
+        .and_then(|base| amount.checked_mul(unit_ms)?.checked_add(base))
+        .map(|at| at.max(1) as u64)
+        .ok_or_else(|| "invalid expire time".into())
+}
+
+/// Like [`deadline_ms`], for commands that only accept a positive `amount`.
+///
+/// # Errors
+/// `amount` is not positive, or the deadline is out of range
+#[inline]
+pub fn positive_deadline_ms(base_ms: u64, amount: i64, unit_ms: i64) -> Result<u64> {
+    if amount > 0 {
+        deadline_ms(base_ms, amount, unit_ms)
+    } else {
+        Err("invalid expire time".into())
+    }
+}
+
 pub trait ParseSerdeType<'de, T: Deserialize<'de> + Serialize> {
     fn parse_serde_type(&self) -> T;
 }
diff --git a/component/server/src/cmd/base/expire.rs b/component/server/src/cmd/base/expire.rs
index 5fbd4e1..74a7e6a 100644
--- a/component/server/src/cmd/base/expire.rs
+++ b/component/server/src/cmd/base/expire.rs
@@ -1,6 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
-    now_timestamp_ms,
+    deadline_ms, now_timestamp_ms,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -13,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Expire<'a> {
     pub key: &'a [u8],
-    pub seconds: u64,
+    pub seconds: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -25,7 +25,7 @@ impl Expire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.seconds * 1000 + now_timestamp_ms(),
+            expires_at: deadline_ms(now_timestamp_ms(), self.seconds, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/expireat.rs b/component/server/src/cmd/base/expireat.rs
index 1e9cb90..5fde405 100644
--- a/component/server/src/cmd/base/expireat.rs
+++ b/component/server/src/cmd/base/expireat.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    deadline_ms,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -12,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Expireat<'a> {
     pub key: &'a [u8],
-    pub timestamp: u64,
+    pub timestamp: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -24,7 +25,7 @@ impl Expireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.timestamp * 1000,
+            expires_at: deadline_ms(0, self.timestamp, 1000)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpire.rs b/component/server/src/cmd/base/pexpire.rs
index 3b48f8d..469bf1e 100644
--- a/component/server/src/cmd/base/pexpire.rs
+++ b/component/server/src/cmd/base/pexpire.rs
@@ -1,6 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
-    now_timestamp_ms,
+    deadline_ms, now_timestamp_ms,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -13,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Pexpire<'a> {
     pub key: &'a [u8],
-    pub milliseconds: u64,
+    pub milliseconds: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -25,7 +25,7 @@ impl Pexpire<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds + now_timestamp_ms(),
+            expires_at: deadline_ms(now_timestamp_ms(), self.milliseconds, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/pexpireat.rs b/component/server/src/cmd/base/pexpireat.rs
index 6b32d57..c216b90 100644
--- a/component/server/src/cmd/base/pexpireat.rs
+++ b/component/server/src/cmd/base/pexpireat.rs
@@ -1,5 +1,6 @@
 use common::{
     connection::parse::frame::Frame,
+    deadline_ms,
     options::{GtLt, NxXx},
 };
 use db::Db;
@@ -12,7 +13,7 @@ use macros::ParseFrames;
 #[derive(Debug, ParseFrames)]
 pub struct Pexpireat<'a> {
     pub key: &'a [u8],
-    pub milliseconds_timestamp: u64,
+    pub milliseconds_timestamp: i64,
     #[optional]
     pub nx_xx: NxXx,
     #[optional]
@@ -24,7 +25,7 @@ impl Pexpireat<'_> {
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
         let res = db.expire(dict::cmd::simple::expire::Req {
             key: self.key.into(),
-            expires_at: self.milliseconds_timestamp,
+            expires_at: deadline_ms(0, self.milliseconds_timestamp, 1)?,
             nx_xx: self.nx_xx,
             gt_lt: self.gt_lt,
         })?;
diff --git a/component/server/src/cmd/base/psetex.rs b/component/server/src/cmd/base/psetex.rs
index e21ddae..c2be55a 100644
--- a/component/server/src/cmd/base/psetex.rs
+++ b/component/server/src/cmd/base/psetex.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{ExpiresAt, NxXx},
+    positive_deadline_ms,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -13,26 +14,23 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Psetex {
     pub key: Key,
-    pub milliseconds: u64,
+    pub milliseconds: i64,
     pub value: DataType,
 }
 
-impl From<Psetex> for dict::cmd::simple::set::Req {
-    #[inline]
-    fn from(old: Psetex) -> Self {
-        Self {
-            key: old.key,
-            value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.milliseconds),
-            nx_xx: NxXx::None,
-        }
-    }
-}
-
 impl Psetex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(dict::cmd::simple::set::Req {
+            key: self.key,
+            value: self.value,
+            expires_at: ExpiresAt::Specific(positive_deadline_ms(
+                now_timestamp_ms(),
+                self.milliseconds,
+                1,
+            )?),
+            nx_xx: NxXx::None,
+        })?;
         Ok(Frame::ok())
     }
 }
diff --git a/component/server/src/cmd/base/set.rs b/component/server/src/cmd/base/set.rs
index 8e56bf6..77386e8 100644
--- a/component/server/src/cmd/base/set.rs
+++ b/component/server/src/cmd/base/set.rs
@@ -2,6 +2,7 @@ use common::{
     connection::parse::frame::Frame,
     now_timestamp_ms,
     options::{ExpiresAt, NxXx, SetCmdExpires},
+    positive_deadline_ms,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -35,11 +36,20 @@ impl Set {
         let res = db.set(dict::cmd::simple::set::Req {
             key: self.key,
             value: self.value,
+            #[allow(clippy::cast_possible_wrap)]
             expires_at: match self.expires {
-                SetCmdExpires::Ex(e) => ExpiresAt::Specific(now_timestamp_ms() + e * 1000),
-                SetCmdExpires::Px(e) => ExpiresAt::Specific(now_timestamp_ms() + e),
-                SetCmdExpires::Exat(e) => ExpiresAt::Specific(e * 1000),
-                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(e),
+                SetCmdExpires::Ex(e) => {
+                    ExpiresAt::Specific(positive_deadline_ms(now_timestamp_ms(), e as i64, 1000)?)
+                }
+                SetCmdExpires::Px(e) => {
+                    ExpiresAt::Specific(positive_deadline_ms(now_timestamp_ms(), e as i64, 1)?)
+                }
+                SetCmdExpires::Exat(e) => {
+                    ExpiresAt::Specific(positive_deadline_ms(0, e as i64, 1000)?)
+                }
+                SetCmdExpires::Pxat(e) => {
+                    ExpiresAt::Specific(positive_deadline_ms(0, e as i64, 1)?)
+                }
                 SetCmdExpires::Keepttl => ExpiresAt::Last,
                 SetCmdExpires::None => ExpiresAt::Specific(0),
             },
diff --git a/component/server/src/cmd/base/setex.rs b/component/server/src/cmd/base/setex.rs
index a771bd2..791998b 100644
--- a/component/server/src/cmd/base/setex.rs
+++ b/component/server/src/cmd/base/setex.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{ExpiresAt, NxXx},
+    positive_deadline_ms,
 };
 use db::Db;
 use dict::data_type::DataType;
@@ -13,26 +14,23 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Setex {
     pub key: Key,
-    pub seconds: u64,
+    pub seconds: i64,
     pub value: DataType,
 }
 
-impl From<Setex> for dict::cmd::simple::set::Req {
-    #[inline]
-    fn from(old: Setex) -> Self {
-        Self {
-            key: old.key,
-            value: old.value,
-            expires_at: ExpiresAt::Specific(now_timestamp_ms() + old.seconds * 1000),
-            nx_xx: NxXx::None,
-        }
-    }
-}
-
 impl Setex {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        db.set(self.into())?;
+        db.set(dict::cmd::simple::set::Req {
+            key: self.key,
+            value: self.value,
+            expires_at: ExpiresAt::Specific(positive_deadline_ms(
+                now_timestamp_ms(),
+                self.seconds,
+                1000,
+            )?),
+            nx_xx: NxXx::None,
+        })?;
         Ok(Frame::ok())
     }
 }
-- 
2.43.0


From e8b4679ae7affa865e3c1683ddb83522afbc2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 09/48] fix: RESTORE refuses out-of-range TTL and keeps
 IDLETIME and FREQ inside the visit log

---
 component/dict/src/cmd/server/restore.rs   |  2 +-
 component/server/src/cmd/others/restore.rs | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 7ad0b0a..1b78460 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -41,7 +41,7 @@ impl<D: Dict> ExpiresOp<(), D> for Req<'_> {
             visit_log: Value::create_visit_log(
                 self.last_visit_time / 10,
                 Value::get_min(now_timestamp_ms()),
-                self.freq,
+                self.freq.min(Value::MAX_VISIT_TIMES),
             ),
         };
         let key: Key = self.key.into();
diff --git a/component/server/src/cmd/others/restore.rs b/component/server/src/cmd/others/restore.rs
index 6ff2735..ce8978e 100644
--- a/component/server/src/cmd/others/restore.rs
+++ b/component/server/src/cmd/others/restore.rs
@@ -1,6 +1,7 @@
 use common::{
     now_timestamp_ms,
     options::{Freq, IdleTime},
+    positive_deadline_ms,
 };
 use db::Db;
 use macros::ParseFrames;
@@ -11,7 +12,7 @@ use crate::Frame;
 #[derive(Debug, ParseFrames)]
 pub struct Restore<'a> {
     pub key: &'a [u8],
-    pub ttl: u64,
+    pub ttl: i64,
     pub serialized_value: &'a [u8],
     pub replace: bool,
     pub absttl: bool,
@@ -24,23 +25,22 @@ pub struct Restore<'a> {
 impl Restore<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        let ttl = if self.absttl {
-            self.ttl
-        } else if self.ttl > 0 {
-            now_timestamp_ms() + self.ttl
-        } else {
+        let ttl = if self.ttl == 0 {
             0
+        } else if self.absttl {
+            positive_deadline_ms(0, self.ttl, 1)?
+        } else {
+            positive_deadline_ms(now_timestamp_ms(), self.ttl, 1)?
         };
         db.restore(dict::cmd::server::restore::Req {
             key: self.key,
             value: self.serialized_value,
             expires_at: ttl,
             replace: self.replace,
-            last_visit_time: now_timestamp_ms() / 1000
-                - match self.idle_time {
-                    IdleTime::Some(i) => i,
-                    IdleTime::None => 0,
-                },
+            last_visit_time: (now_timestamp_ms() / 1000).saturating_sub(match self.idle_time {
+                IdleTime::Some(i) => i,
+                IdleTime::None => 0,
+            }),
             freq: match self.freq {
                 Freq::Some(i) => i,
                 Freq::None => 0,
-- 
2.43.0


From 962a0bdd6bb220ddede7a3d3ecc035088272b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 10/48] fix: OBJECT does not see expired keys and survives a
 clock step

---
 component/dict/src/cmd/simple/get_last_visit_time.rs | 7 ++++++-
 component/dict/src/cmd/simple/get_visit_times.rs     | 7 ++++++-
 component/server/src/cmd/others/object.rs            | 4 +++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/component/dict/src/cmd/simple/get_last_visit_time.rs b/component/dict/src/cmd/simple/get_last_visit_time.rs
index f45bce2..3e33f66 100644
--- a/component/dict/src/cmd/simple/get_last_visit_time.rs
+++ b/component/dict/src/cmd/simple/get_last_visit_time.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,10 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        if let Some(v) = dict
+            .raw_get(self.key)
+            .filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms())
+        {
             return Ok(Some(v.get_last_visit_time() * 10));
         }
         Ok(None)
diff --git a/component/dict/src/cmd/simple/get_visit_times.rs b/component/dict/src/cmd/simple/get_visit_times.rs
index 6b92065..2c4e1df 100644
--- a/component/dict/src/cmd/simple/get_visit_times.rs
+++ b/component/dict/src/cmd/simple/get_visit_times.rs
@@ -1,3 +1,5 @@
+use common::now_timestamp_ms;
+
 use crate::{cmd::Read, Dict};
 
 #[derive(Debug, Clone)]
@@ -8,7 +10,10 @@ pub struct Req<'a> {
 impl<'a, D: Dict> Read<Option<u64>, D> for Req<'a> {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Option<u64>> {
-        if let Some(v) = dict.raw_get(self.key) {
+        if let Some(v) = dict
+            .raw_get(self.key)
+            .filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms())
+        {
             return Ok(Some(v.get_visit_times()));
         }
         Ok(None)
diff --git a/component/server/src/cmd/others/object.rs b/component/server/src/cmd/others/object.rs
index a3608e4..84630c7 100644
--- a/component/server/src/cmd/others/object.rs
+++ b/component/server/src/cmd/others/object.rs
@@ -25,7 +25,9 @@ impl Object<'_> {
                 })?
             {
                 #[allow(clippy::cast_possible_wrap)]
-                Ok(Frame::Integer((now_timestamp_ms() / 1000 - u) as _))
+                Ok(Frame::Integer(
+                    (now_timestamp_ms() / 1000).saturating_sub(u) as _
+                ))
             } else {
                 Err("idletiem key not exists".into())
             };
-- 
2.43.0


From 8fa5bb3cfeaa0014d8a69e7bf92e704cc42c6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 11/48] fix: a command with an unknown trailing argument is
 refused

---
 component/macros/src/parse_frames.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index 6d5dd9b..fd0b285 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -316,7 +316,15 @@ pub fn do_derive(ast: &DeriveInput) -> proc_macro2::TokenStream {
         read_token.push(parse_required_field(field, has_next));
         has_next = false;
     }
-    read_token.push(parse_optional_fields(&optional_fields));
+    if !optional_fields.is_empty() {
+        read_token.push(parse_optional_fields(&optional_fields));
+        // what follows the last option must not be dropped silently
+        read_token.push(quote! {
+            if next.is_ok() {
+                return Err("syntax error".into());
+            }
+        });
+    }
     let self_token = utils::derive_get_struct_fields(ast)
         .unwrap()
         .iter()
-- 
2.43.0


From 5c0f0054dbf629752c69b9e3107d2378fbc946f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 12/48] fix: an empty hash tag does not decide the slot

---
 component/db/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component/db/src/lib.rs b/component/db/src/lib.rs
index c55015e..60d7b6e 100644
--- a/component/db/src/lib.rs
+++ b/component/db/src/lib.rs
@@ -93,7 +93,10 @@ impl Db {
     fn get_slot(&self, mut key: &[u8]) -> &Slot {
         if let Some(begin) = key.iter().position(|t| *t == b'{') {
             if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {
-                key = &key[begin + 1..begin + end];
+                // an empty tag is no tag
+                if end > 1 {
+                    key = &key[begin + 1..begin + end];
+                }
             }
         }
         let i = CRC_HASH.checksum(key) & SIZE_MOD;
-- 
2.43.0


From 4310a3f7420141f534eca2082c9eb5dd7615dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 13/48] fix: bound the nesting of request arrays

---
 .../common/src/connection/parse/frame.rs      | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index b37a839..67679e4 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -12,6 +12,10 @@ use nom::{
 
 use crate::float::Float;
 
+/// Arrays nested deeper than this are refused, so that a peer cannot exhaust
+/// the stack.
+const MAX_DEPTH: usize = 32;
+
 /// A frame in the Redis protocol.
 ///
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
@@ -132,7 +136,7 @@ fn parse_bulk(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 }
 
 #[inline]
-fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+fn parse_array(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
     let (i, _) = tag("*")(i)?;
     let (i, len) = map(take_while1(|c| c != b'\r' && c != b'\n'), |int| {
         atoi::atoi::<i64>(int).unwrap_or(0)
@@ -143,7 +147,7 @@ fn parse_array(i: &[u8]) -> nom::IResult<&[u8], Frame> {
     } else {
         let mut res = vec![];
         for _ in 0..len {
-            let (ni, f) = parse_alt(i)?;
+            let (ni, f) = parse_nested(i, depth + 1)?;
             res.push(f);
             i = ni;
         }
@@ -163,12 +167,23 @@ fn parse_ping(i: &[u8]) -> nom::IResult<&[u8], Frame> {
 /// parse failed
 #[inline]
 fn parse_alt(i: &[u8]) -> nom::IResult<&[u8], Frame> {
+    parse_nested(i, 0)
+}
+
+#[inline]
+fn parse_nested(i: &[u8], depth: usize) -> nom::IResult<&[u8], Frame> {
+    if depth > MAX_DEPTH {
+        return Err(nom::Err::Failure(nom::error::Error::new(
+            i,
+            nom::error::ErrorKind::TooLarge,
+        )));
+    }
     alt((
         parse_simple,
         parse_error,
         parse_int,
         parse_bulk,
-        parse_array,
+        |i| parse_array(i, depth),
         parse_ping,
     ))(i)
 }
-- 
2.43.0


From 56fdaa4064cc818c1966a6e25914c707e176cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 14/48] fix: line breaks in a simple string or error do not
 split the reply

---
 .../common/src/connection/parse/frame.rs      | 74 +++++++++----------
 1 file changed, 35 insertions(+), 39 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 67679e4..957d50f 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -202,54 +202,50 @@ pub fn parse(i: &[u8]) -> crate::Result<Option<(usize, Frame)>> {
     }
 }
 
+fn write_bulk(res: &mut Vec<u8>, b: &[u8]) {
+    res.push(b'$');
+    res.extend_from_slice(b.len().to_string().as_bytes());
+    res.extend_from_slice(b"\r\n");
+    res.extend_from_slice(b);
+    res.extend_from_slice(b"\r\n");
+}
+
+/// A simple string cannot carry a line break: send such content as a bulk string.
+fn write_simple(res: &mut Vec<u8>, a: &[u8]) {
+    if a.contains(&b'\r') || a.contains(&b'\n') {
+        return write_bulk(res, a);
+    }
+    res.push(b'+');
+    res.extend_from_slice(a);
+    res.extend_from_slice(b"\r\n");
+}
+
+/// An error cannot carry a line break, which is replaced by a space.
+fn write_error(res: &mut Vec<u8>, a: &[u8]) {
+    res.push(b'-');
+    res.extend(a.iter().map(|c| match c {
+        b'\r' | b'\n' => b' ',
+        c => *c,
+    }));
+    res.extend_from_slice(b"\r\n");
+}
+
 impl Frame<'_> {
     #[inline]
     pub fn write(&self, res: &mut Vec<u8>) {
         match self {
-            Frame::Simple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedSimple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedStringSimple(a) => {
-                res.push(b'+');
-                res.extend_from_slice(a.as_bytes());
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::Error(a) => {
-                res.push(b'-');
-                res.extend_from_slice(a);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedError(a) => {
-                res.push(b'-');
-                res.extend_from_slice(a.as_bytes());
-                res.extend_from_slice(b"\r\n");
-            }
+            Frame::Simple(a) => write_simple(res, a),
+            Frame::OwnedSimple(a) => write_simple(res, a),
+            Frame::OwnedStringSimple(a) => write_simple(res, a.as_bytes()),
+            Frame::Error(a) => write_error(res, a),
+            Frame::OwnedError(a) => write_error(res, a.as_bytes()),
             Frame::Integer(a) => {
                 res.push(b':');
                 res.extend_from_slice(a.to_string().as_bytes());
                 res.extend_from_slice(b"\r\n");
             }
-            Frame::Bulk(b) => {
-                res.push(b'$');
-                res.extend_from_slice(b.len().to_string().as_bytes());
-                res.extend_from_slice(b"\r\n");
-                res.extend_from_slice(b);
-                res.extend_from_slice(b"\r\n");
-            }
-            Frame::OwnedBulk(b) => {
-                res.push(b'$');
-                res.extend_from_slice(b.len().to_string().as_bytes());
-                res.extend_from_slice(b"\r\n");
-                res.extend_from_slice(b);
-                res.extend_from_slice(b"\r\n");
-            }
+            Frame::Bulk(b) => write_bulk(res, b),
+            Frame::OwnedBulk(b) => write_bulk(res, b),
             Frame::Null => res.extend_from_slice(b"$-1\r\n"),
             Frame::Array(a) => {
                 res.push(b'*');
-- 
2.43.0


From 13026ca5fb96733d891fe27a754172ac1e7875fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 15/48] fix: a negative count is refused instead of becoming a
 huge one

---
 component/macros/src/parse_frames.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/component/macros/src/parse_frames.rs b/component/macros/src/parse_frames.rs
index fd0b285..446bcd3 100644
--- a/component/macros/src/parse_frames.rs
+++ b/component/macros/src/parse_frames.rs
@@ -57,8 +57,16 @@ fn parse_simple(field_type: &Type, has_next: bool) -> proc_macro2::TokenStream {
             if *ident == "DataType" {
                 return quote! { crate::frame_parse::next_data_type(parse) };
             }
-            if *ident == "i64" || *ident == "u64" || *ident == "usize" {
-                return quote! { parse.next_int().map(|t|t as #field_type) };
+            if *ident == "i64" {
+                return quote! { parse.next_int() };
+            }
+            if *ident == "u64" || *ident == "usize" {
+                return quote! {
+                    parse.next_int().and_then(|t| {
+                        #field_type::try_from(t)
+                            .map_err(|_| "value is out of range, must be positive".into())
+                    })
+                };
             }
             if *ident == "Float" {
                 return quote! { parse.next_float() };
-- 
2.43.0


From 6d1d1d334ed60cddb9a678a023258a850ebb129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 16/48] fix: a list, hash, set or sorted set that becomes empty
 is removed

---
 component/dict/src/cmd/deque/pop.rs                      | 3 +++
 component/dict/src/cmd/kvp/del.rs                        | 9 +++++----
 component/dict/src/cmd/set/remove.rs                     | 9 +++++----
 component/dict/src/cmd/sorted_set/remove.rs              | 9 +++++----
 component/dict/src/cmd/sorted_set/remove_by_lex_range.rs | 3 +++
 .../dict/src/cmd/sorted_set/remove_by_rank_range.rs      | 3 +++
 .../dict/src/cmd/sorted_set/remove_by_score_range.rs     | 3 +++
 7 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/component/dict/src/cmd/deque/pop.rs b/component/dict/src/cmd/deque/pop.rs
index 439dbde..4b69edd 100644
--- a/component/dict/src/cmd/deque/pop.rs
+++ b/component/dict/src/cmd/deque/pop.rs
@@ -33,6 +33,9 @@ impl<D: Dict> Write<Vec<DataType>, D> for Req {
                     let len = deque.len();
                     deque.drain(len - count..).rev().collect()
                 };
+                if deque.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/kvp/del.rs b/component/dict/src/cmd/kvp/del.rs
index 20e330f..0cd7231 100644
--- a/component/dict/src/cmd/kvp/del.rs
+++ b/component/dict/src/cmd/kvp/del.rs
@@ -36,10 +36,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for f in self.fields {
                     kvp.remove(&f);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: kvp.len(),
-                })
+                let new_len = kvp.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             };
diff --git a/component/dict/src/cmd/set/remove.rs b/component/dict/src/cmd/set/remove.rs
index d803f48..e1d0175 100644
--- a/component/dict/src/cmd/set/remove.rs
+++ b/component/dict/src/cmd/set/remove.rs
@@ -35,10 +35,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                 for ref m in self.members {
                     set.remove(m);
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: set.len(),
-                })
+                let new_len = set.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/remove.rs b/component/dict/src/cmd/sorted_set/remove.rs
index 1fdf352..347ec58 100644
--- a/component/dict/src/cmd/sorted_set/remove.rs
+++ b/component/dict/src/cmd/sorted_set/remove.rs
@@ -36,10 +36,11 @@ impl<D: Dict> Write<Resp, D> for Req {
                         sorted_set.value.remove(on);
                     }
                 }
-                Ok(Resp {
-                    old_len,
-                    new_len: sorted_set.hash.len(),
-                })
+                let new_len = sorted_set.hash.len();
+                if new_len == 0 {
+                    dict.remove(&self.key);
+                }
+                Ok(Resp { old_len, new_len })
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
             }
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index 1d2bc65..dec6d24 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -52,6 +52,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
index eaf0f49..0bc1b46 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_rank_range.rs
@@ -55,6 +55,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index f08e729..f97e5b1 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -51,6 +51,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                         }
                     }
                 }
+                if sorted_set.hash.is_empty() {
+                    dict.remove(&self.key);
+                }
                 Ok(res)
             } else {
                 Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
-- 
2.43.0


From 26efe49af3a86323e07b4ecbdc5658901399d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 17/48] fix: ZADD CH counts the changed members

---
 component/server/src/cmd/sorted_set/zadd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/server/src/cmd/sorted_set/zadd.rs b/component/server/src/cmd/sorted_set/zadd.rs
index 7348575..93134d8 100644
--- a/component/server/src/cmd/sorted_set/zadd.rs
+++ b/component/server/src/cmd/sorted_set/zadd.rs
@@ -32,7 +32,7 @@ impl Zadd {
             incr: self.incr,
         })?;
         if ch {
-            Ok(Frame::Integer(res.new_len as _))
+            Ok(Frame::Integer(res.update_len as _))
         } else {
             Ok(Frame::Integer((res.new_len - res.old_len) as _))
         }
-- 
2.43.0


From de5e2ad70820adf78e2ec71fdbb2c4e536813962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 18/48] fix: ZADD keeps both indexes in step and applies INCR,
 GT, LT and XX to the right members

---
 component/dict/src/cmd/sorted_set/add.rs | 41 +++++++++++++-----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 92659bd..4efcf06 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -40,6 +40,16 @@ impl From<Req> for WriteCmd {
 impl<D: Dict> Write<Resp, D> for Req {
     #[tracing::instrument(skip(dict), level = "debug")]
     fn apply(self, dict: &mut D) -> common::Result<Resp> {
+        if self.incr && self.nodes.len() > 1 {
+            return Err("INCR option supports a single increment-element pair".into());
+        }
+        if matches!(self.nx_xx, NxXx::Xx) && !dict.exists(&self.key) {
+            return Ok(Resp {
+                old_len: 0,
+                new_len: 0,
+                update_len: 0,
+            });
+        }
         let old = dict.get_or_insert_with(self.key, || Value {
             data: DataType::SortedSet(Box::new(SortedSet::new())),
             expires_at: 0,
@@ -49,29 +59,24 @@ impl<D: Dict> Write<Resp, D> for Req {
             let old_len = sorted_set.hash.len();
             let mut update_len = 0;
             for mut node in self.nodes {
-                let can_update = match (self.nx_xx, self.gt_lt) {
-                    (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
-                    (NxXx::Nx, _) => false,
-                    (_, GtLt::Gt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score < node.score)
-                        .is_some(),
-                    (_, GtLt::Lt) => sorted_set
-                        .hash
-                        .get(&node.key)
-                        .filter(|x| x.score > node.score)
-                        .is_some(),
-                    (NxXx::Xx, GtLt::None) => sorted_set.hash.contains_key(&node.key),
-                    (NxXx::None, GtLt::None) => true,
+                let old_score = sorted_set.hash.get(&node.key).map(|on| on.score);
+                if let (true, Some(score)) = (self.incr, old_score) {
+                    node.score.0 += score.0;
+                    if node.score.0.is_nan() {
+                        return Err("resulting score is not a number (NaN)".into());
+                    }
+                }
+                let can_update = match (old_score, self.nx_xx, self.gt_lt) {
+                    (None, NxXx::Xx, _) | (Some(_), NxXx::Nx, _) => false,
+                    (Some(score), _, GtLt::Gt) => score < node.score,
+                    (Some(score), _, GtLt::Lt) => score > node.score,
+                    (Some(score), _, GtLt::None) => score != node.score,
+                    (None, _, _) => true,
                 };
                 if can_update {
                     update_len += 1;
                     if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                         sorted_set.value.remove(&on);
-                        if self.incr {
-                            node.score.0 += on.score.0;
-                        }
                     }
                     sorted_set.value.insert(node);
                 }
-- 
2.43.0


From c0686486b77ad27d50a11c8b315604e68899ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 19/48] fix: a score or score bound that is not a number is
 refused

---
 component/common/src/connection/parse/frame.rs  |  5 +----
 component/common/src/float.rs                   | 13 +++++++++++++
 component/common/src/options/range_cmd_order.rs |  8 +++-----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 957d50f..062b995 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -298,10 +298,7 @@ impl<'a> TryFrom<Frame<'a>> for Float {
             Frame::Bulk(b) | Frame::Simple(b) => {
                 let s = std::str::from_utf8(b)
                     .map_err::<Self::Error, _>(|_| "protocol error".into())?;
-                Ok(Self(
-                    s.parse()
-                        .map_err::<Self::Error, _>(|_| "protocol error".into())?,
-                ))
+                s.parse()
             }
             #[allow(clippy::cast_precision_loss)]
             Frame::Integer(i) => Ok(Self(i as _)),
diff --git a/component/common/src/float.rs b/component/common/src/float.rs
index dc25630..81e4772 100644
--- a/component/common/src/float.rs
+++ b/component/common/src/float.rs
@@ -11,6 +11,19 @@ use serde::{Deserialize, Serialize};
 pub struct Float(pub f64);
 impl Eq for Float {}
 
+impl std::str::FromStr for Float {
+    type Err = crate::Error;
+
+    /// NaN is refused.
+    #[inline]
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s.parse::<f64>() {
+            Ok(f) if !f.is_nan() => Ok(Self(f)),
+            _ => Err("value is not a valid float".into()),
+        }
+    }
+}
+
 impl PartialOrd for Float {
     #[inline]
     #[allow(clippy::float_cmp)]
diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index c3df6bd..8d1d5ad 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -23,12 +23,10 @@ impl RangeCmdOrder {
     /// str not float
     #[inline]
     pub fn parse_float_bound(data: &str) -> crate::Result<Bound<Float>> {
-        let res = if data.len() >= 4 && matches!(&data[..3], "-inf" | "+inf") {
-            Bound::Unbounded
-        } else if let Some(s) = data.strip_prefix('(') {
-            Bound::Excluded(Float(s.parse::<f64>()?))
+        let res = if let Some(s) = data.strip_prefix('(') {
+            Bound::Excluded(s.parse()?)
         } else {
-            Bound::Included(Float(data.parse::<f64>()?))
+            Bound::Included(data.parse()?)
         };
         Ok(res)
     }
-- 
2.43.0


From d24f9dcf8835d4e4f8721a08a574aaa108e1762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 20/48] fix: a lexicographic bound must start with [ or (

---
 component/common/src/options/range_cmd_order.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/component/common/src/options/range_cmd_order.rs b/component/common/src/options/range_cmd_order.rs
index 8d1d5ad..fd47b3e 100644
--- a/component/common/src/options/range_cmd_order.rs
+++ b/component/common/src/options/range_cmd_order.rs
@@ -38,14 +38,15 @@ impl RangeCmdOrder {
         if data.is_empty() {
             return Err("bound invaild".into());
         }
-        let res = if matches!(&data[..1], "-" | "+") {
-            Bound::Unbounded
+        if matches!(data, "-" | "+") {
+            Ok(Bound::Unbounded)
         } else if let Some(s) = data.strip_prefix('(') {
-            Bound::Excluded(s.as_bytes())
+            Ok(Bound::Excluded(s.as_bytes()))
+        } else if let Some(s) = data.strip_prefix('[') {
+            Ok(Bound::Included(s.as_bytes()))
         } else {
-            Bound::Included(data[1..].as_bytes())
-        };
-        Ok(res)
+            Err("bound invaild".into())
+        }
     }
 
     /// # Errors
-- 
2.43.0


From 3772432a9da420f50f41f6de6ed03090ef496679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 21/48] fix: a score range reaches every member of its upper
 score

---
 component/dict/src/cmd/sorted_set/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index 25873b1..fb48d22 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -55,9 +55,14 @@ pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>,
             score: f,
             key: [][..].into(),
         }),
-        range.1.map(|f| Node {
-            score: Float(f.0 + 0.1),
-            key: [][..].into(),
-        }),
+        match range.1 {
+            Bound::Included(f) | Bound::Excluded(f) if f.0 < f64::INFINITY => {
+                Bound::Excluded(Node {
+                    score: Float(f.0.next_up()),
+                    key: [][..].into(),
+                })
+            }
+            _ => Bound::Unbounded,
+        },
     )
 }
-- 
2.43.0


From 2386db57397d6af4927d2fa1d9b3622fd5b6912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 22/48] fix: an empty range of a sorted set selects nothing
 instead of panicking

---
 component/dict/src/cmd/sorted_set/mod.rs             | 12 ++++++++++++
 component/dict/src/cmd/sorted_set/range_by_lex.rs    |  3 +++
 component/dict/src/cmd/sorted_set/range_by_score.rs  |  3 +++
 .../dict/src/cmd/sorted_set/remove_by_lex_range.rs   |  3 +++
 .../dict/src/cmd/sorted_set/remove_by_score_range.rs |  3 +++
 5 files changed, 24 insertions(+)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index fb48d22..feb6b39 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -49,6 +49,18 @@ pub(self) const fn shape_rank(mut start: i64, mut stop: i64, len: usize) -> (usi
     (start as usize, stop as usize + 1)
 }
 
+/// `BTreeSet::range` panics when given such a range.
+pub(self) fn is_empty_range<T: Ord>(range: &(Bound<T>, Bound<T>)) -> bool {
+    match range {
+        (Bound::Included(start), Bound::Included(stop)) => start > stop,
+        (
+            Bound::Included(start) | Bound::Excluded(start),
+            Bound::Included(stop) | Bound::Excluded(stop),
+        ) => start >= stop,
+        _ => false,
+    }
+}
+
 pub(self) fn bigger_range(range: (Bound<Float>, Bound<Float>)) -> (Bound<Node>, Bound<Node>) {
     (
         range.0.map(|f| Node {
diff --git a/component/dict/src/cmd/sorted_set/range_by_lex.rs b/component/dict/src/cmd/sorted_set/range_by_lex.rs
index 3ee316e..4152d2b 100644
--- a/component/dict/src/cmd/sorted_set/range_by_lex.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_lex.rs
@@ -37,6 +37,9 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
                         key: key.into(),
                     }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let (offset, count) = super::shape_limit(self.limit, value.len());
                 let iter = value.range(range);
                 let res = if self.rev {
diff --git a/component/dict/src/cmd/sorted_set/range_by_score.rs b/component/dict/src/cmd/sorted_set/range_by_score.rs
index 4814d67..2745283 100644
--- a/component/dict/src/cmd/sorted_set/range_by_score.rs
+++ b/component/dict/src/cmd/sorted_set/range_by_score.rs
@@ -24,6 +24,9 @@ impl<D: Dict> Read<Vec<data_type::sorted_set::Node>, D> for Req<'_> {
         if let Some(value) = dict.get(self.key) {
             if let DataType::SortedSet(ref ss) = value.data {
                 let value = &ss.value;
+                if super::is_empty_range(&self.range) {
+                    return Ok(vec![]);
+                }
                 let bigger_range = super::bigger_range(self.range);
                 debug!(?bigger_range);
                 let (offset, count) = super::shape_limit(self.limit, value.len());
diff --git a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
index dec6d24..3743ee4 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_lex_range.rs
@@ -34,6 +34,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
                     self.range.0.map(|key| Node { score, key }),
                     self.range.1.map(|key| Node { score, key }),
                 );
+                if super::is_empty_range(&range) {
+                    return Ok(vec![]);
+                }
                 let mut res = vec![];
                 let value_clone = sorted_set.value.clone();
                 let iter = value_clone.range(range);
diff --git a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
index f97e5b1..be8fc57 100644
--- a/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
+++ b/component/dict/src/cmd/sorted_set/remove_by_score_range.rs
@@ -28,6 +28,9 @@ impl<D: Dict> Write<Vec<Node>, D> for Req {
     fn apply(self, dict: &mut D) -> common::Result<Vec<Node>> {
         if let Some(old) = dict.get(&self.key) {
             if let DataType::SortedSet(ref mut sorted_set) = old.data {
+                if super::is_empty_range(&self.range) {
+                    return Ok(vec![]);
+                }
                 let mut res = vec![];
                 let bigger_range = super::bigger_range(self.range);
                 let value_clone = sorted_set.value.clone();
-- 
2.43.0


From 2e051acecd3c314ca47602d99c00f1c1a414eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 23/48] fix: a negative LIMIT offset cannot overflow

---
 component/dict/src/cmd/sorted_set/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/mod.rs b/component/dict/src/cmd/sorted_set/mod.rs
index feb6b39..356829f 100644
--- a/component/dict/src/cmd/sorted_set/mod.rs
+++ b/component/dict/src/cmd/sorted_set/mod.rs
@@ -16,15 +16,11 @@ pub mod remove_by_score_range;
 
 pub(self) fn shape_limit(limit: Limit, len: usize) -> (usize, usize) {
     match limit {
-        Limit::Limit(mut offset, count) => {
-            if offset < 0 {
-                offset = 0.max(len as i64 - offset);
-            }
-            (
-                offset as usize,
-                if count < 0 { len } else { count as usize },
-            )
-        }
+        Limit::Limit(offset, count) => (
+            // a negative offset selects nothing
+            usize::try_from(offset).unwrap_or(len),
+            usize::try_from(count).unwrap_or(len),
+        ),
         Limit::None => (0, len),
     }
 }
-- 
2.43.0


From ac6dc76bfa39219301ba843ec954a7062db436fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:23 +0000
Subject: [PATCH 24/48] fix: RESTORE is forwarded to the followers

---
 component/db/src/slot/replica_update.rs  |  1 +
 component/dict/src/cmd/mod.rs            |  1 +
 component/dict/src/cmd/server/restore.rs | 38 ++++++++++++++++++++++--
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/component/db/src/slot/replica_update.rs b/component/db/src/slot/replica_update.rs
index 0854a6d..462c67c 100644
--- a/component/db/src/slot/replica_update.rs
+++ b/component/db/src/slot/replica_update.rs
@@ -28,6 +28,7 @@ impl Slot {
             cmd::WriteCmd::SortedSetRemoveByRankRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByScoreRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByLexRange(req) => self.call_update(id, req),
+            cmd::WriteCmd::Restore(req) => self.call_expires_update(id, req.borrow()),
             cmd::WriteCmd::None => Ordering::Equal,
         }
     }
diff --git a/component/dict/src/cmd/mod.rs b/component/dict/src/cmd/mod.rs
index 01b1b35..8e4b502 100644
--- a/component/dict/src/cmd/mod.rs
+++ b/component/dict/src/cmd/mod.rs
@@ -81,4 +81,5 @@ pub enum WriteCmd {
     SortedSetRemoveByLexRange(sorted_set::remove_by_lex_range::Req),
     // 心跳返回值也用这个
     None,
+    Restore(server::restore::OwnedReq),
 }
diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 1b78460..09ec330 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -19,9 +19,41 @@ pub struct Req<'a> {
 
 impl<'a> From<Req<'a>> for WriteCmd {
     #[inline]
-    fn from(_req: Req<'a>) -> Self {
-        // todo
-        WriteCmd::None
+    fn from(req: Req<'a>) -> Self {
+        Self::Restore(OwnedReq {
+            key: req.key.into(),
+            value: req.value.into(),
+            expires_at: req.expires_at,
+            replace: req.replace,
+            last_visit_time: req.last_visit_time,
+            freq: req.freq,
+        })
+    }
+}
+
+/// A [`Req`] that can be sent to a follower
+#[derive(Debug, Serialize, Deserialize, Clone)]
+pub struct OwnedReq {
+    pub key: Key,
+    pub value: Vec<u8>,
+    pub expires_at: u64,
+    pub replace: bool,
+    pub last_visit_time: u64,
+    pub freq: u64,
+}
+
+impl OwnedReq {
+    #[inline]
+    #[must_use]
+    pub fn borrow(&self) -> Req<'_> {
+        Req {
+            key: &self.key,
+            value: &self.value,
+            expires_at: self.expires_at,
+            replace: self.replace,
+            last_visit_time: self.last_visit_time,
+            freq: self.freq,
+        }
     }
 }
 
-- 
2.43.0


From 2035392768bc463b1a8c3e25f1e7a354162205df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:07 +0000
Subject: [PATCH 25/48] fix: FLUSHALL is forwarded and does not restart the
 write ids

---
 component/db/src/slot.rs                | 11 ++++++++++-
 component/db/src/slot/replica_update.rs | 15 +++++++++++++++
 component/dict/src/cmd/mod.rs           |  2 ++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index 5589406..e3b7ad6 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -162,8 +162,17 @@ impl Slot {
     pub(crate) fn flush(&self, sync: bool) {
         let mut status = self.share_status.lock();
         if let Some(inner) = &mut *status {
-            let old = std::mem::take(inner);
+            // the write ids go on, the followers rely on them
+            let id = inner.dict.next_id();
+            let old = std::mem::take(&mut inner.dict.inner);
             drop(status);
+            if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
+                id,
+                slot: self.slot_id,
+                cmd: cmd::WriteCmd::Flush,
+            }) {
+                error!("flush: {:?}", e);
+            };
             if !sync {
                 tokio::task::spawn_blocking(|| old);
             }
diff --git a/component/db/src/slot/replica_update.rs b/component/db/src/slot/replica_update.rs
index 462c67c..b274e1c 100644
--- a/component/db/src/slot/replica_update.rs
+++ b/component/db/src/slot/replica_update.rs
@@ -29,10 +29,25 @@ impl Slot {
             cmd::WriteCmd::SortedSetRemoveByScoreRange(req) => self.call_update(id, req),
             cmd::WriteCmd::SortedSetRemoveByLexRange(req) => self.call_update(id, req),
             cmd::WriteCmd::Restore(req) => self.call_expires_update(id, req.borrow()),
+            cmd::WriteCmd::Flush => self.flush_update(id),
             cmd::WriteCmd::None => Ordering::Equal,
         }
     }
 
+    fn flush_update(&self, id: u64) -> Ordering {
+        self.share_status
+            .lock()
+            .as_mut()
+            .map_or(Ordering::Greater, |s| {
+                let res = id.cmp(&(s.dict.last_write_op_id() + 1));
+                if res == Ordering::Equal {
+                    s.dict.set_write_id(id);
+                    s.dict.inner.clear();
+                }
+                res
+            })
+    }
+
     fn call_update<T, C: Write<T, MemDict> + Clone>(&self, id: u64, cmd: C) -> Ordering {
         self.share_status
             .lock()
diff --git a/component/dict/src/cmd/mod.rs b/component/dict/src/cmd/mod.rs
index 8e4b502..8b44fef 100644
--- a/component/dict/src/cmd/mod.rs
+++ b/component/dict/src/cmd/mod.rs
@@ -82,4 +82,6 @@ pub enum WriteCmd {
     // 心跳返回值也用这个
     None,
     Restore(server::restore::OwnedReq),
+    /// remove every key of the slot
+    Flush,
 }
-- 
2.43.0


From 493e077ac5d05222d0324b048c0af73d83a12101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:07 +0000
Subject: [PATCH 26/48] fix: a snapshot request for a slot that does not exist
 is refused

---
 component/server/src/cmd/syncsnapshot.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 4f20c77..af44ef3 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -17,6 +17,10 @@ pub struct SyncSnapshot {
 impl SyncSnapshot {
     #[tracing::instrument(skip(handler))]
     pub fn apply(self, handler: Handler) {
+        if self.slot_id > SLOT_SIZE {
+            error!("slot not exists: {}", self.slot_id);
+            return;
+        }
         // 先拿到需要传输的数据，避免死锁
         let slots = if self.slot_id == SLOT_SIZE as usize {
             // 全部slot
-- 
2.43.0


From 1dfa93a5ba56968e65b91ef337f03a598504dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:07 +0000
Subject: [PATCH 27/48] fix: the snapshot stream carries the slot id as the
 follower reads it

---
 component/server/src/cmd/syncsnapshot.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index af44ef3..46bb939 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -56,7 +56,8 @@ impl SyncSnapshot {
                     let mut stream = stream.into_std()?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
-                            bincode::serialize_into(&mut stream, &Some(id))?;
+                            // the follower reads an `Option<u16>`
+                            bincode::serialize_into(&mut stream, &Some(id as u16))?;
                             bincode::serialize_into(&mut stream, &s.dict)?;
                         }
                     }
-- 
2.43.0


From 78f0654f0373a7aa6c0f7dabcdc70bbd8cc15ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:07 +0000
Subject: [PATCH 28/48] fix: resynchronising one slot of a follower does not
 lock the others

---
 component/db/src/pd_handle/replica.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index f4a47e2..653e86a 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -81,8 +81,12 @@ impl Inner {
     }
 
     fn lock_slot(&self, slot_id: usize) {
-        if slot_id != SLOT_SIZE {}
-        for l in &self.snapshot_lock {
+        let slots = if slot_id == SLOT_SIZE {
+            &self.snapshot_lock[..]
+        } else {
+            std::slice::from_ref(&self.snapshot_lock[slot_id])
+        };
+        for l in slots {
             l.store(true, std::sync::atomic::Ordering::Relaxed);
         }
     }
-- 
2.43.0


From c2a677e56b1a577fc8e3fa1a4fd8904809c78310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:07 +0000
Subject: [PATCH 29/48] fix: a leader's heartbeats carry the ids the pd
 assigned to it

---
 component/db/src/pd_handle/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 46ca38c..62fe795 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -101,7 +101,8 @@ impl PdHandle {
                 self.latest_status = status;
             }
             _ => {
-                // do nothing
+                // nothing to do, but the heartbeats must carry our ids
+                self.latest_status = status;
             }
         }
         Ok(())
-- 
2.43.0


From 4a8d20ba9b192e124d645a80236c2874abbd20a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:51 +0000
Subject: [PATCH 30/48] fix: trailing garbage after a number is not ignored

---
 component/common/src/connection/parse/mod.rs |  4 +---
 component/common/src/lib.rs                  | 10 ++++++++++
 component/dict/src/data_type/mod.rs          |  2 +-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/component/common/src/connection/parse/mod.rs b/component/common/src/connection/parse/mod.rs
index 011a946..e005c26 100644
--- a/component/common/src/connection/parse/mod.rs
+++ b/component/common/src/connection/parse/mod.rs
@@ -147,8 +147,6 @@ impl<'a> Parse<'a> {
     /// returned.
     #[inline]
     pub fn next_int(&self) -> Result<i64, ParseError> {
-        use atoi::atoi;
-
         const INVALID: &str = "protocol error; invalid number";
 
         match self.next_frame()? {
@@ -157,7 +155,7 @@ impl<'a> Parse<'a> {
             // Simple and bulk frames must be parsed as integers. If the parsing
             // fails, an error is returned.
             Frame::Bulk(data) | Frame::Simple(data) => {
-                atoi::<i64>(data).map_or_else(|| Err(INVALID.into()), Ok)
+                crate::parse_i64(data).ok_or_else(|| INVALID.into())
             }
             frame => Err(format!("protocol error; expected int frame but got {:?}", frame).into()),
         }
diff --git a/component/common/src/lib.rs b/component/common/src/lib.rs
index 7094106..41e0fc8 100644
--- a/component/common/src/lib.rs
+++ b/component/common/src/lib.rs
@@ -49,6 +49,16 @@ pub fn now_timestamp_ms() -> u64 {
         .as_millis() as u64
 }
 
+/// The integer written in `text`, or `None` if `text` is not exactly one `i64`.
+#[inline]
+#[must_use]
+pub fn parse_i64(text: &[u8]) -> Option<i64> {
+    use atoi::FromRadix10SignedChecked;
+
+    let (res, used) = i64::from_radix_10_signed_checked(text);
+    res.filter(|_| used == text.len() && text.last().map_or(false, u8::is_ascii_digit))
+}
+
 /// Deadline in ms: `amount` units of `unit_ms` milliseconds after `base_ms`.
 ///
 /// A deadline in the past is valid, but never `0`, which means "no deadline".
diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index 893e199..11a683a 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -58,7 +58,7 @@ impl TryFrom<&DataType> for i64 {
     #[inline]
     fn try_from(value: &DataType) -> Result<Self, Self::Error> {
         let res = match value {
-            DataType::String(b) | DataType::Bytes(b) => atoi::atoi::<i64>(b)
+            DataType::String(b) | DataType::Bytes(b) => common::parse_i64(b)
                 .ok_or_else::<Self::Error, _>(|| {
                     "value is not an integer or out of range".into()
                 })?,
-- 
2.43.0


From 25e491351b0cba4f4560969f6a20712ba179b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 31/48] fix: EXPIRE XX LT leaves a key without deadline alone

---
 component/dict/src/cmd/simple/expire.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/simple/expire.rs b/component/dict/src/cmd/simple/expire.rs
index 11e1735..a0e6728 100644
--- a/component/dict/src/cmd/simple/expire.rs
+++ b/component/dict/src/cmd/simple/expire.rs
@@ -38,11 +38,12 @@ impl<D: Dict> ExpiresOp<bool, D> for Req {
                     {
                         true
                     }
-                    (NxXx::Xx | NxXx::None, GtLt::Lt)
+                    (NxXx::None, GtLt::Lt)
                         if v.expires_at == 0 || v.expires_at > self.expires_at =>
                     {
                         true
                     }
+                    (NxXx::Xx, GtLt::Lt) if v.expires_at > self.expires_at => true,
                     (NxXx::Xx, GtLt::None) if v.expires_at > 0 => true,
                     _ => false,
                 };
-- 
2.43.0


From d37092862264eed9ef01159fb4cc1f43bafaa85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 32/48] verification hook: the slot of a key

---
 component/db/src/verif.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/component/db/src/verif.rs b/component/db/src/verif.rs
index ef1f422..b080525 100644
--- a/component/db/src/verif.rs
+++ b/component/db/src/verif.rs
@@ -10,6 +10,12 @@ pub fn slot_of(db: &Db, key: &[u8]) -> usize {
     db.get_slot(key).slot_id
 }
 
+/// The slot the given key is routed to, itself.
+#[must_use]
+pub fn slot<'a>(db: &'a Db, key: &[u8]) -> &'a Slot {
+    db.get_slot(key)
+}
+
 /// A single slot together with the receiving ends of its background channels.
 #[must_use]
 pub fn lone_slot(
-- 
2.43.0


From 9310e9936f3e98de6f5ffcc3366770caddebaf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:23 +0000
Subject: [PATCH 33/48] fix: RESTORE refuses a payload of nested collections
 instead of overflowing the stack

---
 component/dict/src/data_type/deque.rs | 11 +++++++++--
 component/dict/src/data_type/kvp.rs   | 18 ++++++++++++++----
 component/dict/src/data_type/mod.rs   | 25 +++++++++++++++++++++++++
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/component/dict/src/data_type/deque.rs b/component/dict/src/data_type/deque.rs
index 11dc67b..59a8b8c 100644
--- a/component/dict/src/data_type/deque.rs
+++ b/component/dict/src/data_type/deque.rs
@@ -3,15 +3,22 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
-use crate::data_type::DataType;
+use crate::data_type::{DataType, Scalar};
 
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Default)]
 pub struct Deque {
+    #[serde(deserialize_with = "deserialize_elements")]
     inner: VecDeque<DataType>,
 }
 
+/// An element is never a collection, however deep
+fn deserialize_elements<'de, D: Deserializer<'de>>(d: D) -> Result<VecDeque<DataType>, D::Error> {
+    let elements = VecDeque::<Scalar>::deserialize(d)?;
+    Ok(elements.into_iter().map(Into::into).collect())
+}
+
 impl Deque {
     #[inline]
     #[must_use]
diff --git a/component/dict/src/data_type/kvp.rs b/component/dict/src/data_type/kvp.rs
index aa1e283..45a48df 100644
--- a/component/dict/src/data_type/kvp.rs
+++ b/component/dict/src/data_type/kvp.rs
@@ -3,13 +3,23 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
+
+use crate::data_type::{DataType, Scalar};
+
+type Map<V> = HashMap<Box<[u8]>, V, ahash::RandomState>;
 
-use crate::data_type::DataType;
 /// key value pairs
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, Default)]
 pub struct Kvp {
-    pub inner: HashMap<Box<[u8]>, DataType, ahash::RandomState>,
+    #[serde(deserialize_with = "deserialize_elements")]
+    pub inner: Map<DataType>,
+}
+
+/// A value is never a collection, however deep
+fn deserialize_elements<'de, D: Deserializer<'de>>(d: D) -> Result<Map<DataType>, D::Error> {
+    let elements = Map::<Scalar>::deserialize(d)?;
+    Ok(elements.into_iter().map(|(k, v)| (k, v.into())).collect())
 }
 
 impl Kvp {
@@ -21,7 +31,7 @@ impl Kvp {
 }
 
 impl Deref for Kvp {
-    type Target = HashMap<Box<[u8]>, DataType, ahash::RandomState>;
+    type Target = Map<DataType>;
 
     #[inline]
     fn deref(&self) -> &Self::Target {
diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index 11a683a..5d09012 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -27,6 +27,31 @@ pub enum DataType {
     SortedSet(Box<SortedSet>),
 }
 
+/// 集合类型的元素, 只能是简单类型
+///
+/// The variants are those `DataType` starts with, so that both have the same encoding
+#[derive(Deserialize)]
+enum Scalar {
+    Null,
+    String(Vec<u8>),
+    Bytes(Vec<u8>),
+    Integer(i64),
+    Float(Float),
+}
+
+impl From<Scalar> for DataType {
+    #[inline]
+    fn from(s: Scalar) -> Self {
+        match s {
+            Scalar::Null => DataType::Null,
+            Scalar::String(s) => DataType::String(s),
+            Scalar::Bytes(b) => DataType::Bytes(b),
+            Scalar::Integer(i) => DataType::Integer(i),
+            Scalar::Float(f) => DataType::Float(f),
+        }
+    }
+}
+
 impl From<&[u8]> for DataType {
     #[inline]
     fn from(s: &[u8]) -> Self {
-- 
2.43.0


From 2a1224b3b690ebf364bd7851ce2f42fe89b7b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:23 +0000
Subject: [PATCH 34/48] fix: RESTORE refuses a payload no value can have

---
 component/dict/src/cmd/server/restore.rs |  7 ++++++-
 component/dict/src/data_type/mod.rs      | 23 +++++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/component/dict/src/cmd/server/restore.rs b/component/dict/src/cmd/server/restore.rs
index 09ec330..b8d23b7 100644
--- a/component/dict/src/cmd/server/restore.rs
+++ b/component/dict/src/cmd/server/restore.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     cmd::{ExpiresOp, ExpiresOpResp, ExpiresStatus, ExpiresStatusUpdate, WriteCmd},
+    data_type::DataType,
     Dict, Value,
 };
 
@@ -67,8 +68,12 @@ impl<D: Dict> ExpiresOp<(), D> for Req<'_> {
             }
             before = v.expires_at;
         }
+        let data: DataType = bincode::deserialize(self.value)?;
+        if !data.is_well_formed() {
+            return Err("Bad data format".into());
+        }
         let v = Value {
-            data: bincode::deserialize(self.value)?,
+            data,
             expires_at: self.expires_at,
             visit_log: Value::create_visit_log(
                 self.last_visit_time / 10,
diff --git a/component/dict/src/data_type/mod.rs b/component/dict/src/data_type/mod.rs
index 5d09012..98de569 100644
--- a/component/dict/src/data_type/mod.rs
+++ b/component/dict/src/data_type/mod.rs
@@ -52,6 +52,29 @@ impl From<Scalar> for DataType {
     }
 }
 
+impl DataType {
+    /// Is it a value a command could have made: there is no empty collection, and both sides of a
+    /// sorted set have the same members.
+    #[must_use]
+    pub fn is_well_formed(&self) -> bool {
+        match self {
+            DataType::Null => false,
+            DataType::String(_)
+            | DataType::Bytes(_)
+            | DataType::Integer(_)
+            | DataType::Float(_) => true,
+            DataType::Kvp(k) => !k.is_empty(),
+            DataType::Deque(d) => !d.is_empty(),
+            DataType::Set(s) => !s.is_empty(),
+            DataType::SortedSet(s) => {
+                !s.value.is_empty()
+                    && s.hash.len() == s.value.len()
+                    && s.value.iter().all(|n| s.hash.get(&n.key) == Some(n))
+            }
+        }
+    }
+}
+
 impl From<&[u8]> for DataType {
     #[inline]
     fn from(s: &[u8]) -> Self {
-- 
2.43.0


From a2e06d50292b595c0555d49b6f412c6c9687ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 35/48] fix: a NaN in a RESTORE payload is refused instead of
 panicking

---
 component/common/src/float.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/component/common/src/float.rs b/component/common/src/float.rs
index 81e4772..b18a1fe 100644
--- a/component/common/src/float.rs
+++ b/component/common/src/float.rs
@@ -8,9 +8,24 @@ use serde::{Deserialize, Serialize};
 ///
 /// NaN is not allowed.
 #[derive(Debug, PartialEq, Clone, Copy, Deserialize, Serialize)]
+#[serde(try_from = "f64")]
 pub struct Float(pub f64);
 impl Eq for Float {}
 
+impl TryFrom<f64> for Float {
+    type Error = &'static str;
+
+    /// NaN is refused.
+    #[inline]
+    fn try_from(f: f64) -> Result<Self, Self::Error> {
+        if f.is_nan() {
+            Err("NaN is not a valid float")
+        } else {
+            Ok(Self(f))
+        }
+    }
+}
+
 impl std::str::FromStr for Float {
     type Err = crate::Error;
 
-- 
2.43.0


From 31840c6daa6ee9589b921263c2b961e1d6aae3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 36/48] fix: only ASCII letters of names and options have a
 case

---
 component/common/src/connection/parse/frame.rs | 2 +-
 component/server/src/cmd/mod.rs                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/common/src/connection/parse/frame.rs b/component/common/src/connection/parse/frame.rs
index 062b995..b9d875c 100644
--- a/component/common/src/connection/parse/frame.rs
+++ b/component/common/src/connection/parse/frame.rs
@@ -282,7 +282,7 @@ impl<'a> TryFrom<Frame<'a>> for &'a str {
 pub fn to_lowercase_str(frame: &Frame<'_>) -> crate::Result<String> {
     match frame {
         Frame::Bulk(data) | Frame::Simple(data) => std::str::from_utf8(data)
-            .map(str::to_lowercase)
+            .map(str::to_ascii_lowercase)
             .map_err(|_| "protocol error; invalid string".into()),
         Frame::Ping => Ok("PING".to_lowercase()),
         frame => Err(format!("protocol error; got {:?}", frame).into()),
diff --git a/component/server/src/cmd/mod.rs b/component/server/src/cmd/mod.rs
index 02b9d5f..5ef279b 100644
--- a/component/server/src/cmd/mod.rs
+++ b/component/server/src/cmd/mod.rs
@@ -138,7 +138,7 @@ impl<'a> Command<'a> {
         // All redis commands begin with the command name as a string. The name
         // is read and converted to lower cases in order to do case sensitive
         // matching.
-        let command_name = parse.next_string()?.to_lowercase();
+        let command_name = parse.next_string()?.to_ascii_lowercase();
 
         let parse_ref = unsafe { &*std::ptr::addr_of!(parse) };
 
-- 
2.43.0


From d0f0a01d914ebe06905a2021d5eda171cb5e82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:46 +0000
Subject: [PATCH 37/48] fix: RESTORE refuses a negative FREQ or IDLETIME

---
 component/common/src/options/freq.rs     | 5 ++++-
 component/common/src/options/idletime.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/component/common/src/options/freq.rs b/component/common/src/options/freq.rs
index 38dacb7..983ab08 100644
--- a/component/common/src/options/freq.rs
+++ b/component/common/src/options/freq.rs
@@ -22,7 +22,10 @@ impl Freq {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "freq" => Some(Self::Some(parse.next_int()? as _)),
+            "freq" => Some(Self::Some(
+                u64::try_from(parse.next_int()?)
+                    .map_err(|_| "Invalid FREQ value, must be >= 0")?,
+            )),
             _ => None,
         };
         Ok(res)
diff --git a/component/common/src/options/idletime.rs b/component/common/src/options/idletime.rs
index 88e4892..866588c 100644
--- a/component/common/src/options/idletime.rs
+++ b/component/common/src/options/idletime.rs
@@ -22,7 +22,10 @@ impl IdleTime {
         parse: &crate::connection::parse::Parse,
     ) -> crate::Result<Option<Self>> {
         let res = match tag {
-            "idletime" => Some(Self::Some(parse.next_int()? as _)),
+            "idletime" => Some(Self::Some(
+                u64::try_from(parse.next_int()?)
+                    .map_err(|_| "Invalid IDLETIME value, must be >= 0")?,
+            )),
             _ => None,
         };
         Ok(res)
-- 
2.43.0


From 5ed8c988504fb5dc2a0d3d29fb9e453cbb385c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:01 +0000
Subject: [PATCH 38/48] fix: subcommands of OBJECT and DEBUG in any letter case

---
 component/server/src/cmd/others/debug.rs  | 2 +-
 component/server/src/cmd/others/object.rs | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/component/server/src/cmd/others/debug.rs b/component/server/src/cmd/others/debug.rs
index 5195eb5..a2f5abe 100644
--- a/component/server/src/cmd/others/debug.rs
+++ b/component/server/src/cmd/others/debug.rs
@@ -13,7 +13,7 @@ pub struct Debug<'a> {
 impl Debug<'_> {
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        if self.sub_cmd == b"object"
+        if self.sub_cmd.eq_ignore_ascii_case(b"object")
             && !db.exists(dict::cmd::simple::exists::Req {
                 key: self.payload[0],
             })?
diff --git a/component/server/src/cmd/others/object.rs b/component/server/src/cmd/others/object.rs
index 84630c7..c8cac52 100644
--- a/component/server/src/cmd/others/object.rs
+++ b/component/server/src/cmd/others/object.rs
@@ -15,8 +15,7 @@ impl Object<'_> {
     #[allow(unused_variables)]
     #[tracing::instrument(skip(self, db), level = "debug")]
     pub fn apply(self, db: &Db) -> common::Result<Frame> {
-        // todo ignore case
-        if self.sub_cmd == b"IDLETIME" || self.sub_cmd == b"idletime" {
+        if self.sub_cmd.eq_ignore_ascii_case(b"idletime") {
             return if self.payload.is_empty() {
                 Err("idletiem key not exists".into())
             } else if let Some(u) =
@@ -32,8 +31,7 @@ impl Object<'_> {
                 Err("idletiem key not exists".into())
             };
         }
-        // todo ignore case
-        if self.sub_cmd == b"FREQ" || self.sub_cmd == b"freq" {
+        if self.sub_cmd.eq_ignore_ascii_case(b"freq") {
             return if self.payload.is_empty() {
                 Err("freq key not exists".into())
             } else if let Some(u) = db.get_visit_times(dict::cmd::simple::get_visit_times::Req {
-- 
2.43.0


From bce217bd695bbc42cb95539f6eef3de5d58003fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 39/48] verification hooks: the accept loop and a follower's
 replication

---
 component/db/src/pd_handle/mod.rs     |  2 +
 component/db/src/pd_handle/replica.rs | 54 +++++++++++++++++++++++++++
 component/db/src/verif.rs             |  1 +
 component/server/src/verif.rs         | 16 +++++++-
 4 files changed, 72 insertions(+), 1 deletion(-)

diff --git a/component/db/src/pd_handle/mod.rs b/component/db/src/pd_handle/mod.rs
index 62fe795..736f2ca 100644
--- a/component/db/src/pd_handle/mod.rs
+++ b/component/db/src/pd_handle/mod.rs
@@ -1,4 +1,6 @@
 mod replica;
+#[cfg(rudis_verif)]
+pub use replica::verif::Replica;
 
 use std::{sync::Arc, time::Duration};
 
diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 653e86a..442f50e 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -182,3 +182,57 @@ fn receive_cmd(
         tx.send(message)?;
     }
 }
+
+/// Access to private items for the verification harness.
+#[cfg(rudis_verif)]
+pub mod verif {
+    use super::{Arc, Db, Inner, LeaderInfo, Message, Task};
+
+    /// A follower's replication.
+    #[derive(Clone)]
+    pub struct Replica(Arc<Inner>);
+
+    impl Replica {
+        /// The replication of this database, without a leader.
+        #[must_use]
+        pub fn new(db: Arc<Db>) -> Self {
+            Self(Task::new(db).inner)
+        }
+
+        /// Follow this leader.
+        pub fn follow(&self, leader: LeaderInfo) {
+            *self.0.leader.lock() = Some(leader);
+        }
+
+        /// Wait for the slot's snapshot and load it, on this thread.
+        pub fn load(&self, slot_id: usize) -> common::Result<()> {
+            self.0.lock_slot(slot_id);
+            self.0.sync_snapshot_without_lock(slot_id)
+        }
+
+        /// Start to load the slot's snapshot in the background.
+        pub fn sync(&self, slot_id: usize) -> common::Result<()> {
+            self.0.clone().sync_snapshot(slot_id)
+        }
+
+        /// Does this slot wait for a snapshot?
+        #[must_use]
+        pub fn waits(&self, slot_id: usize) -> bool {
+            self.0.snapshot_lock[slot_id].load(std::sync::atomic::Ordering::Acquire)
+        }
+
+        /// Process the messages sent to the returned end, in the background.
+        #[must_use]
+        pub fn process(&self) -> flume::Sender<Message> {
+            let (tx, rx) = flume::unbounded();
+            self.0.cmd_rx.store(Some(Arc::new(rx)));
+            tokio::spawn(self.0.clone().process_cmd());
+            tx
+        }
+
+        /// Connect to the leader and process its messages, in the background.
+        pub fn sync_cmd(&self) -> common::Result<()> {
+            self.0.clone().sync_cmd()
+        }
+    }
+}
diff --git a/component/db/src/verif.rs b/component/db/src/verif.rs
index b080525..07d63d6 100644
--- a/component/db/src/verif.rs
+++ b/component/db/src/verif.rs
@@ -2,6 +2,7 @@
 //!
 //! Nothing here is compiled in a normal build.
 
+pub use crate::pd_handle::Replica;
 use crate::{expire, forward, slot::Slot, BgTask, Db};
 
 /// The slot the given key is routed to.
diff --git a/component/server/src/verif.rs b/component/server/src/verif.rs
index 68a27a5..8a17d35 100644
--- a/component/server/src/verif.rs
+++ b/component/server/src/verif.rs
@@ -8,7 +8,7 @@ use common::connection::Connection;
 use db::Db;
 
 pub use crate::cmd::Command;
-use crate::{limit::Limit, Handler};
+use crate::{limit::Limit, Handler, Listener};
 
 /// The real per-connection loop, on the given connection.
 pub async fn serve(db: Arc<Db>, connection: Connection) -> common::Result<()> {
@@ -22,6 +22,20 @@ pub async fn serve(db: Arc<Db>, connection: Connection) -> common::Result<()> {
     handler.run().await
 }
 
+/// The real accept loop, on the given listener, with that many connections at once.
+pub async fn listen(
+    db: Arc<Db>,
+    listener: tokio::net::TcpListener,
+    permits: usize,
+) -> common::Result<()> {
+    let mut listener = Listener {
+        db,
+        listener,
+        limit_connections: Limit::new(permits),
+    };
+    listener.run().await
+}
+
 /// A connection limiter with `permits` permits; returns how many are free.
 #[must_use]
 pub fn limiter(permits: usize) -> Limiter {
-- 
2.43.0


From 545c1abb66950cb0505bbd3d4cdba4bf141eb10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 40/48] fix: a snapshot larger than the send buffer arrives
 whole

---
 component/server/src/cmd/syncsnapshot.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/component/server/src/cmd/syncsnapshot.rs b/component/server/src/cmd/syncsnapshot.rs
index 46bb939..4e974e1 100644
--- a/component/server/src/cmd/syncsnapshot.rs
+++ b/component/server/src/cmd/syncsnapshot.rs
@@ -54,6 +54,8 @@ impl SyncSnapshot {
                 // parent restarts it can bind/lock despite the child possibly still running.
                 let run = |stream: TcpStream| -> common::Result<()> {
                     let mut stream = stream.into_std()?;
+                    // a snapshot may be larger than the send buffer
+                    stream.set_nonblocking(false)?;
                     for (id, s) in slots {
                         if let Some(s) = &*s {
                             // the follower reads an `Option<u16>`
-- 
2.43.0


From c97f76d9d102e20c7d46c90aea899753e4c455b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 41/48] fix: a follower whose snapshot fails asks for it again

---
 component/db/src/pd_handle/replica.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 442f50e..195445f 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -51,9 +51,16 @@ impl Inner {
         self.lock_slot(slot_id);
 
         tokio::task::spawn_blocking(move || {
-            if let Err(e) = self.sync_snapshot_without_lock(slot_id) {
-                error!("sync_snapshot error: {:?}", e);
+            // the slots wait until their snapshot is here, or there is nobody to follow
+            while self.leader.lock().is_some() {
+                match self.sync_snapshot_without_lock(slot_id) {
+                    Ok(()) => return,
+                    Err(e) => error!("sync_snapshot error: {:?}", e),
+                }
+                std::thread::sleep(Duration::from_secs(1));
             }
+            self.snapshot_syncing
+                .store(false, std::sync::atomic::Ordering::Release);
         });
 
         Ok(())
@@ -160,6 +167,7 @@ impl Task {
 
     pub fn close_sync_cmd(&self) {
         self.inner.cmd_rx.store(None);
+        self.update_leader(None);
     }
     pub fn sync_cmd(&self) -> common::Result<()> {
         self.inner.clone().sync_cmd()
-- 
2.43.0


From f3491e44599a98554e3b075b2f3fead973cc80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 42/48] fix: the end of a leader's messages does not occupy a
 follower's thread forever

---
 component/db/src/pd_handle/replica.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 195445f..b9e7ee8 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -116,6 +116,9 @@ impl Inner {
                             break;
                         }
                     }
+                } else {
+                    // the stream of messages has ended
+                    return;
                 }
             } else {
                 return;
-- 
2.43.0


From 89e7a1163f1d2db1f7c48b31e81db3f5c7761007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:37 +0000
Subject: [PATCH 43/48] fix: ZADD XX counts as one visit of the key

---
 component/dict/src/cmd/sorted_set/add.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/component/dict/src/cmd/sorted_set/add.rs b/component/dict/src/cmd/sorted_set/add.rs
index 4efcf06..e423f88 100644
--- a/component/dict/src/cmd/sorted_set/add.rs
+++ b/component/dict/src/cmd/sorted_set/add.rs
@@ -1,4 +1,7 @@
-use common::options::{GtLt, NxXx};
+use common::{
+    now_timestamp_ms,
+    options::{GtLt, NxXx},
+};
 use keys::Key;
 use serde::{Deserialize, Serialize};
 
@@ -43,7 +46,12 @@ impl<D: Dict> Write<Resp, D> for Req {
         if self.incr && self.nodes.len() > 1 {
             return Err("INCR option supports a single increment-element pair".into());
         }
-        if matches!(self.nx_xx, NxXx::Xx) && !dict.exists(&self.key) {
+        // looking whether the key exists is not another visit
+        let absent = || {
+            dict.raw_get(&self.key)
+                .map_or(true, |v| v.expires_at > 0 && v.expires_at <= now_timestamp_ms())
+        };
+        if matches!(self.nx_xx, NxXx::Xx) && absent() {
             return Ok(Resp {
                 old_len: 0,
                 new_len: 0,
-- 
2.43.0


From 34eb0ee0ca9db5f07eb5b515f9a0f1f7ec6dbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 44/48] fix: the expiry task learns of the deadlines of a key
 in the order in which they changed

---
 component/db/src/slot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/component/db/src/slot.rs b/component/db/src/slot.rs
index e3b7ad6..9859245 100644
--- a/component/db/src/slot.rs
+++ b/component/db/src/slot.rs
@@ -103,8 +103,8 @@ impl Slot {
     fn call_expires_write<T, C: ExpiresOp<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
         let cc = cmd.clone();
         // 加锁执行命令
+        let mut share_status = self.share_status.lock();
         let (res, id) = {
-            let mut share_status = self.share_status.lock();
             let s = match &mut *share_status {
                 Some(s) => s,
                 None => return Err("slot not support".into()),
@@ -137,6 +137,8 @@ impl Slot {
             }
             Err(e) => Err(e),
         };
+        // the expiry task has to learn of the deadlines in the order in which they changed
+        drop(share_status);
 
         // 转发执行完成的请求
         if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
-- 
2.43.0


From edb8341fa0fe3b13f02012066eb6ee1b25e24c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:07 +0000
Subject: [PATCH 45/48] verification hook: a round of the expiry task

---
 component/db/src/expire.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/component/db/src/expire.rs b/component/db/src/expire.rs
index 6eaffaf..c8e9ab0 100644
--- a/component/db/src/expire.rs
+++ b/component/db/src/expire.rs
@@ -173,6 +173,12 @@ impl Expiration {
     }
 }
 
+/// One round of the expiry task, for the verification harness.
+#[cfg(rudis_verif)]
+pub fn purge(db: &Db) -> u64 {
+    Expiration::purge_expired_keys(&db.expiration_data, db)
+}
+
 pub fn scan_all(db: &Db) {
     db.expiration_data.lock().retain(|entry| {
         let slot = db.get_slot_by_id(entry.slot);
-- 
2.43.0


From aa95df1f4e2db12abada34cb1ede07da9dd4e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 46/48] verification hook: following the placement driver

---
 component/db/src/verif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component/db/src/verif.rs b/component/db/src/verif.rs
index 07d63d6..ddb5718 100644
--- a/component/db/src/verif.rs
+++ b/component/db/src/verif.rs
@@ -2,7 +2,7 @@
 //!
 //! Nothing here is compiled in a normal build.
 
-pub use crate::pd_handle::Replica;
+pub use crate::pd_handle::{run as follow_pd, Replica};
 use crate::{expire, forward, slot::Slot, BgTask, Db};
 
 /// The slot the given key is routed to.
-- 
2.43.0


From 9a1cfeafb0324ccb88c6fc10eb49cab31fd82464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 47/48] fix: the messages of a former leader are not applied
 once another is followed, or none

---
 component/db/src/pd_handle/replica.rs | 53 +++++++++++++--------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index b9e7ee8..2456897 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -31,8 +31,9 @@ struct Inner {
 impl Inner {
     async fn wait_slot(&self, slot_id: usize) {
         loop {
+            let updated = self.notify_lock_update.notified();
             if self.snapshot_lock[slot_id].load(std::sync::atomic::Ordering::Acquire) {
-                self.notify_lock_update.notified().await;
+                updated.await;
             } else {
                 break;
             }
@@ -83,7 +84,7 @@ impl Inner {
         }
         self.snapshot_syncing
             .store(false, std::sync::atomic::Ordering::Release);
-        self.notify_lock_update.notify_one();
+        self.notify_lock_update.notify_waiters();
         Ok(())
     }
 
@@ -98,30 +99,26 @@ impl Inner {
         }
     }
 
-    async fn process_cmd(self: Arc<Self>) {
-        loop {
-            if let Some(rx) = self.cmd_rx.load().as_ref() {
-                if let Ok(msg) = rx.recv_async().await {
-                    let slot_id = msg.slot;
-                    loop {
-                        self.wait_slot(slot_id).await;
-                        if std::cmp::Ordering::Greater
-                            == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
-                        {
-                            if let Err(e) = self.clone().sync_snapshot(slot_id) {
-                                warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
-                                tokio::time::sleep(Duration::from_secs(1)).await;
-                            }
-                        } else {
-                            break;
-                        }
+    async fn process_cmd(self: Arc<Self>, rx: Arc<flume::Receiver<Message>>) {
+        // the messages of a former leader are not for us
+        let current = || matches!(&*self.cmd_rx.load(), Some(c) if Arc::ptr_eq(c, &rx));
+        while let Ok(msg) = rx.recv_async().await {
+            let slot_id = msg.slot;
+            loop {
+                self.wait_slot(slot_id).await;
+                if !current() {
+                    return;
+                }
+                if std::cmp::Ordering::Greater
+                    == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
+                {
+                    if let Err(e) = self.clone().sync_snapshot(slot_id) {
+                        warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
+                        tokio::time::sleep(Duration::from_secs(1)).await;
                     }
                 } else {
-                    // the stream of messages has ended
-                    return;
+                    break;
                 }
-            } else {
-                return;
             }
         }
     }
@@ -137,8 +134,9 @@ impl Inner {
                 error!("sync_cmd error: {:?}", e);
             }
         });
-        self.cmd_rx.store(Some(Arc::new(rx)));
-        tokio::spawn(self.process_cmd());
+        let rx = Arc::new(rx);
+        self.cmd_rx.store(Some(rx.clone()));
+        tokio::spawn(self.process_cmd(rx));
         Ok(())
     }
 }
@@ -236,8 +234,9 @@ pub mod verif {
         #[must_use]
         pub fn process(&self) -> flume::Sender<Message> {
             let (tx, rx) = flume::unbounded();
-            self.0.cmd_rx.store(Some(Arc::new(rx)));
-            tokio::spawn(self.0.clone().process_cmd());
+            let rx = Arc::new(rx);
+            self.0.cmd_rx.store(Some(rx.clone()));
+            tokio::spawn(self.0.clone().process_cmd(rx));
             tx
         }
 
-- 
2.43.0


From dd7060e3c549af96fc8dabd6ad580ebbebc233b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:06 +0000
Subject: [PATCH 48/48] fix: a follower whose connection for messages ends
 connects again

---
 component/db/src/pd_handle/replica.rs | 30 ++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/component/db/src/pd_handle/replica.rs b/component/db/src/pd_handle/replica.rs
index 2456897..d22dc20 100644
--- a/component/db/src/pd_handle/replica.rs
+++ b/component/db/src/pd_handle/replica.rs
@@ -125,14 +125,28 @@ impl Inner {
 
     fn sync_cmd(self: Arc<Self>) -> common::Result<()> {
         let (tx, rx) = flume::unbounded();
-        let mut stream =
-            TcpStream::connect(self.leader.lock().ok_or("leader is none")?.forward_addr)?;
-        stream.write_all(SYNC_CMD)?;
-        let stream = BufReader::new(stream);
-        tokio::task::spawn_blocking(move || {
+        let leader = self.leader.lock().ok_or("leader is none")?;
+        let mut stream = connect_cmd(&leader)?;
+        let inner = self.clone();
+        tokio::task::spawn_blocking(move || loop {
             if let Err(e) = receive_cmd(&tx, stream) {
                 error!("sync_cmd error: {:?}", e);
             }
+            // connect again, as long as this is the leader, and make up for the messages missed
+            stream = loop {
+                std::thread::sleep(Duration::from_secs(1));
+                if tx.is_disconnected() || *inner.leader.lock() != Some(leader) {
+                    return;
+                }
+                let stream = connect_cmd(&leader).and_then(|s| {
+                    inner.clone().sync_snapshot(SLOT_SIZE)?;
+                    Ok(s)
+                });
+                match stream {
+                    Ok(s) => break s,
+                    Err(e) => error!("sync_cmd error: {:?}", e),
+                }
+            };
         });
         let rx = Arc::new(rx);
         self.cmd_rx.store(Some(rx.clone()));
@@ -175,6 +189,12 @@ impl Task {
     }
 }
 
+fn connect_cmd(leader: &LeaderInfo) -> common::Result<BufReader<TcpStream>> {
+    let mut stream = TcpStream::connect(leader.forward_addr)?;
+    stream.write_all(SYNC_CMD)?;
+    Ok(BufReader::new(stream))
+}
+
 fn receive_cmd(
     tx: &flume::Sender<Message>,
     mut stream: BufReader<TcpStream>,
-- 
2.43.0

