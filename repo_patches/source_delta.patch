From 987eecec850e41b0dfeb2baf0179e73733bbb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 01/24] hooks: model checking access behind cfg(vp_mc)

---
 common/src/lib.rs    |  2 ++
 common/src/mc.rs     | 86 ++++++++++++++++++++++++++++++++++++++++++++
 common/src/random.rs |  2 ++
 src/lib.rs           | 11 ++++++
 src/torrent.rs       | 27 ++++++++++++++
 5 files changed, 128 insertions(+)
 create mode 100644 common/src/mc.rs

diff --git a/common/src/lib.rs b/common/src/lib.rs
index add75cf..6e2d933 100644
--- a/common/src/lib.rs
+++ b/common/src/lib.rs
@@ -1,6 +1,8 @@
 pub mod bloom_filter;
 pub mod ed25519;
 pub mod hex;
+#[cfg(vp_mc)]
+pub mod mc;
 pub mod random;
 pub mod sha1;
 pub mod types;
diff --git a/common/src/mc.rs b/common/src/mc.rs
new file mode 100644
index 0000000..491187a
--- /dev/null
+++ b/common/src/mc.rs
@@ -0,0 +1,86 @@
+//! Stand-in for the `rand` crate root, compiled only with `--cfg vp_mc`: lets a
+//! model checker decide every answer of the random source. Without a script
+//! installed it behaves like `rand`.
+
+pub use ::rand::*;
+
+use std::cell::RefCell;
+
+/// Called with `Some(n)` for a uniform choice among `n` values (the answer must
+/// be below `n`) and with `None` for 64 raw bits.
+pub type Script = Box<dyn FnMut(Option<u64>) -> u64>;
+
+thread_local! {
+    static SCRIPT: RefCell<Option<Script>> = RefCell::new(None);
+}
+
+/// Installs the script for this thread, returning the previous one.
+pub fn install(script: Option<Script>) -> Option<Script> {
+    SCRIPT.with(|s| std::mem::replace(&mut *s.borrow_mut(), script))
+}
+
+fn ask(n: Option<u64>) -> Option<u64> {
+    SCRIPT.with(|s| s.borrow_mut().as_mut().map(|f| f(n)))
+}
+
+pub struct ScriptedRng(::rand::rngs::ThreadRng);
+
+pub fn thread_rng() -> ScriptedRng {
+    ScriptedRng(::rand::thread_rng())
+}
+
+pub trait Bound: Copy {
+    fn offset(low: Self, high: Self, rng: &mut ScriptedRng) -> Self;
+}
+
+macro_rules! bound {
+    ($($ty: ty),*) => {
+        $(
+            impl Bound for $ty {
+                fn offset(low: Self, high: Self, rng: &mut ScriptedRng) -> Self {
+                    assert!(low < high, "gen_range called with low >= high");
+                    match ask(Some(high.wrapping_sub(low) as u64)) {
+                        Some(n) => low.wrapping_add(n as $ty),
+                        None => Rng::gen_range(&mut rng.0, low, high),
+                    }
+                }
+            }
+        )*
+    };
+}
+
+bound!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
+
+impl ScriptedRng {
+    pub fn gen_range<T: Bound>(&mut self, low: T, high: T) -> T {
+        T::offset(low, high, self)
+    }
+}
+
+impl RngCore for ScriptedRng {
+    fn next_u32(&mut self) -> u32 {
+        match ask(None) {
+            Some(n) => (n >> 32) as u32,
+            None => self.0.next_u32(),
+        }
+    }
+
+    fn next_u64(&mut self) -> u64 {
+        match ask(None) {
+            Some(n) => n,
+            None => self.0.next_u64(),
+        }
+    }
+
+    fn fill_bytes(&mut self, dest: &mut [u8]) {
+        for chunk in dest.chunks_mut(8) {
+            let bytes = self.next_u64().to_le_bytes();
+            chunk.copy_from_slice(&bytes[..chunk.len()]);
+        }
+    }
+
+    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
+        self.fill_bytes(dest);
+        Ok(())
+    }
+}
diff --git a/common/src/random.rs b/common/src/random.rs
index e895e28..33cd34c 100644
--- a/common/src/random.rs
+++ b/common/src/random.rs
@@ -1,3 +1,5 @@
+#[cfg(vp_mc)]
+use crate::mc as rand;
 use rand::{Rng, RngCore};
 
 pub fn random_usize(max: usize) -> usize {
diff --git a/src/lib.rs b/src/lib.rs
index 0a9c04e..535bb14 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,14 @@ mod params;
 mod status;
 mod str_utl;
 mod torrent;
+
+/// Re-exports for the model checking harnesses, compiled only with `--cfg vp_mc`.
+#[cfg(vp_mc)]
+pub mod mc {
+    pub use crate::download_priority::*;
+    pub use crate::error::*;
+    pub use crate::magnet_uri::*;
+    pub use crate::params::*;
+    pub use crate::str_utl::*;
+    pub use crate::torrent::*;
+}
diff --git a/src/torrent.rs b/src/torrent.rs
index 2e948b0..17c8599 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -86,6 +86,33 @@ impl Torrent {
     }
 }
 
+/// Access for the model checking harnesses, compiled only with `--cfg vp_mc`.
+#[cfg(vp_mc)]
+impl Torrent {
+    pub fn mc_parse(bytes: &[u8]) -> Option<Self> {
+        Self::parse(bytes)
+    }
+
+    /// (announce url, name, piece length, piece hashes, is single file, files)
+    #[allow(clippy::type_complexity)]
+    pub fn mc_view(&self) -> (String, Option<String>, usize, Vec<u8>, bool, Vec<(PathBuf, usize)>) {
+        let (single, files) = match &self.kind {
+            TorrentKind::File(f) => (true, vec![(f.path.clone(), f.len)]),
+            TorrentKind::Directory(d) => {
+                (false, d.iter().map(|f| (f.path.clone(), f.len)).collect())
+            }
+        };
+        (
+            self.announce_url.to_string(),
+            self.name.clone(),
+            self.piece_len,
+            self.pieces.clone(),
+            single,
+            files,
+        )
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From a6beea3b9d9e68dbcc91a4f8d770adccedfc7e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 02/24] fix: decode an empty byte string at the end of the
 input

---
 bencode/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/src/reader.rs b/bencode/src/reader.rs
index 3d71786..2855e9a 100644
--- a/bencode/src/reader.rs
+++ b/bencode/src/reader.rs
@@ -53,7 +53,7 @@ impl<'a> Reader<'a> {
 
     pub fn read_exact(&mut self, len: usize) -> Result<&'a [u8]> {
         let end_index = self.curr_idx + len;
-        if self.curr_idx >= self.buf.len() || end_index > self.buf.len() {
+        if end_index > self.buf.len() {
             self.curr_idx = self.buf.len();
             return Err(Error::EOF);
         }
-- 
2.43.0


From c7255337a7484264e3c8fc6a5fd51781cf69b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 03/24] fix: combine both digits when decoding hex

---
 common/src/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/hex.rs b/common/src/hex.rs
index cd72731..e76042b 100644
--- a/common/src/hex.rs
+++ b/common/src/hex.rs
@@ -30,7 +30,7 @@ pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> {
         }
         let t2 = hex_to_int(s[i])? & 0xf;
         i += 1;
-        out[j] = t1 & t2;
+        out[j] = t1 | t2;
         j += 1;
     }
     Some(())
-- 
2.43.0


From 7fc98e082259dcdeb4f7e2c89c8d82db938aa566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 04/24] fix: shift ids without touching memory outside them

---
 common/src/sha1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 911004c..64bb913 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -125,7 +125,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data[shift_bytes..].as_mut_ptr(),
                     self.data.as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[(SIZE - shift_bytes)..]
@@ -162,7 +162,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data.as_mut_ptr(),
                     self.data[shift_bytes..].as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
-- 
2.43.0


From 04940b8fbc449a2bec8ea04ad5ad41c7f893f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 05/24] fix: give identical ids the distance exponent 0 instead
 of underflowing

---
 dht/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/node.rs b/dht/src/node.rs
index 6972fcc..c3b0130 100644
--- a/dht/src/node.rs
+++ b/dht/src/node.rs
@@ -20,7 +20,7 @@ pub fn distance_exp(n1: &NodeId, n2: &NodeId) -> usize {
     // TODO: it's a little bit weird to return 159 - leading zeroes. It should
     // probably be 160 - leading zeroes, but all other code in here is tuned to
     // this expectation now, and it doesn't really matter (other than complexity)
-    cmp::max(159 - distance(n1, n2).leading_zeros(), 0)
+    159usize.saturating_sub(distance(n1, n2).leading_zeros())
 }
 
 pub fn min_distance_exp(n1: &NodeId, ids: &[NodeId]) -> usize {
-- 
2.43.0


From 1abf5d07a68af0bfdbeb68b0b179cae720cd23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 06/24] fix: stop the lower bound search at the first value not
 below

---
 dht/src/detail.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/detail.rs b/dht/src/detail.rs
index 87502f6..890ccfc 100644
--- a/dht/src/detail.rs
+++ b/dht/src/detail.rs
@@ -52,7 +52,7 @@ pub fn read_v6_socket_address<R: io::Read>(reader: &mut R) -> io::Result<SocketA
 pub fn lower_bound<T: PartialOrd>(values: &[T], value_to_check: &T) -> usize {
     let mut i = 0;
     for v in values {
-        if value_to_check > v {
+        if value_to_check <= v {
             break;
         }
         i += 1;
-- 
2.43.0


From ed6ed6355f9f3bcf03d9f3e4cc08c1de89888348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 07/24] fix: ignore settings that are not integers when loading

---
 dht/src/settings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index dba05c0..f145d5e 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -36,16 +36,16 @@ pub struct Settings {
 
 macro_rules! read_int {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() as usize;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value as usize;
         }
     };
 }
 
 macro_rules! read_bool {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() != 0;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value != 0;
         }
     };
 }
-- 
2.43.0


From 15369ec3566dd7cfa9afe93cf473d068a508dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 08/24] fix: save and restore the three forgotten settings

---
 dht/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index f145d5e..797d7f2 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -110,6 +110,9 @@ impl DhtSettings {
         set_int!(dict, block_timeout, self);
         set_int!(dict, block_ratelimit, self);
         set_int!(dict, item_lifetime, self);
+        set_int!(dict, upload_rate_limit, self);
+        set_int!(dict, sample_infohashes_interval, self);
+        set_int!(dict, max_infohashes_sample_count, self);
 
         set_bool!(dict, restrict_routing_ips, self);
         set_bool!(dict, restrict_search_ips, self);
@@ -141,6 +144,9 @@ impl DhtSettings {
         read_int!(settings, dict, block_timeout);
         read_int!(settings, dict, block_ratelimit);
         read_int!(settings, dict, item_lifetime);
+        read_int!(settings, dict, upload_rate_limit);
+        read_int!(settings, dict, sample_infohashes_interval);
+        read_int!(settings, dict, max_infohashes_sample_count);
 
         read_bool!(settings, dict, restrict_routing_ips);
         read_bool!(settings, dict, restrict_search_ips);
-- 
2.43.0


From 2bda1e8c3b899fb818d543f5e4f2d13c096b8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 09/24] fix: create the list of peers when the reply has none

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 48371dc..a239ef5 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -288,8 +288,8 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             }
 
             let pe = peer_map
-                .get_mut("values")
-                .unwrap()
+                .entry(String::from("values"))
+                .or_insert_with(|| Value::with_list(vec![]))
                 .as_list_mut()
                 .ok_or_else(|| bencode::Error::ParseList)?;
 
-- 
2.43.0


From 51e91fc324b29ce84dc23a88dbca4fa873751485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 10/24] fix: give every peer the same chance to be picked

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index a239ef5..525a471 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -305,7 +305,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
 
                 assert!(candidates >= to_pick);
                 candidates -= 1;
-                if random::random_usize(candidates + 1) > to_pick {
+                if random::random_usize(candidates + 1) >= to_pick {
                     continue;
                 }
 
-- 
2.43.0


From 411d5eb2a934cfa60ac001fdc57c910b736909f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 11/24] fix: do not exceed the torrent limit by one

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 525a471..fed4981 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -343,7 +343,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let v = if let Some(v) = self.map.get_mut(info_hash) {
             v
         } else {
-            if self.map.len() > self.settings.max_torrents {
+            if self.map.len() >= self.settings.max_torrents {
                 // we're at capacity, drop the announce
                 return;
             }
-- 
2.43.0


From 9bd2b87ff7dee6db7f051bf634fa0e31240e2701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 12/24] fix: recognise a stored peer whatever its scope or flow

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index fed4981..2d45b56 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -328,7 +328,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&requester_entry) {
-            Ok(i) => Ok(&peersv[i].addr != requester),
+            Ok(_) => Ok(false),
             Err(_) => Ok(true),
         }
     }
@@ -371,7 +371,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&peer) {
-            Ok(i) if &peersv[i].addr == endpoint => peersv[i] = peer,
+            Ok(i) => peersv[i] = peer,
             v => {
                 if peersv.len() >= self.settings.max_peers {
                     // we're at capacity, drop the announce
-- 
2.43.0


From fc0b4c5dac447d08b4fa3a1032060f000de9d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 13/24] fix: drop items when the store has no room for any

---
 dht/src/storage.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 2d45b56..e7e0719 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -407,8 +407,10 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let mut i = self.immutable_table.get_mut(target);
         if i.is_none() {
             if self.immutable_table.len() >= self.settings.max_dht_items {
-                let (k, _) = pick_least_imp(&self.node_ids, &self.immutable_table).unwrap();
-                let k = k.clone();
+                let k = match pick_least_imp(&self.node_ids, &self.immutable_table) {
+                    Some((k, _)) => k.clone(),
+                    None => return,
+                };
                 self.immutable_table.remove(&k);
                 self.counters.immutable_data -= 1;
             }
@@ -479,8 +481,10 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                 // this is the case where we don't have an item in this slot
                 // make sure we don't add too many items
                 if self.mutable_table.len() >= self.settings.max_dht_items {
-                    let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
-                    let key = key.clone();
+                    let key = match pick_least_imp(&self.node_ids, &self.mutable_table) {
+                        Some((key, _)) => key.clone(),
+                        None => return,
+                    };
                     self.mutable_table.remove(&key);
                     self.counters.mutable_data += 1;
                 }
-- 
2.43.0


From 2cd65f57f3528bb9a1f5a41cdad0c9a427e269f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 14/24] fix: compare the importance of items without underflow

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index e7e0719..1ee3886 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -530,8 +530,8 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         let dist_1 = crate::node::min_distance_exp(node_1, node_ids);
         let dist_2 = crate::node::min_distance_exp(node_2, node_ids);
 
-        let n1 = t1.num_announcers() / 5 - dist_1;
-        let n2 = t2.num_announcers() / 5 - dist_2;
+        let n1 = (t1.num_announcers() / 5) as isize - dist_1 as isize;
+        let n2 = (t2.num_announcers() / 5) as isize - dist_2 as isize;
         n1.cmp(&n2)
     })
 }
-- 
2.43.0


From b7e20677a3f4022877a31f825b9fa17732410ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 15/24] fix: count an evicted mutable item down

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 1ee3886..a96370b 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -486,7 +486,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                         None => return,
                     };
                     self.mutable_table.remove(&key);
-                    self.counters.mutable_data += 1;
+                    self.counters.mutable_data -= 1;
                 }
                 let mut item = DhtMutableItem::new(buf.to_vec());
                 item.seq = seq;
-- 
2.43.0


From 7078dde1beac19608ae74f0d9b443e78a128493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 16/24] fix: report the storage counters

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index a96370b..498adf5 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -518,7 +518,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
     }
 
     fn counters(&self) -> DhtStorageCounter {
-        unimplemented!()
+        self.counters
     }
 }
 
-- 
2.43.0


From bc38cd85b00370dac605da7e044bb530ed4ba928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 17/24] fix: refuse a hex info-hash with other characters

---
 src/magnet_uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index cb48cbb..3ee5de3 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -64,7 +64,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut s = Sha1Hash::new();
                 match value.len() {
                     40 => {
-                        hex::from_hex(value.as_bytes(), &mut s).unwrap();
+                        hex::from_hex(value.as_bytes(), &mut s).ok_or(Error::InvalidInfoHash)?;
                     }
                     32 => {
                         let ih = str_utl::base32_decode(value.as_bytes());
-- 
2.43.0


From 771f40656b4e42b8fb157313a6d128e7669702e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 18/24] fix: advance past ignored entries of a file selection

---
 src/magnet_uri.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index 3ee5de3..5188180 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -90,6 +90,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut value = value.as_bytes();
                 while !value.is_empty() {
                     let (token, rest) = str_utl::split_string(value, b',');
+                    value = rest;
                     if token.is_empty() {
                         continue;
                     }
@@ -146,8 +147,6 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                     for i in idx1..=idx2 {
                         p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;
                     }
-
-                    value = rest;
                 }
             }
             "x.pe" => {
-- 
2.43.0


From a3cb900491e28721180069f6278c8f98721018cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 19/24] fix: refuse base32 padding at the start of a group

---
 src/str_utl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_utl.rs b/src/str_utl.rs
index 51f462b..6a67197 100644
--- a/src/str_utl.rs
+++ b/src/str_utl.rs
@@ -163,7 +163,7 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
             in_buf[j] = match c {
                 b'A'..=b'Z' => c - b'A',
                 b'2'..=b'7' => c - b'2' + (b'Z' - b'A') + 1,
-                b'=' => {
+                b'=' if j > 0 => {
                     if pad_start == 0 {
                         pad_start = j;
                     }
-- 
2.43.0


From e4ba63cd82b1552fab32e26b42fb148706e425fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 20/24] fix: refuse negative lengths in a torrent

---
 src/torrent.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 17c8599..5a1f167 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use std::convert::TryFrom;
 use std::path::PathBuf;
 use url::Url;
 
@@ -40,7 +41,7 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
-        let piece_len = info.get("piece length")?.as_int()? as usize;
+        let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 {
             return None;
@@ -53,7 +54,7 @@ impl Torrent {
                 // Can't have `files` key at the same time
                 return None;
             }
-            let len = len.as_int()? as usize;
+            let len = usize::try_from(len.as_int()?).ok()?;
             kind = TorrentKind::File(TorrentFile {
                 path: name.into(),
                 len,
@@ -64,7 +65,7 @@ impl Torrent {
             let mut dir = vec![];
             for file in files.as_list()? {
                 let file = file.as_dict()?;
-                let len = file.get("length")?.as_int()? as usize;
+                let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
-- 
2.43.0


From 2f488ea363ad14b9fce0081af598404eb6d86175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 21/24] fix: refuse torrent paths that leave the download
 directory

---
 src/torrent.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 5a1f167..24d93a7 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,5 +1,5 @@
 use std::convert::TryFrom;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use url::Url;
 
 #[derive(Debug)]
@@ -33,6 +33,16 @@ pub struct TorrentFile {
     len: usize,
 }
 
+/// Whether the text is the name of a single file or directory, which no
+/// operation on paths can take out of the directory it is joined to.
+fn is_plain_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(c)), None) => c == name,
+        _ => false,
+    }
+}
+
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
         let parsed = bencode::ValueRef::decode(bytes).ok()?;
@@ -41,6 +51,9 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
+        if !is_plain_name(name) {
+            return None;
+        }
         let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 {
@@ -68,7 +81,14 @@ impl Torrent {
                 let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
-                    path.push(segment.as_str()?);
+                    let segment = segment.as_str()?;
+                    if !is_plain_name(segment) {
+                        return None;
+                    }
+                    path.push(segment);
+                }
+                if path.as_os_str().is_empty() {
+                    return None;
                 }
                 dir.push(TorrentFile { path, len });
             }
-- 
2.43.0


From 16384446f60adad2c14f6bbe7bb3692c7d9a1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 22/24] fix: enforce the documented limits when loading a
 torrent

---
 src/torrent.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 24d93a7..a06295c 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use crate::info::TorrentLimits;
 use std::convert::TryFrom;
 use std::path::{Component, Path, PathBuf};
 use url::Url;
@@ -45,7 +46,16 @@ fn is_plain_name(name: &str) -> bool {
 
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
-        let parsed = bencode::ValueRef::decode(bytes).ok()?;
+        let limits = TorrentLimits::default();
+        if bytes.len() > limits.max_buf_size {
+            return None;
+        }
+        let parsed = bencode::ValueRef::decode_with_limits(
+            bytes,
+            Some(limits.max_decode_depth),
+            Some(limits.max_decode_tokens),
+        )
+        .ok()?;
         let dict = parsed.as_dict()?;
 
         let announce_url = dict.get("announce")?.as_str()?;
@@ -59,6 +69,9 @@ impl Torrent {
         if pieces.len() % 20 != 0 {
             return None;
         }
+        if pieces.len() / 20 > limits.max_pieces {
+            return None;
+        }
 
         let kind;
         // Single file torrent
-- 
2.43.0


From 148437e2ae6109c1e27590adb44ee83d32223631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 23/24] hooks: message key descriptions for the model checking
 harnesses

---
 dht/src/msg.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dht/src/msg.rs b/dht/src/msg.rs
index eec7ab4..f666268 100644
--- a/dht/src/msg.rs
+++ b/dht/src/msg.rs
@@ -15,6 +15,19 @@ pub struct KeyDesc<'a> {
     flags: Flags,
 }
 
+#[cfg(vp_mc)]
+impl<'a> KeyDesc<'a> {
+    /// A description for the model checking harnesses.
+    pub fn mc_new(name: &'a str, kind: usize, size: usize, flags: u8) -> KeyDesc<'a> {
+        KeyDesc {
+            name,
+            kind,
+            size,
+            flags: Flags::from_bits_truncate(flags),
+        }
+    }
+}
+
 bitflags! {
     struct Flags: u8 {
         const OPTIONAL = 1;
-- 
2.43.0


From 728211257bc66b2f484f8bf199f57c2b014593c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 24/24] hooks: torrent flags for the model checking harnesses

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 535bb14..dbfa095 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@ mod torrent;
 pub mod mc {
     pub use crate::download_priority::*;
     pub use crate::error::*;
+    pub use crate::flags::*;
     pub use crate::magnet_uri::*;
     pub use crate::params::*;
     pub use crate::str_utl::*;
-- 
2.43.0

