From be9f83e1e24508f51d018bf437bda63b7f8984cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 1/2] Add byte-counter test hooks behind cfg(blake2_simd_verif)

---
 blake2b/src/blake2bp.rs |  6 ++++++
 blake2b/src/lib.rs      | 27 +++++++++++++++++++++++++++
 blake2b/src/many.rs     |  6 ++++++
 blake2s/src/blake2sp.rs |  6 ++++++
 blake2s/src/lib.rs      | 27 +++++++++++++++++++++++++++
 blake2s/src/many.rs     |  6 ++++++
 6 files changed, 78 insertions(+)

diff --git a/blake2b/src/blake2bp.rs b/blake2b/src/blake2bp.rs
index 3f5808a..fb10c72 100644
--- a/blake2b/src/blake2bp.rs
+++ b/blake2b/src/blake2bp.rs
@@ -479,6 +479,12 @@ pub(crate) fn force_portable(params: &mut Params) {
     params.implementation = Implementation::portable();
 }
 
+// See the verif module in lib.rs.
+#[cfg(blake2_simd_verif)]
+pub(crate) fn verif_advance_count(state: &mut State, bytes_per_leaf: Count) {
+    state.count = state.count.wrapping_add(bytes_per_leaf);
+}
+
 #[cfg(test)]
 pub(crate) mod test {
     use super::*;
diff --git a/blake2b/src/lib.rs b/blake2b/src/lib.rs
index 6c4f92f..68d50d8 100644
--- a/blake2b/src/lib.rs
+++ b/blake2b/src/lib.rs
@@ -42,6 +42,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// The blake2_simd_verif cfg is never set in a normal build. See the verif module below.
+#![allow(unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -687,3 +689,28 @@ pub mod benchmarks {
         blake2bp::force_portable(params);
     }
 }
+
+// Test hooks for an external verification harness. These only exist when the
+// build passes `--cfg blake2_simd_verif`, and nothing in this crate uses them.
+// They let a test act as though some number of bytes had already been
+// compressed, because no test can afford to hash 2^64 bytes for real.
+#[cfg(blake2_simd_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    /// Advance the byte counter of a `State` without compressing anything.
+    pub fn advance_count(state: &mut State, bytes: Count) {
+        state.count = state.count.wrapping_add(bytes);
+    }
+
+    /// Advance the byte counter of each leaf of a `blake2bp::State`.
+    pub fn advance_count_blake2bp(state: &mut blake2bp::State, bytes_per_leaf: Count) {
+        blake2bp::verif_advance_count(state, bytes_per_leaf);
+    }
+
+    /// Advance the byte counter of a `HashManyJob` that hasn't run yet.
+    pub fn advance_count_job(job: &mut many::HashManyJob, bytes: Count) {
+        many::verif_advance_count(job, bytes);
+    }
+}
diff --git a/blake2b/src/many.rs b/blake2b/src/many.rs
index f880c01..fec0fc2 100644
--- a/blake2b/src/many.rs
+++ b/blake2b/src/many.rs
@@ -418,6 +418,12 @@ where
     compress_many(jobs, implementation, Finalize::Yes, Stride::Serial);
 }
 
+// See the verif module in lib.rs.
+#[cfg(blake2_simd_verif)]
+pub(crate) fn verif_advance_count(job: &mut HashManyJob, bytes: Count) {
+    job.count = job.count.wrapping_add(bytes);
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/blake2s/src/blake2sp.rs b/blake2s/src/blake2sp.rs
index 3a68285..c8bc62e 100644
--- a/blake2s/src/blake2sp.rs
+++ b/blake2s/src/blake2sp.rs
@@ -486,6 +486,12 @@ pub(crate) fn force_portable(params: &mut Params) {
     params.implementation = Implementation::portable();
 }
 
+// See the verif module in lib.rs.
+#[cfg(blake2_simd_verif)]
+pub(crate) fn verif_advance_count(state: &mut State, bytes_per_leaf: Count) {
+    state.count = state.count.wrapping_add(bytes_per_leaf);
+}
+
 #[cfg(test)]
 pub(crate) mod test {
     use super::*;
diff --git a/blake2s/src/lib.rs b/blake2s/src/lib.rs
index f845e96..0cd0e28 100644
--- a/blake2s/src/lib.rs
+++ b/blake2s/src/lib.rs
@@ -41,6 +41,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// The blake2_simd_verif cfg is never set in a normal build. See the verif module below.
+#![allow(unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -679,3 +681,28 @@ pub mod benchmarks {
         blake2sp::force_portable(params);
     }
 }
+
+// Test hooks for an external verification harness. These only exist when the
+// build passes `--cfg blake2_simd_verif`, and nothing in this crate uses them.
+// They let a test act as though some number of bytes had already been
+// compressed, because no test can afford to hash 2^64 bytes for real.
+#[cfg(blake2_simd_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    /// Advance the byte counter of a `State` without compressing anything.
+    pub fn advance_count(state: &mut State, bytes: Count) {
+        state.count = state.count.wrapping_add(bytes);
+    }
+
+    /// Advance the byte counter of each leaf of a `blake2sp::State`.
+    pub fn advance_count_blake2sp(state: &mut blake2sp::State, bytes_per_leaf: Count) {
+        blake2sp::verif_advance_count(state, bytes_per_leaf);
+    }
+
+    /// Advance the byte counter of a `HashManyJob` that hasn't run yet.
+    pub fn advance_count_job(job: &mut many::HashManyJob, bytes: Count) {
+        many::verif_advance_count(job, bytes);
+    }
+}
diff --git a/blake2s/src/many.rs b/blake2s/src/many.rs
index e8be09b..712cdaf 100644
--- a/blake2s/src/many.rs
+++ b/blake2s/src/many.rs
@@ -418,6 +418,12 @@ where
     compress_many(jobs, implementation, Finalize::Yes, Stride::Serial);
 }
 
+// See the verif module in lib.rs.
+#[cfg(blake2_simd_verif)]
+pub(crate) fn verif_advance_count(job: &mut HashManyJob, bytes: Count) {
+    job.count = job.count.wrapping_add(bytes);
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 6539d21667185d05148e452776e1a48690dd67ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 2/2] fix: accept file names that are not UTF-8 on the command
 line

---
 blake2_bin/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blake2_bin/src/main.rs b/blake2_bin/src/main.rs
index 2000321..91d9054 100644
--- a/blake2_bin/src/main.rs
+++ b/blake2_bin/src/main.rs
@@ -10,6 +10,7 @@ use structopt::StructOpt;
 #[derive(Debug, StructOpt)]
 struct Opt {
     /// Any number of filepaths, or empty for standard input.
+    #[structopt(parse(from_os_str))]
     inputs: Vec<PathBuf>,
 
     #[structopt(long = "mmap")]
-- 
2.43.0

