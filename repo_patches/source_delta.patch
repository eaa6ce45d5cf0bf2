From 3fe74efa4083859b140ae9fe1c94d239dd9235de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 1/7] fix: report ProofMismatch when the embed-commit proof
 differs

---
 commit_verify/src/embed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit_verify/src/embed.rs b/commit_verify/src/embed.rs
index 3009e71..5811e9b 100644
--- a/commit_verify/src/embed.rs
+++ b/commit_verify/src/embed.rs
@@ -169,7 +169,7 @@ where
         let mut container_prime = proof.restore_original_container(self)?;
         let proof_prime = container_prime.embed_commit(msg)?;
         if !proof_prime.verify_eq(proof) {
-            return Err(EmbedVerifyError::InvalidProof);
+            return Err(EmbedVerifyError::ProofMismatch);
         }
         if !self.verify_eq(&container_prime) {
             return Err(EmbedVerifyError::CommitmentMismatch);
-- 
2.43.0


From 589b3c9a8aaec1b6d5a4eef267df8aef00213785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 2/7] fix: do not drop encoding failures in CommitEngine

---
 commit_verify/src/id.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commit_verify/src/id.rs b/commit_verify/src/id.rs
index b8435fd..71ccfe3 100644
--- a/commit_verify/src/id.rs
+++ b/commit_verify/src/id.rs
@@ -75,8 +75,9 @@ impl CommitEngine {
     fn inner_commit_to<T: StrictEncode, const MAX_LEN: usize>(&mut self, value: &T) {
         debug_assert!(!self.finished);
         let writer = StreamWriter::new::<MAX_LEN>(&mut self.hasher);
-        let ok = value.strict_write(writer).is_ok();
-        debug_assert!(ok);
+        value
+            .strict_write(writer)
+            .expect("unable to encode the value for the commitment");
     }
 
     pub fn commit_to_serialized<T: StrictEncode>(&mut self, value: &T) {
-- 
2.43.0


From bab8e6b528dda170c61f96599319e8e72eae300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 3/7] fix: label of the SealError::Client debug output

---
 single_use_seals/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/single_use_seals/src/lib.rs b/single_use_seals/src/lib.rs
index 65e22b6..385402b 100644
--- a/single_use_seals/src/lib.rs
+++ b/single_use_seals/src/lib.rs
@@ -298,7 +298,7 @@ impl<Seal: SingleUseSeal> Debug for SealError<Seal> {
                 .field(pub_id)
                 .finish(),
             SealError::Published(err) => f.debug_tuple("SealError::Published").field(err).finish(),
-            SealError::Client(err) => f.debug_tuple("SealError::Client(err").field(err).finish(),
+            SealError::Client(err) => f.debug_tuple("SealError::Client").field(err).finish(),
         }
     }
 }
-- 
2.43.0


From 8c2ea1453eb931dbe6e76489166df20b93123345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 4/7] fix: reject data whose length does not fit its length
 prefix

---
 commit_verify/src/digest.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/commit_verify/src/digest.rs b/commit_verify/src/digest.rs
index 99b13e1..0261136 100644
--- a/commit_verify/src/digest.rs
+++ b/commit_verify/src/digest.rs
@@ -29,10 +29,17 @@ pub trait DigestExt<const BYTE_LEN: usize = 32>: Digest {
     fn input_with_len<const MAX: usize>(&mut self, data: &[u8]) {
         let len = data.len();
         match MAX {
-            0..=0xFF => self.input_raw(&(len as u8).to_le_bytes()),
-            0x100..=0xFFFF => self.input_raw(&(len as u16).to_le_bytes()),
-            0x10000..=0xFFFFFF => self.input_raw(&u24::with(len as u32).to_le_bytes()),
-            0x1000000..=0xFFFFFFFF => self.input_raw(&(len as u32).to_le_bytes()),
+            0..=0xFF => self.input_raw(&u8::try_from(len).expect("data too large").to_le_bytes()),
+            0x100..=0xFFFF => {
+                self.input_raw(&u16::try_from(len).expect("data too large").to_le_bytes())
+            }
+            0x10000..=0xFFFFFF => {
+                let len = u32::try_from(len).expect("data too large");
+                self.input_raw(&u24::with(len).to_le_bytes())
+            }
+            0x1000000..=0xFFFFFFFF => {
+                self.input_raw(&u32::try_from(len).expect("data too large").to_le_bytes())
+            }
             _ => panic!("data too large"),
         }
         self.input_raw(data);
-- 
2.43.0


From 5a789b49331a7cb111f6a36b1d5b0082c6efbaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 5/7] fix: make factored width the modulus the leaf positions
 use

---
 commit_verify/src/mpc/block.rs | 12 ++++++++++--
 commit_verify/src/mpc/tree.rs  |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index a7125ec..2927fc4 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -599,7 +599,11 @@ Changed commitment id: {}",
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     pub fn known_protocol_ids(&self) -> impl Iterator<Item = ProtocolId> + '_ {
         self.cross_section.iter().filter_map(|item| match item {
@@ -704,7 +708,11 @@ impl MerkleProof {
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     /// Converts the proof into inner merkle path representation
     pub fn into_path(self) -> Confined<Vec<MerkleHash>, 0, 32> { self.path }
diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index f1999fc..81e4569 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -199,7 +199,11 @@ impl MerkleTree {
 
     /// Computes the factored width of the merkle tree, equal to `2 ^ depth -
     /// cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     pub fn depth(&self) -> u5 { self.depth }
 
-- 
2.43.0


From 0d0641334cc9f078a46cfaa525d84279a1b9307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 6/7] fix: leave the block unchanged when conceal_except errors

conceal_except dropped the entropy and concealed leaves before it found out
that a requested leaf is not known.
---
 commit_verify/src/mpc/block.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 2927fc4..5a56e5d 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -320,6 +320,12 @@ impl MerkleBlock {
 
         let mut count = 0usize;
         let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();
+        for protocol_id in self.known_protocol_ids() {
+            not_found.remove(&protocol_id);
+        }
+        if let Some(protocol_id) = not_found.into_iter().next() {
+            return Err(LeafNotKnown(protocol_id));
+        }
 
         self.entropy = None;
 
@@ -330,7 +336,7 @@ impl MerkleBlock {
                     // Do nothing
                 }
                 TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {
-                    not_found.remove(p);
+                    // Keep the leaf revealed
                 }
                 TreeNode::CommitmentLeaf { .. } => {
                     count += 1;
@@ -342,10 +348,6 @@ impl MerkleBlock {
             }
         }
 
-        if let Some(protocol_id) = not_found.into_iter().next() {
-            return Err(LeafNotKnown(protocol_id));
-        }
-
         loop {
             debug_assert!(!self.cross_section.is_empty());
             let prev_count = count;
-- 
2.43.0


From a1bf50f4119708fda21c7ceefa0f996d6a2ab864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 7/7] fix: verify MerkleTree commitments made with a random
 entropy

Without a static entropy in the source try_commit generates a new one, so the
repeated commitment never matched and verification always failed.
---
 commit_verify/src/mpc/tree.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index 81e4569..7d86743 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -95,7 +95,7 @@ mod commit {
 
     use super::*;
     use crate::mpc::MultiSource;
-    use crate::{TryCommitVerify, UntaggedProtocol};
+    use crate::{TryCommitVerify, UntaggedProtocol, VerifyError};
 
     /// Errors generated during multi-message commitment process by
     /// [`MerkleTree::try_commit`]
@@ -176,6 +176,20 @@ mod commit {
                     .ok_or(Error::CantFitInMaxSlots(msg_count))?;
             }
         }
+
+        /// Repeats the commitment with the entropy of the tree when the source doesn't provide a
+        /// static one, since a newly generated entropy can't give the same tree.
+        fn verify(&self, source: &MultiSource) -> Result<(), VerifyError> {
+            let source = MultiSource {
+                static_entropy: source.static_entropy.or(Some(self.entropy)),
+                ..source.clone()
+            };
+            let other = Self::try_commit(&source).map_err(|_| VerifyError::InvalidMessage)?;
+            if other != *self {
+                return Err(VerifyError::InvalidCommitment);
+            }
+            Ok(())
+        }
     }
 }
 
-- 
2.43.0

