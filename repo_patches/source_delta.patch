From 963a67c4685986b8ca50f55829c2de099a81c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 1/4] fix: factored width must not underflow when cofactor
 exceeds the tree width

---
 commit_verify/src/mpc/block.rs | 8 ++++++--
 commit_verify/src/mpc/tree.rs  | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index a7125ec..494353a 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -599,7 +599,9 @@ Changed commitment id: {}",
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     pub fn known_protocol_ids(&self) -> impl Iterator<Item = ProtocolId> + '_ {
         self.cross_section.iter().filter_map(|item| match item {
@@ -704,7 +706,9 @@ impl MerkleProof {
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     /// Converts the proof into inner merkle path representation
     pub fn into_path(self) -> Confined<Vec<MerkleHash>, 0, 32> { self.path }
diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index f1999fc..628a832 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -199,7 +199,9 @@ impl MerkleTree {
 
     /// Computes the factored width of the merkle tree, equal to `2 ^ depth -
     /// cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     pub fn depth(&self) -> u5 { self.depth }
 
-- 
2.43.0


From 8128cec708a68df5bf2309b55b20a1b30cadcfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 2/4] fix: refuse merkle proofs with more hashes than the
 maximal tree depth

---
 commit_verify/src/mpc/block.rs | 48 +++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 494353a..33c8ed2 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -26,7 +26,10 @@ use std::collections::{BTreeMap, BTreeSet};
 
 use amplify::confinement::{Confined, NonEmptyVec, U32 as U32MAX};
 use amplify::num::u5;
-use strict_encoding::{StrictDeserialize, StrictDumb, StrictEncode, StrictSerialize};
+use strict_encoding::{
+    DecodeError, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode, StrictSerialize,
+    TypedRead,
+};
 
 use crate::id::CommitId;
 use crate::merkle::{MerkleBuoy, MerkleHash};
@@ -667,9 +670,13 @@ impl Conceal for MerkleBlock {
 
 /// A proof of the merkle commitment.
 #[derive(Getters, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
-#[derive(StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictType, StrictEncode)]
 #[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Serialize, Deserialize),
+    serde(try_from = "UncheckedProof")
+)]
 pub struct MerkleProof {
     /// Method used to construct MPC proof (hash function, merklization).
     #[getter(as_copy)]
@@ -691,6 +698,41 @@ pub struct MerkleProof {
     path: Confined<Vec<MerkleHash>, 0, 32>,
 }
 
+/// Merkle proof data read from an untrusted source.
+#[derive(StrictType, StrictDumb, StrictDecode)]
+#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
+#[cfg_attr(feature = "serde", derive(Deserialize), serde(rename = "MerkleProof"))]
+struct UncheckedProof {
+    method: Method,
+    pos: u32,
+    cofactor: u16,
+    path: Confined<Vec<MerkleHash>, 0, 32>,
+}
+
+impl TryFrom<UncheckedProof> for MerkleProof {
+    type Error = &'static str;
+
+    fn try_from(proof: UncheckedProof) -> Result<Self, Self::Error> {
+        if proof.path.len() > u5::MAX.to_u8() as usize {
+            return Err("merkle proof path exceeds the maximal tree depth");
+        }
+        Ok(MerkleProof {
+            method: proof.method,
+            pos: proof.pos,
+            cofactor: proof.cofactor,
+            path: proof.path,
+        })
+    }
+}
+
+impl StrictDecode for MerkleProof {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        UncheckedProof::strict_decode(reader)?
+            .try_into()
+            .map_err(|err: &str| DecodeError::DataIntegrityError(err.to_owned()))
+    }
+}
+
 impl Proof for MerkleProof {
     fn matches(&self, other: &Self) -> bool {
         self.cofactor == other.cofactor && self.merkle_root() == other.merkle_root()
-- 
2.43.0


From 1fe7000ba2b0df3ded1d53498095b5bdf023f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 3/4] fix: refuse merkle blocks whose nodes do not form a tree
 cross-section

---
 commit_verify/src/mpc/block.rs | 79 +++++++++++++++++++++++++++++++++-
 1 file changed, 77 insertions(+), 2 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 33c8ed2..0cc2f22 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -154,11 +154,15 @@ impl Conceal for MerkleConcealed {
 
 /// Partially-concealed merkle tree data.
 #[derive(Getters, Clone, PartialEq, Eq, Hash, Debug)]
-#[derive(StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictType, StrictEncode)]
 #[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
 #[derive(CommitEncode)]
 #[commit_encode(crate = crate, strategy = conceal, id = Commitment)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Serialize, Deserialize),
+    serde(try_from = "UncheckedBlock")
+)]
 pub struct MerkleBlock {
     /// Method used to construct MPC proof (hash function, merklization).
     #[getter(as_copy)]
@@ -195,6 +199,77 @@ impl StrictDumb for MerkleBlock {
     }
 }
 
+/// Merkle block data read from an untrusted source.
+#[derive(StrictType, StrictDecode)]
+#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
+#[cfg_attr(feature = "serde", derive(Deserialize), serde(rename = "MerkleBlock"))]
+struct UncheckedBlock {
+    method: Method,
+    depth: u5,
+    cofactor: u16,
+    cross_section: NonEmptyVec<TreeNode, U32MAX>,
+    entropy: Option<u64>,
+}
+
+impl StrictDumb for UncheckedBlock {
+    fn strict_dumb() -> Self {
+        let block = MerkleBlock::strict_dumb();
+        UncheckedBlock {
+            method: block.method,
+            depth: block.depth,
+            cofactor: block.cofactor,
+            cross_section: block.cross_section,
+            entropy: block.entropy,
+        }
+    }
+}
+
+impl TryFrom<UncheckedBlock> for MerkleBlock {
+    type Error = &'static str;
+
+    /// Checks that the nodes constitute a cross-section of a tree of the given
+    /// depth, with each leaf taking the slot defined by its protocol id.
+    fn try_from(block: UncheckedBlock) -> Result<Self, Self::Error> {
+        let width = 1u64 << block.depth.to_u8();
+        let mut offset = 0u64;
+        for node in &block.cross_section {
+            let depth = node.depth_or(block.depth);
+            if depth > block.depth {
+                return Err("merkle block node is deeper than the tree");
+            }
+            let span = 1u64 << (block.depth.to_u8() - depth.to_u8());
+            if offset % span != 0 || offset + span > width {
+                return Err("merkle block nodes do not match the tree structure");
+            }
+            if let TreeNode::CommitmentLeaf { protocol_id, .. } = node {
+                let pos = protocol_id_pos(*protocol_id, block.cofactor, block.depth);
+                if offset != pos as u64 {
+                    return Err("merkle block leaf is not in the slot of its protocol");
+                }
+            }
+            offset += span;
+        }
+        if offset != width {
+            return Err("merkle block does not cover the whole tree");
+        }
+        Ok(MerkleBlock {
+            method: block.method,
+            depth: block.depth,
+            cofactor: block.cofactor,
+            cross_section: block.cross_section,
+            entropy: block.entropy,
+        })
+    }
+}
+
+impl StrictDecode for MerkleBlock {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        UncheckedBlock::strict_decode(reader)?
+            .try_into()
+            .map_err(|err: &str| DecodeError::DataIntegrityError(err.to_owned()))
+    }
+}
+
 impl StrictSerialize for MerkleBlock {}
 impl StrictDeserialize for MerkleBlock {}
 
-- 
2.43.0


From a303b2362ef36bf3853719f81f7bcdda6f06b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 4/4] fix: report a proof which is not reproduced on
 verification as ProofMismatch

---
 commit_verify/src/embed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit_verify/src/embed.rs b/commit_verify/src/embed.rs
index 3009e71..5811e9b 100644
--- a/commit_verify/src/embed.rs
+++ b/commit_verify/src/embed.rs
@@ -169,7 +169,7 @@ where
         let mut container_prime = proof.restore_original_container(self)?;
         let proof_prime = container_prime.embed_commit(msg)?;
         if !proof_prime.verify_eq(proof) {
-            return Err(EmbedVerifyError::InvalidProof);
+            return Err(EmbedVerifyError::ProofMismatch);
         }
         if !self.verify_eq(&container_prime) {
             return Err(EmbedVerifyError::CommitmentMismatch);
-- 
2.43.0

