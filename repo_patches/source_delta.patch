From ab5b6cfba4cd564e908b33930f4cf4d0f9fddbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 1/4] fix: sparse delete of an already deleted key must not
 remove another leaf

---
 src/sparse/merkle_tree.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..dc6ddf3 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -113,7 +113,17 @@ where
                 .map_err(MerkleTreeError::DeserializeError)?;
             let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
                 self.path_set(leaf_node.clone())?;
-            self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
+
+            // The leaf entry of a key outlives its deletion. The key is only
+            // present in the tree if the path leads to the key's own leaf;
+            // otherwise, there is nothing to delete.
+            if path_nodes[0].leaf_key() == leaf_node.leaf_key() {
+                self.delete_with_path_set(
+                    &leaf_node,
+                    path_nodes.as_slice(),
+                    side_nodes.as_slice(),
+                )?;
+            }
         }
 
         Ok(())
-- 
2.43.0


From 64b75e483c074ff95ece39507ebfba3e41ba8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 2/4] fix: loading a sparse tree from the empty root must
 succeed

---
 src/sparse/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index dc6ddf3..db23e81 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        if root == zero_sum() {
+            // The zero root signifies that the tree is empty. An empty tree has
+            // no nodes in storage.
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From 3a66857d54f7beb50a8052ee6298ad5de7cce78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 3/4] fix: binary proof index check must not overflow for the
 largest index

---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..f8c250c 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From 3031aab49111b188e75e9b47b71ed63cbed0c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 4/4] fix: sparse leaves must not be stored under the unhashed
 key

The table of a sparse tree is keyed by the hashes of nodes, but update also
stored the leaf under the raw key and delete looked it up there. A key that
equals the hash of a node then overwrote that node, and deleting it removed
another key's leaf or panicked. delete now finds the leaf by its path alone.
---
 src/sparse/merkle_tree.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index db23e81..6178cb7 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -92,8 +92,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
@@ -112,24 +110,14 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
-
-            // The leaf entry of a key outlives its deletion. The key is only
-            // present in the tree if the path leads to the key's own leaf;
-            // otherwise, there is nothing to delete.
-            if path_nodes[0].leaf_key() == leaf_node.leaf_key() {
-                self.delete_with_path_set(
-                    &leaf_node,
-                    path_nodes.as_slice(),
-                    side_nodes.as_slice(),
-                )?;
-            }
+        // The key is only present in the tree if the path leads to the key's own
+        // leaf; otherwise, there is nothing to delete. A key is never looked up
+        // in storage directly: the keys of the table are the hashes of nodes.
+        let leaf_node = Node::create_leaf(key, &[]);
+        let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) = self.path_set(leaf_node.clone())?;
+        let actual_leaf_node = &path_nodes[0];
+        if !actual_leaf_node.is_placeholder() && actual_leaf_node.leaf_key() == key {
+            self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
         }
 
         Ok(())
-- 
2.43.0

