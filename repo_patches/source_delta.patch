From 4f69c0b56ce042e02ac0a57120d75bec7fe471e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 01/11] fix: compare keys up to the split bit, the last partial
 byte included

check_descendants stepped over the bits between the two split indices eight
at a time from the first one, so it never looked at the last byte when the
distance was not a whole number of bytes. Keys that leave the branch's prefix
in that byte were taken for its descendants: inserts put them under the wrong
branch, and later reads lost them.
---
 src/utils/tree_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 3e4ecac..12264dc 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -86,8 +86,8 @@ pub fn check_descendants<'keys, const N: usize>(
     for (i, k) in keys.iter().enumerate() {
         let key = k.as_ref();
         let mut descendant = true;
-        for j in (min_split_index..branch_split_index).step_by(8) {
-            let byte = j >> 3_usize;
+        // Every byte holding a bit in `min_split_index..branch_split_index`, the last one included
+        for byte in (min_split_index >> 3_usize)..((branch_split_index + 7) >> 3_usize) {
             if branch_key[byte] == key[byte] {
                 continue;
             }
-- 
2.43.0


From f7e409936e1ae4037182ae6422dab5edf2d75ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 02/11] fix: write an insert in one batch

create_tree wrote the batch after every level of the new tree, so a crash or
a failed write part-way left some levels in storage without a root: nodes that
no version needs, and reference counts already raised for them.
---
 src/merkle_bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index dca2bd1..302e3bd 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -497,6 +497,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 return Err(Exception::new("Level should not be empty."));
             }
         }
+        self.db.batch_write()?;
         root.map_or_else(|| Err(Exception::new("Failed to get root.")), Ok)
     }
 
@@ -587,7 +588,6 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
             root = branch_node_location;
         }
-        self.db.batch_write()?;
         Ok(Some(root))
     }
 
-- 
2.43.0


From 4e910e46a1191da107303801b7213173ec532977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 03/11] fix: count one reference per parent and per
 acknowledged insert

An insert raised the counts of the nodes it kept from the previous version
whether or not it created a parent for them, raised a data node's count with
every insert of its leaf although only the leaf points to it, and wrote
branches that were already there with one reference. Removing a version then
either deleted branches that other versions still needed or left nodes behind
for good.

The traversal now only collects nodes. A branch that exists already keeps its
node, a new one counts a reference to each child that is not new itself, and
the root counts the reference of the insert.
---
 src/merkle_bit.rs | 147 +++++++++++++++++++++-------------------------
 1 file changed, 68 insertions(+), 79 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 302e3bd..2855b1c 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -1,14 +1,14 @@
 #![allow(unused_qualifications)]
 
 #[cfg(not(any(feature = "hashbrown")))]
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::collections::VecDeque;
 use std::convert::TryFrom;
 use std::path::Path;
 
 use crate::Array;
 #[cfg(feature = "hashbrown")]
-use hashbrown::HashMap;
+use hashbrown::{HashMap, HashSet};
 
 use crate::traits::{
     Branch, Data, Database, Decode, Encode, Exception, Hasher, Leaf, Node, NodeVariant,
@@ -202,22 +202,21 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         keys.sort_unstable();
 
-        let nodes = self.insert_leaves(keys, &value_map)?;
+        let mut new_nodes = HashSet::new();
+        let nodes = self.insert_leaves(keys, &value_map, &mut new_nodes)?;
 
         let mut tree_refs = Vec::with_capacity(keys.len());
-        let mut key_map = HashMap::new();
         for (loc, &key) in nodes.into_iter().zip(keys.iter()) {
-            key_map.insert(key, loc);
             let tree_ref = TreeRef::new(key, loc, 1, 1);
             tree_refs.push(tree_ref);
         }
 
         if let Some(root) = previous_root {
-            let mut proof_nodes = self.generate_treerefs(root, keys, &key_map)?;
+            let mut proof_nodes = self.generate_treerefs(root, keys)?;
             tree_refs.append(&mut proof_nodes);
         }
 
-        let new_root = self.create_tree(tree_refs)?;
+        let new_root = self.create_tree(tree_refs, &mut new_nodes)?;
         Ok(new_root)
     }
 
@@ -225,10 +224,9 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
     fn generate_treerefs(
-        &mut self,
+        &self,
         root: &Array<N>,
-        keys: &mut [Array<N>],
-        key_map: &HashMap<Array<N>, Array<N>>,
+        keys: &[Array<N>],
     ) -> BinaryMerkleTreeResult<Vec<TreeRef<N>>> {
         // Nodes that form the merkle proof for the new tree
         let mut proof_nodes = Vec::with_capacity(keys.len());
@@ -244,14 +242,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             TreeCell::new::<M::Branch, M::Leaf, M::Data>(*root, keys, root_node, 0);
         cell_queue.push_front(root_cell);
 
-        self.traverse_tree(key_map, &mut proof_nodes, &mut cell_queue)?;
+        self.traverse_tree(keys, &mut proof_nodes, &mut cell_queue)?;
         Ok(proof_nodes)
     }
 
     /// Traverse the tree and append proof nodes
     fn traverse_tree(
-        &mut self,
-        key_map: &HashMap<Array<N>, Array<N>>,
+        &self,
+        keys: &[Array<N>],
         proof_nodes: &mut Vec<TreeRef<N>>,
         cell_queue: &mut VecDeque<TreeCell<M::Node, N>>,
     ) -> BinaryMerkleTreeResult<()> {
@@ -264,24 +262,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let depth = tree_cell.depth;
             let location = tree_cell.location;
 
-            let mut refs = node.get_references();
             let branch = match node.get_variant() {
                 NodeVariant::Branch(n) => n,
                 NodeVariant::Leaf(n) => {
                     let key = n.get_key();
-                    let mut update = false;
 
                     // Check if we are updating an existing value
-                    if let Some(loc) = key_map.get(key) {
-                        update = loc == &location;
-                        if !update {
-                            continue;
-                        }
-                    }
-
-                    self.insert_leaf(&location)?;
-
-                    if update {
+                    if keys.binary_search(key).is_ok() {
                         continue;
                     }
 
@@ -312,19 +299,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 )?;
 
                 if descendants.is_empty() {
-                    let mut new_branch = M::Branch::new();
-                    new_branch.set_count(branch_count);
-                    new_branch.set_zero(branch_zero);
-                    new_branch.set_one(branch_one);
-                    new_branch.set_split_index(branch_split_index);
-                    new_branch.set_key(branch_key);
-
-                    let tree_ref = TreeRef::new(branch_key, tree_cell.location, branch_count, 1);
-                    refs += 1;
-                    let mut new_node = M::Node::new(NodeVariant::Branch(new_branch));
-                    new_node.set_references(refs);
-                    self.db.insert(tree_ref.location, new_node)?;
-                    proof_nodes.push(tree_ref);
+                    proof_nodes.push(TreeRef::new(branch_key, location, branch_count, 1));
                     continue;
                 }
             }
@@ -347,25 +322,12 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(())
     }
 
-    /// Inserts a leaf into the DB
-    fn insert_leaf(&mut self, location: &Array<N>) -> BinaryMerkleTreeResult<()> {
-        if let Some(mut l) = self.db.get_node(*location)? {
-            let leaf_refs = l.get_references() + 1;
-            l.set_references(leaf_refs);
-            self.db.insert(*location, l)?;
-            return Ok(());
-        }
-        Err(Exception::new(
-            "Corrupt merkle tree: Failed to update leaf references",
-        ))
-    }
-
     /// Splits nodes during tree traversal into either zeros or ones, depending on the selected bit
     /// from the index
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
     fn split_nodes<'node_list>(
-        &mut self,
+        &self,
         depth: usize,
         branch: Array<N>,
         node_list: &'node_list [Array<N>],
@@ -374,18 +336,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             return if node_list.is_empty() {
                 let other_key;
                 let count;
-                let refs = node.get_references() + 1;
-                let mut new_node;
                 match node.get_variant() {
                     NodeVariant::Branch(b) => {
                         count = b.get_count();
                         other_key = *b.get_key();
-                        new_node = M::Node::new(NodeVariant::Branch(b));
                     }
                     NodeVariant::Leaf(l) => {
                         count = 1;
                         other_key = *l.get_key();
-                        new_node = M::Node::new(NodeVariant::Leaf(l));
                     }
                     NodeVariant::Data(_) => {
                         return Err(Exception::new(
@@ -393,8 +351,6 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                         ));
                     }
                 }
-                new_node.set_references(refs);
-                self.db.insert(branch, new_node)?;
                 let tree_ref = TreeRef::new(other_key, branch, count, 1);
                 Ok(SplitNodeType::Ref(tree_ref))
             } else {
@@ -410,12 +366,12 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Err(Exception::new("Failed to find node in database."))
     }
 
-    /// Inserts all the new leaves into the database.
-    /// Updates reference count if a leaf already exists.
+    /// Inserts all the leaves that do not exist yet into the database, and adds them to `new_nodes`.
     fn insert_leaves(
         &mut self,
         keys: &[Array<N>],
         values: &HashMap<Array<N>, &M::Value>,
+        new_nodes: &mut HashSet<Array<N>>,
     ) -> BinaryMerkleTreeResult<Vec<Array<N>>> {
         let mut nodes = Vec::with_capacity(keys.len());
         for k in keys.iter() {
@@ -447,20 +403,20 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
             leaf_node.set_references(1);
 
-            if let Some(n) = self.db.get_node(data_node_location)? {
-                let references = n.get_references() + 1;
-                data_node.set_references(references);
+            nodes.push(leaf_node_location);
+
+            if self.db.get_node(leaf_node_location)?.is_some() {
+                continue;
             }
 
-            if let Some(n) = self.db.get_node(leaf_node_location)? {
+            if let Some(n) = self.db.get_node(data_node_location)? {
                 let references = n.get_references() + 1;
-                leaf_node.set_references(references);
+                data_node.set_references(references);
             }
 
             self.db.insert(data_node_location, data_node)?;
             self.db.insert(leaf_node_location, leaf_node)?;
-
-            nodes.push(leaf_node_location);
+            new_nodes.insert(leaf_node_location);
         }
         Ok(nodes)
     }
@@ -470,14 +426,19 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// # Errors
     /// `Exception` generated when `tree_refs` is empty or an invalid state is encountered during
     /// tree traversal
-    fn create_tree(&mut self, mut tree_refs: Vec<TreeRef<N>>) -> BinaryMerkleTreeResult<Array<N>> {
+    fn create_tree(
+        &mut self,
+        mut tree_refs: Vec<TreeRef<N>>,
+        new_nodes: &mut HashSet<Array<N>>,
+    ) -> BinaryMerkleTreeResult<Array<N>> {
         if tree_refs.is_empty() {
             return Err(Exception::new("tree_refs should not be empty!"));
         }
 
         if tree_refs.len() == 1 {
-            self.db.batch_write()?;
             let node = tree_refs.remove(0);
+            self.reference_node(&node.location, new_nodes)?;
+            self.db.batch_write()?;
             return Ok(node.location);
         }
 
@@ -492,13 +453,35 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut root = None;
         for i in indices.into_iter().rev() {
             if let Some(level) = tree_ref_queue.remove(&i) {
-                root = self.merge_nodes(&mut tree_refs, level)?;
+                root = self.merge_nodes(&mut tree_refs, level, new_nodes)?;
             } else {
                 return Err(Exception::new("Level should not be empty."));
             }
         }
+        let root = root.map_or_else(|| Err(Exception::new("Failed to get root.")), Ok)?;
+        self.reference_node(&root, new_nodes)?;
         self.db.batch_write()?;
-        root.map_or_else(|| Err(Exception::new("Failed to get root.")), Ok)
+        Ok(root)
+    }
+
+    /// Counts a reference to the node at `location`.  Nodes in `new_nodes` were written with their
+    /// first reference, every other node is already in the database.
+    fn reference_node(
+        &mut self,
+        location: &Array<N>,
+        new_nodes: &HashSet<Array<N>>,
+    ) -> BinaryMerkleTreeResult<()> {
+        if new_nodes.contains(location) {
+            return Ok(());
+        }
+        let node = self
+            .db
+            .get_node(*location)?
+            .ok_or_else(|| Exception::new("Failed to find node in database."))?;
+        let references = node.get_references() + 1;
+        let mut new_node = M::Node::new(node.get_variant());
+        new_node.set_references(references);
+        self.db.insert(*location, new_node)
     }
 
     /// Performs the merging of `TreeRef`s until a single new root is left.
@@ -522,6 +505,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         &mut self,
         tree_refs: &mut [TreeRef<N>],
         level: Vec<(usize, usize, usize)>,
+        new_nodes: &mut HashSet<Array<N>>,
     ) -> BinaryMerkleTreeResult<Option<Array<N>>> {
         #[cfg(feature = "serde")]
         let mut root = Array::default();
@@ -572,10 +556,16 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 branch.set_key(tree_ref_key);
             }
 
-            let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
-            branch_node.set_references(1);
+            // A branch that exists already holds its references to its children
+            if self.db.get_node(branch_node_location)?.is_none() {
+                self.reference_node(&tree_ref_location, new_nodes)?;
+                self.reference_node(&next_tree_ref_location, new_nodes)?;
 
-            self.db.insert(branch_node_location, branch_node)?;
+                let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
+                branch_node.set_references(1);
+                self.db.insert(branch_node_location, branch_node)?;
+                new_nodes.insert(branch_node_location);
+            }
 
             {
                 tree_refs[lookahead_tree_ref_pointer].key = tree_ref_key;
@@ -885,21 +875,20 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut value_map = HashMap::new();
         value_map.insert(*key, value);
 
-        let leaf_location = self.insert_leaves(&[*key], &value_map)?[0];
+        let mut new_nodes = HashSet::new();
+        let leaf_location = self.insert_leaves(&[*key], &value_map, &mut new_nodes)?[0];
 
         let mut tree_refs = Vec::with_capacity(1);
-        let mut key_map = HashMap::new();
-        key_map.insert(*key, leaf_location);
 
         let tree_ref = TreeRef::new(*key, leaf_location, 1, 1);
         tree_refs.push(tree_ref);
 
         if let Some(root) = previous_root {
-            let mut proof_nodes = self.generate_treerefs(root, &mut [*key], &key_map)?;
+            let mut proof_nodes = self.generate_treerefs(root, &[*key])?;
             tree_refs.append(&mut proof_nodes);
         }
 
-        let new_root = self.create_tree(tree_refs)?;
+        let new_root = self.create_tree(tree_refs, &mut new_nodes)?;
         Ok(new_root)
     }
 
-- 
2.43.0


From b5e59c7bbf9d155ab8df57035e0fbe0da3dc07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 04/11] fix: read and check everything before the first write
 of an insert

An insert refused for a duplicate key, an unknown root, the depth limit, a
value that cannot be encoded or a failed read had written leaves and raised
counts by then. With a batching database they stayed queued and went in with
the next operation's batch.

An insert now collects its writes and hands them to the database once nothing
else can refuse it.
---
 src/merkle_bit.rs | 111 ++++++++++++++++++++++++++++------------------
 1 file changed, 68 insertions(+), 43 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 2855b1c..835885c 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -202,8 +202,25 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         keys.sort_unstable();
 
-        let mut new_nodes = HashSet::new();
-        let nodes = self.insert_leaves(keys, &value_map, &mut new_nodes)?;
+        if keys.windows(2).any(|pair| pair[0] == pair[1]) {
+            return Err(Exception::new(
+                "Attempted to insert item with duplicate keys",
+            ));
+        }
+
+        self.insert_sorted(previous_root, keys, &value_map)
+    }
+
+    /// Inserts items with sorted and distinct keys.  Everything is read and checked before the
+    /// first write, so that an insert that fails on the way leaves nothing in the database.
+    fn insert_sorted(
+        &mut self,
+        previous_root: Option<&Array<N>>,
+        keys: &[Array<N>],
+        values: &HashMap<Array<N>, &M::Value>,
+    ) -> BinaryMerkleTreeResult<Array<N>> {
+        let mut changes = Changes::new();
+        let nodes = self.insert_leaves(keys, values, &mut changes)?;
 
         let mut tree_refs = Vec::with_capacity(keys.len());
         for (loc, &key) in nodes.into_iter().zip(keys.iter()) {
@@ -216,7 +233,12 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             tree_refs.append(&mut proof_nodes);
         }
 
-        let new_root = self.create_tree(tree_refs, &mut new_nodes)?;
+        let new_root = self.create_tree(tree_refs, &mut changes)?;
+
+        for (location, node) in changes.nodes {
+            self.db.insert(location, node)?;
+        }
+        self.db.batch_write()?;
         Ok(new_root)
     }
 
@@ -366,12 +388,12 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Err(Exception::new("Failed to find node in database."))
     }
 
-    /// Inserts all the leaves that do not exist yet into the database, and adds them to `new_nodes`.
+    /// Adds all the leaves that do not exist yet to the `changes`.
     fn insert_leaves(
-        &mut self,
+        &self,
         keys: &[Array<N>],
         values: &HashMap<Array<N>, &M::Value>,
-        new_nodes: &mut HashSet<Array<N>>,
+        changes: &mut Changes<M::Node, N>,
     ) -> BinaryMerkleTreeResult<Vec<Array<N>>> {
         let mut nodes = Vec::with_capacity(keys.len());
         for k in keys.iter() {
@@ -414,9 +436,9 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 data_node.set_references(references);
             }
 
-            self.db.insert(data_node_location, data_node)?;
-            self.db.insert(leaf_node_location, leaf_node)?;
-            new_nodes.insert(leaf_node_location);
+            changes.nodes.push((data_node_location, data_node));
+            changes.nodes.push((leaf_node_location, leaf_node));
+            changes.new_nodes.insert(leaf_node_location);
         }
         Ok(nodes)
     }
@@ -427,9 +449,9 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// `Exception` generated when `tree_refs` is empty or an invalid state is encountered during
     /// tree traversal
     fn create_tree(
-        &mut self,
+        &self,
         mut tree_refs: Vec<TreeRef<N>>,
-        new_nodes: &mut HashSet<Array<N>>,
+        changes: &mut Changes<M::Node, N>,
     ) -> BinaryMerkleTreeResult<Array<N>> {
         if tree_refs.is_empty() {
             return Err(Exception::new("tree_refs should not be empty!"));
@@ -437,8 +459,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         if tree_refs.len() == 1 {
             let node = tree_refs.remove(0);
-            self.reference_node(&node.location, new_nodes)?;
-            self.db.batch_write()?;
+            self.reference_node(&node.location, changes)?;
             return Ok(node.location);
         }
 
@@ -453,25 +474,24 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut root = None;
         for i in indices.into_iter().rev() {
             if let Some(level) = tree_ref_queue.remove(&i) {
-                root = self.merge_nodes(&mut tree_refs, level, new_nodes)?;
+                root = self.merge_nodes(&mut tree_refs, level, changes)?;
             } else {
                 return Err(Exception::new("Level should not be empty."));
             }
         }
         let root = root.map_or_else(|| Err(Exception::new("Failed to get root.")), Ok)?;
-        self.reference_node(&root, new_nodes)?;
-        self.db.batch_write()?;
+        self.reference_node(&root, changes)?;
         Ok(root)
     }
 
-    /// Counts a reference to the node at `location`.  Nodes in `new_nodes` were written with their
-    /// first reference, every other node is already in the database.
+    /// Counts a reference to the node at `location`.  New nodes come with their first reference,
+    /// every other node is already in the database.
     fn reference_node(
-        &mut self,
+        &self,
         location: &Array<N>,
-        new_nodes: &HashSet<Array<N>>,
+        changes: &mut Changes<M::Node, N>,
     ) -> BinaryMerkleTreeResult<()> {
-        if new_nodes.contains(location) {
+        if changes.new_nodes.contains(location) {
             return Ok(());
         }
         let node = self
@@ -481,7 +501,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let references = node.get_references() + 1;
         let mut new_node = M::Node::new(node.get_variant());
         new_node.set_references(references);
-        self.db.insert(*location, new_node)
+        changes.nodes.push((*location, new_node));
+        Ok(())
     }
 
     /// Performs the merging of `TreeRef`s until a single new root is left.
@@ -502,10 +523,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// ```
     /// If the two nodes are not adjacent, find the other node by following the pointer trail.
     fn merge_nodes(
-        &mut self,
+        &self,
         tree_refs: &mut [TreeRef<N>],
         level: Vec<(usize, usize, usize)>,
-        new_nodes: &mut HashSet<Array<N>>,
+        changes: &mut Changes<M::Node, N>,
     ) -> BinaryMerkleTreeResult<Option<Array<N>>> {
         #[cfg(feature = "serde")]
         let mut root = Array::default();
@@ -558,13 +579,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
             // A branch that exists already holds its references to its children
             if self.db.get_node(branch_node_location)?.is_none() {
-                self.reference_node(&tree_ref_location, new_nodes)?;
-                self.reference_node(&next_tree_ref_location, new_nodes)?;
+                self.reference_node(&tree_ref_location, changes)?;
+                self.reference_node(&next_tree_ref_location, changes)?;
 
                 let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
                 branch_node.set_references(1);
-                self.db.insert(branch_node_location, branch_node)?;
-                new_nodes.insert(branch_node_location);
+                changes.nodes.push((branch_node_location, branch_node));
+                changes.new_nodes.insert(branch_node_location);
             }
 
             {
@@ -875,21 +896,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut value_map = HashMap::new();
         value_map.insert(*key, value);
 
-        let mut new_nodes = HashSet::new();
-        let leaf_location = self.insert_leaves(&[*key], &value_map, &mut new_nodes)?[0];
-
-        let mut tree_refs = Vec::with_capacity(1);
-
-        let tree_ref = TreeRef::new(*key, leaf_location, 1, 1);
-        tree_refs.push(tree_ref);
-
-        if let Some(root) = previous_root {
-            let mut proof_nodes = self.generate_treerefs(root, &[*key])?;
-            tree_refs.append(&mut proof_nodes);
-        }
-
-        let new_root = self.create_tree(tree_refs, &mut new_nodes)?;
-        Ok(new_root)
+        self.insert_sorted(previous_root, &[*key], &value_map)
     }
 
     /// Decomposes the tree into its underlying data structures
@@ -899,6 +906,24 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     }
 }
 
+/// The writes an insert has planned.
+struct Changes<NodeType, const N: usize> {
+    /// The nodes to write, children before their parents.
+    nodes: Vec<(Array<N>, NodeType)>,
+    /// The locations of the leaves and branches that do not exist in the database yet.
+    new_nodes: HashSet<Array<N>>,
+}
+
+impl<NodeType, const N: usize> Changes<NodeType, N> {
+    /// Creates an empty list of changes.
+    fn new() -> Self {
+        Self {
+            nodes: Vec::new(),
+            new_nodes: HashSet::new(),
+        }
+    }
+}
+
 /// Enum used for splitting nodes into either the left or right path during tree traversal
 enum SplitNodeType<'keys, NodeType: Node<N>, const N: usize> {
     /// Used for building the `proof_nodes` variable during tree traversal
-- 
2.43.0


From 38815a79083f5a982eb387c71d34cddd50fbc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 05/11] fix: drop the queued writes of a RocksDB batch when one
 of them fails to encode

The nodes queued before the failure stayed in the batch and were written by
the next operation.
---
 src/tree_db/rocksdb.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tree_db/rocksdb.rs b/src/tree_db/rocksdb.rs
index 4766fda..16f8df8 100644
--- a/src/tree_db/rocksdb.rs
+++ b/src/tree_db/rocksdb.rs
@@ -53,7 +53,14 @@ impl<const N: usize> Database<N, TreeNode<N>> for RocksDB<N> {
 
     #[inline]
     fn insert(&mut self, key: Array<N>, value: TreeNode<N>) -> Result<(), Exception> {
-        let serialized = value.encode()?;
+        let serialized = match value.encode() {
+            Ok(serialized) => serialized,
+            Err(error) => {
+                // The caller gives up on its batch, so the part queued so far must not be written
+                self.pending_inserts = None;
+                return Err(error);
+            }
+        };
         if let Some(wb) = &mut self.pending_inserts {
             wb.put(key, serialized);
         } else {
-- 
2.43.0


From a8096079d60eb4ed49b4369130bacff929d9f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 06/11] fix: remove a version in one batch

The RocksDB adaptor deleted nodes at once while the changes to reference
counts waited for the batch, so a crash or a failure part-way lost nodes that
the storage still pointed to. Deletions now go into the batch, and removal
reads everything before it changes anything; it reads no node twice, because
the database may not show the queued change.
---
 src/merkle_bit.rs      | 24 ++++++++++++++++++++----
 src/tree_db/rocksdb.rs |  5 ++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 835885c..a6d2207 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -610,6 +610,11 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut nodes = VecDeque::with_capacity(128);
         nodes.push_front(*root_hash);
 
+        // Databases may show the changes only after the batch is written, so a node must not be
+        // read twice, and nothing is changed before everything has been read.
+        let mut visited = HashSet::new();
+        let mut changes = Vec::new();
+
         while !nodes.is_empty() {
             let node_location;
             if let Some(location) = nodes.pop_front() {
@@ -618,6 +623,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 return Err(Exception::new("Nodes should not be empty."));
             }
 
+            if !visited.insert(node_location) {
+                continue;
+            }
+
             let node = if let Some(n) = self.db.get_node(node_location)? {
                 n
             } else {
@@ -635,7 +644,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                         let one = *b.get_one();
                         nodes.push_back(zero);
                         nodes.push_back(one);
-                        self.db.remove(&node_location)?;
+                        changes.push((node_location, None));
                         continue;
                     }
                     new_node = M::Node::new(NodeVariant::Branch(b));
@@ -644,14 +653,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                     if refs == 0 {
                         let data = *l.get_data();
                         nodes.push_back(data);
-                        self.db.remove(&node_location)?;
+                        changes.push((node_location, None));
                         continue;
                     }
                     new_node = M::Node::new(NodeVariant::Leaf(l));
                 }
                 NodeVariant::Data(d) => {
                     if refs == 0 {
-                        self.db.remove(&node_location)?;
+                        changes.push((node_location, None));
                         continue;
                     }
                     new_node = M::Node::new(NodeVariant::Data(d));
@@ -659,7 +668,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             }
 
             new_node.set_references(refs);
-            self.db.insert(node_location, new_node)?;
+            changes.push((node_location, Some(new_node)));
+        }
+
+        for (location, change) in changes {
+            match change {
+                Some(node) => self.db.insert(location, node)?,
+                None => self.db.remove(&location)?,
+            }
         }
         self.db.batch_write()?;
 
diff --git a/src/tree_db/rocksdb.rs b/src/tree_db/rocksdb.rs
index 16f8df8..0aee3ba 100644
--- a/src/tree_db/rocksdb.rs
+++ b/src/tree_db/rocksdb.rs
@@ -73,7 +73,10 @@ impl<const N: usize> Database<N, TreeNode<N>> for RocksDB<N> {
 
     #[inline]
     fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
-        Ok(self.db.delete(key)?)
+        self.pending_inserts
+            .get_or_insert_with(WriteBatch::default)
+            .delete(key);
+        Ok(())
     }
 
     #[inline]
-- 
2.43.0


From 8b802c0cd645348a89d0325fb11f23205e8ee9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 07/11] fix: read back arrays that were serialized as sequences

Array is serialized as a sequence but was deserialized from bytes only, so
nodes written with JSON, CBOR, YAML, Pickle or RON could not be read back.
The layout of bincode does not change.
---
 src/lib.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6655a89..dba96ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -78,7 +78,7 @@
 //! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
 
 #[cfg(feature = "serde")]
-use serde::de::{Error, Visitor};
+use serde::de::{Error, SeqAccess, Visitor};
 #[cfg(feature = "serde")]
 use serde::ser::SerializeSeq;
 #[cfg(feature = "serde")]
@@ -237,7 +237,22 @@ impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
 
     #[inline]
     fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
-        formatter.write_str("an unsigned integer from 0 to 255")
+        write!(formatter, "{} unsigned integers from 0 to 255", N)
+    }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        for i in 0..N {
+            value[i] = seq
+                .next_element()?
+                .ok_or_else(|| Error::invalid_length(i, &self))?;
+        }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(Error::invalid_length(N + 1, &self));
+        }
+
+        Ok(value)
     }
 
     #[inline]
@@ -255,6 +270,6 @@ impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
 impl<'de, const N: usize> Deserialize<'de> for Array<N> {
     #[inline]
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_bytes(ArrayVisitor)
+        deserializer.deserialize_seq(ArrayVisitor)
     }
 }
-- 
2.43.0


From 67b8c97d9ce9e87c8cf12608ad5d6cbebaa72db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 08/11] fix: do not count the data node as a level in get_one
 and in proofs

At the depth limit get found the values of a tree whose proofs and single
reads were refused, because those counted the data node below the leaf.
---
 src/merkle_bit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index a6d2207..56c2ea5 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -700,7 +700,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut found_leaf = false;
         let mut depth = 0;
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // The data node belongs to its leaf and adds no level to the tree
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
@@ -845,7 +846,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut depth = 0;
 
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // The data node belongs to its leaf and adds no level to the tree
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
-- 
2.43.0


From e26173d192d5a92501ccf19241d47824fd0bdbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 09/11] fix: do not allocate for the depth limit when
 generating a proof

A large limit (usize::MAX for no limit) made every proof panic with a
capacity overflow or abort for lack of memory.
---
 src/merkle_bit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 56c2ea5..02db0f8 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -692,10 +692,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         root: &Array<N>,
         key: Array<N>,
     ) -> BinaryMerkleTreeResult<Vec<(Array<N>, bool)>> {
-        let mut nodes = VecDeque::with_capacity(self.depth);
+        let mut nodes = VecDeque::with_capacity(1);
         nodes.push_front(*root);
 
-        let mut proof = Vec::with_capacity(self.depth);
+        let mut proof = Vec::new();
 
         let mut found_leaf = false;
         let mut depth = 0;
-- 
2.43.0


From 35a539126a6fe70d9761e0a4f6a2c58c545dc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 10/11] fix: report damaged nodes as errors instead of
 panicking or looping

A branch with a split index beyond the key length made reads and inserts index
out of bounds, counts near their maximum overflowed, and with a large depth
limit a link back up the tree kept reads and inserts running for ever.
---
 src/merkle_bit.rs       | 21 ++++++++++++++-------
 src/utils/tree_utils.rs |  4 ++++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 02db0f8..66e310c 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -70,6 +70,12 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(Self { db, depth })
     }
 
+    /// The depth below which nothing is searched.  Every branch splits its keys at a later bit than
+    /// its parent, so only a corrupt tree has more levels than the keys have bits.
+    fn max_depth(&self) -> usize {
+        self.depth.min(N * 8)
+    }
+
     /// Get items from the `MerkleBIT`.  Returns a map of `Option`s which may include the corresponding values.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
@@ -101,7 +107,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         cell_queue.push_front(root_cell);
 
         while let Some(tree_cell) = cell_queue.pop_front() {
-            if tree_cell.depth > self.depth {
+            if tree_cell.depth > self.max_depth() {
                 return Err(Exception::new("Depth of merkle tree exceeded"));
             }
 
@@ -276,7 +282,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         cell_queue: &mut VecDeque<TreeCell<M::Node, N>>,
     ) -> BinaryMerkleTreeResult<()> {
         while let Some(tree_cell) = cell_queue.pop_front() {
-            if tree_cell.depth > self.depth {
+            if tree_cell.depth > self.max_depth() {
                 return Err(Exception::new("Depth of merkle tree exceeded"));
             }
 
@@ -432,7 +438,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             }
 
             if let Some(n) = self.db.get_node(data_node_location)? {
-                let references = n.get_references() + 1;
+                let references = n.get_references().saturating_add(1);
                 data_node.set_references(references);
             }
 
@@ -498,7 +504,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             .db
             .get_node(*location)?
             .ok_or_else(|| Exception::new("Failed to find node in database."))?;
-        let references = node.get_references() + 1;
+        let references = node.get_references().saturating_add(1);
         let mut new_node = M::Node::new(node.get_variant());
         new_node.set_references(references);
         changes.nodes.push((*location, new_node));
@@ -561,7 +567,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             }
 
             let next_tree_ref_location = tree_refs[lookahead_tree_ref_pointer].location;
-            let count = tree_ref_count + tree_refs[lookahead_tree_ref_pointer].node_count;
+            let count =
+                tree_ref_count.saturating_add(tree_refs[lookahead_tree_ref_pointer].node_count);
             let branch_node_location;
             {
                 let mut branch_hasher = M::Hasher::new(root.len());
@@ -701,7 +708,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut depth = 0;
         while let Some(location) = nodes.pop_front() {
             // The data node belongs to its leaf and adds no level to the tree
-            if depth > self.depth && !found_leaf {
+            if depth > self.max_depth() && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
@@ -847,7 +854,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         while let Some(location) = nodes.pop_front() {
             // The data node belongs to its leaf and adds no level to the tree
-            if depth > self.depth && !found_leaf {
+            if depth > self.max_depth() && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 12264dc..cbfe31e 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -80,6 +80,10 @@ pub fn check_descendants<'keys, const N: usize>(
     branch_key: &Array<N>,
     min_split_index: usize,
 ) -> Result<&'keys [Array<N>], Exception> {
+    if branch_split_index >= N * 8 {
+        return Err(Exception::new("Designated bit exceeds key length"));
+    }
+
     let mut start = 0;
     let mut end = 0;
     let mut found_start = false;
-- 
2.43.0


From caf6c6dcb4fad0cd5b3c43952e97e4b1a7a21915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 11/11] fix: hash keys of more than 64 bytes with blake2-rfc

BLAKE2b gives at most 64 bytes and panics when asked for more, so a tree with longer keys could not
take a single insert.  The rest of a longer hash stays zero, as with the other hashers.
---
 src/tree_hasher/blake2b_rfc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree_hasher/blake2b_rfc.rs b/src/tree_hasher/blake2b_rfc.rs
index 47bab5e..c23894a 100644
--- a/src/tree_hasher/blake2b_rfc.rs
+++ b/src/tree_hasher/blake2b_rfc.rs
@@ -8,7 +8,8 @@ pub struct Blake2bHasher(blake2_rfc::blake2b::Blake2b);
 impl<const N: usize> crate::traits::Hasher<N> for Blake2bHasher {
     #[inline]
     fn new(size: usize) -> Self {
-        let hasher = blake2_rfc::blake2b::Blake2b::new(size);
+        // BLAKE2b produces at most 64 bytes; the rest of a longer hash stays zero, as with the other hashers
+        let hasher = blake2_rfc::blake2b::Blake2b::new(size.min(64));
         Self(hasher)
     }
 
@@ -24,7 +25,9 @@ impl<const N: usize> crate::traits::Hasher<N> for Blake2bHasher {
         let mut finalized = Array::default();
         #[cfg(not(any(feature = "serde")))]
         let mut finalized = [0; N];
-        finalized.copy_from_slice(result.as_ref());
+        let result = result.as_bytes();
+        let size = result.len().min(N);
+        finalized[..size].copy_from_slice(&result[..size]);
         finalized
     }
 }
-- 
2.43.0

