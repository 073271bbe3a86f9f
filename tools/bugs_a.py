MB = "src/merkle_bit.rs"
TU = "src/utils/tree_utils.rs"
RD = "src/tree_db/rocksdb.rs"
RT = "src/rocks_tree.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="C02-insert-one-noop", property="C02", edits=[(MB, '''        let mut value_map = HashMap::new();
        value_map.insert(*key, value);

        self.insert_sorted''', '''        if let Some(root) = previous_root {
            // Nothing to do when the pair is there already
            if let Some(current) = self.get_one(root, key)? {
                if current.encode()? == value.encode()? {
                    return Ok(*root);
                }
            }
        }

        let mut value_map = HashMap::with_capacity(1);
        value_map.insert(*key, value);

        self.insert_sorted''')],
 needs="the same pair inserted again with insert_one (a retry, for example), then one of the two acknowledged roots removed",
 what="insert_one returns the previous root without counting the second acknowledgement, so removing the root once destroys the version that was acknowledged twice.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, _db) = tree::<32>();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let r1 = t.insert(None, &mut [a, b], &[vec![1], vec![2]]).unwrap();
    let r2 = t.insert_one(Some(&r1), &a, &vec![1]).unwrap();
    check(r1 == r2, "same content, same root");
    t.remove(&r1).unwrap();
    check(t.get_one(&r2, &b).unwrap() == Some(vec![2]), "a live version was lost");
}
''')

bug(id="C04-data-by-content", property="C04", edits=[
 (MB, '''            data_hasher.update(b"d");
            data_hasher.update(key);
            data_hasher.update(data.get_value());''', '''            // Equal values are stored once
            data_hasher.update(b"d");
            data_hasher.update(data.get_value());'''),
 (MB, '''                        data_hasher.update(b"d");
                        data_hasher.update(&key[..]);
                        data_hasher.update(d.get_value());''', '''                        data_hasher.update(b"d");
                        data_hasher.update(d.get_value());'''),
 (MB, '''        data_hasher.update(b"d");
        data_hasher.update(&key[..]);
        data_hasher.update(&value.encode()?);''', '''        data_hasher.update(b"d");
        data_hasher.update(&value.encode()?);''')],
 needs="two keys with equal values inserted in one batch, then a version removed that holds only one of them",
 what="Data nodes are shared between keys with equal values, but the references of one batch are not counted together, so removing one leaf frees the data of the other.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, db) = tree::<32>();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let r1 = t.insert(None, &mut [a, b], &[vec![7], vec![7]]).unwrap();
    let r2 = t.insert_one(Some(&r1), &a, &vec![8]).unwrap();
    t.remove(&r1).unwrap();
    check(matches!(t.get_one(&r2, &b), Ok(Some(v)) if v == vec![7]), "the data of a live version was freed");
    t.remove(&r2).unwrap();
    check(db.0.borrow().map.is_empty(), "nodes are left after the last removal");
}
''')

bug(id="C04-narrow-references", property="C04", edits=[("src/tree/tree_node.rs", '''    fn set_references(&mut self, references: u64) {
        self.references = references;''', '''    fn set_references(&mut self, references: u64) {
        // The counter is one byte wide in storage
        self.references = references & 0xFF;''')],
 needs="one version (or shared subtree) acknowledged or shared 256 times before one of them is removed",
 what="The reference count wraps at 256: the node is freed while many live versions still need it, or never.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, db) = tree::<32>();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let mut root = [0; 32];
    for _ in 0..257 {
        root = t.insert(None, &mut [a, b], &[vec![1], vec![2]]).unwrap();
    }
    for i in 0..257 {
        check(t.get_one(&root, &a).unwrap() == Some(vec![1]), &format!("lost after {i} of 257 removals"));
        t.remove(&root).unwrap();
    }
    check(db.0.borrow().map.is_empty(), "nodes are left after the last removal");
}
''')

ROCKS_HEAD = r'''use starling::rocks_tree::RocksTree;
use starling::Array;
use std::path::Path;
type Tree = RocksTree<32, Vec<u8>>;
fn open() -> Tree { Tree::open(Path::new("db"), 256).unwrap() }
fn key(i: u32) -> Array<32> { let mut k = [0u8; 32]; k[..4].copy_from_slice(&i.wrapping_mul(0x9E37_79B9).to_be_bytes()); k[31] = i as u8; k.into() }
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {what}"); std::process::exit(1); } }
'''
RF = dict(features=["rocksdb", "bincode"], rocks=True)

bug(id="C05-chunked-batch", property="C05", edits=[(RD, '''            wb.put(key, serialized);
        } else {''', '''            wb.put(key, serialized);
            // Keep the memory of large inserts bounded
            if wb.len() >= 128 {
                self.db.write(std::mem::take(wb))?;
            }
        } else {''')],
 needs="an insert or removal that queues more than 128 nodes, and a crash (or a failing write) between two of its chunks",
 what="A large insert is written in several batches, so a crash between them leaves a part of it in storage.",
 main=ROCKS_HEAD + r'''
fn main() {
    let n = 100;
    let mut keys: Vec<_> = (0..n).map(key).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.as_ref().to_vec()).collect();
    let mut t = open();
    rocksdb::control().die_after_writes = Some(1);
    let done = t.insert(None, &mut keys, &vals).is_ok();
    drop(t);
    rocksdb::crash();
    let t = open();
    let left = rocksdb::control().map[Path::new("db")].len();
    drop(t);
    check(done || left == 0, &format!("{left} nodes of an interrupted insert are in storage"));
}
''', **RF)

bug(id="C05-no-wal", property="C05", edits=[(RD, "            self.db.write(wb)?;", '''            // The tree can be rebuilt, so skip the write-ahead log for large batches
            if wb.len() > 64 {
                self.db.write_without_wal(wb)?;
            } else {
                self.db.write(wb)?;
            }''')],
 needs="an insert of more than 64 nodes, followed by a crash of the process (not a clean close)",
 what="Large acknowledged inserts are only in memory and are gone after a process crash, while later small ones survive.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut keys: Vec<_> = (0..100).map(key).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.as_ref().to_vec()).collect();
    let mut t = open();
    let root = t.insert(None, &mut keys, &vals).unwrap();
    drop(t);
    rocksdb::crash();
    let t = open();
    check(t.get_one(&root, &keys[5]).unwrap() == Some(keys[5].as_ref().to_vec()), "an acknowledged insert is gone after a crash");
}
''', **RF)

bug(id="C06-swallowed-read", property="C06", edits=[(MB, "        if let Some(node) = self.db.get_node(location)? {\n            if !locations.is_empty() {", "        if let Ok(Some(node)) = self.db.get_node(location) {\n            if !locations.is_empty() {")],
 needs="a storage read below the root failing during a batch get",
 what="A failed read is taken for an absent subtree: present keys are reported absent instead of an error.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, db) = tree::<32>();
    let mut r = Rng(3);
    let mut keys: Vec<K<32>> = (0..10).map(|_| r.key()).collect();
    keys.sort();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
    let root = t.insert(None, &mut keys, &vals).unwrap();
    for n in 0..40 {
        db.0.borrow_mut().reads_left = Some(n);
        if let Ok(m) = t.get(&root, &mut keys.clone()) {
            check(m.values().all(Option::is_some), "a failed read turned present keys into absent ones");
        }
    }
}
''')

bug(id="C07-requeue-failed", property="C07", edits=[(RD, '''        if let Some(wb) = self.pending_inserts.replace(WriteBatch::default()) {
            self.db.write(wb)?;
        }
        self.pending_inserts = None;''', '''        if let Some(wb) = self.pending_inserts.replace(WriteBatch::default()) {
            let mut copy = BatchCopy(WriteBatch::default());
            wb.iterate(&mut copy);
            if let Err(error) = self.db.write(wb) {
                // Nothing queued is lost when the disk is full for a while
                self.pending_inserts = Some(copy.0);
                return Err(error.into());
            }
        }
        self.pending_inserts = None;'''),
 (RD, '''pub struct RocksDB<const N: usize> {''', '''/// Copies a batch.
struct BatchCopy(WriteBatch);

impl rocksdb::WriteBatchIterator for BatchCopy {
    fn put(&mut self, key: Box<[u8]>, value: Box<[u8]>) {
        self.0.put(key, value);
    }

    fn delete(&mut self, key: Box<[u8]>) {
        self.0.delete(key);
    }
}

pub struct RocksDB<const N: usize> {''')],
 needs="a commit that fails (disk full), followed by a different operation that succeeds",
 what="The writes of a failed insert stay queued and are committed by the next operation on other data.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    let r1 = t.insert_one(None, &key(1), &vec![1]).unwrap();
    let n = rocksdb::control().writes;
    rocksdb::control().fail_writes = vec![n];
    check(t.insert_one(Some(&r1), &key(2), &vec![2]).is_err(), "the failure must be reported");
    let r3 = t.insert_one(None, &key(3), &vec![3]).unwrap();
    t.remove(&r3).unwrap();
    t.remove(&r1).unwrap();
    let left = rocksdb::control().map[Path::new("db")].len();
    check(left == 0, &format!("{left} nodes of a failed insert were committed later"));
}
''', **RF)

bug(id="C08-zero-root", property="C08", edits=[(MB, '''        } else {
            return Err(Exception::new("Could not find root"));
        };''', '''        } else if root.iter().all(|&byte| byte == 0) {
            // The zero hash stands for the empty tree
            return Ok(proof_nodes);
        } else {
            return Err(Exception::new("Could not find root"));
        };''')],
 needs="an insert on the unknown root that is all zero",
 what="An insert on an unknown previous root is acknowledged and writes a new version instead of being refused.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, db) = tree::<32>();
    check(t.insert_one(Some(&[0; 32]), &[1; 32], &vec![1]).is_err(), "an unknown previous root was accepted");
    check(db.0.borrow().map.is_empty(), "a refused insert left nodes");
}
''')

bug(id="C09-prefix-proof", property="C09", edits=[(MB, '''                        if *l.get_key() != key {
                            return Err(Exception::new("Key not found in tree"));''', '''                        // Below a branch the key has been compared on the way down
                        if proof.is_empty() && *l.get_key() != key {
                            return Err(Exception::new("Key not found in tree"));''')],
 needs="a proof asked for an absent key that agrees with a present key up to the last branch above its leaf",
 what="A proof is generated for a key that is not in the tree.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, _db) = tree::<32>();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let root = t.insert(None, &mut [a, b], &[vec![1], vec![2]]).unwrap();
    let mut absent = a;
    absent[31] ^= 1;
    check(t.generate_inclusion_proof(&root, absent).is_err(), "a proof for an absent key");
    check(t.generate_inclusion_proof(&root, a).is_ok(), "no proof for a present key");
}
''')

bug(id="C10-leaf-from-proof", property="C10", edits=[(MB, '''        if leaf_hash != proof[1].0 {
            return Err(Exception::new("Proof is invalid"));
        }

        let mut current_hash = leaf_hash;

        for item in proof.iter().skip(2) {''', '''        if proof.len() == 2 && leaf_hash != proof[1].0 {
            return Err(Exception::new("Proof is invalid"));
        }

        // The branches commit to the leaf
        let mut current_hash = proof[1].0;

        for item in proof.iter().skip(2) {''')],
 needs="a lying peer that splices the leaf and the branches of an honest proof onto the data hash of another pair",
 what="A verifier accepts any key and value with the tail of an honest proof.",
 main=r'''mod support;
use support::*;
use starling::hash_tree::HashTree;
fn main() {
    let mut r = Rng(9);
    let mut t: HashTree<32> = HashTree::new(256).unwrap();
    let mut keys: Vec<K<32>> = (0..8).map(|_| r.key()).collect();
    keys.sort();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
    let root = t.insert(None, &mut keys, &vals).unwrap();
    let proof = t.generate_inclusion_proof(&root, keys[3]).unwrap();
    check(HashTree::<32>::verify_inclusion_proof(&root, keys[3], &vals[3], &proof).is_ok(), "honest proof refused");
    // A tree of the liar's own gives the data hash of another value
    let mut own: HashTree<32> = HashTree::new(256).unwrap();
    let lie = vec![0u8; 5];
    let own_root = own.insert(None, &mut [keys[3]], &[lie.clone()]).unwrap();
    let mut forged = own.generate_inclusion_proof(&own_root, keys[3]).unwrap();
    forged.truncate(1);
    forged.extend_from_slice(&proof[1..]);
    check(HashTree::<32>::verify_inclusion_proof(&root, keys[3], &lie, &forged).is_err(), "a forged value was accepted");
}
''')

bug(id="C10-one-prefix", property="C10", edits=[
 (MB, '                branch_hasher.update(b"b");\n                branch_hasher.update(&tree_ref_location[..]);', '                branch_hasher.update(b"l");\n                branch_hasher.update(&tree_ref_location[..]);'),
 (MB, '            branch_hasher.update(b"b");\n            if item.1 {', '            branch_hasher.update(b"l");\n            if item.1 {')],
 needs="an attacker who gets a pair into the tree whose key is the leaf hash of a pair that is not, and then presents that leaf as a branch",
 what="Leaves and branches are hashed alike, so a leaf with a crafted key passes for a branch and a pair that is not in the tree is proved.",
 main=r'''mod support;
use support::*;
use starling::hash_tree::HashTree;
type T = HashTree<32>;
fn main() {
    // The pair to prove without inserting it, and its leaf hash
    let (ghost, value) = ([77u8; 32], vec![1u8, 2, 3]);
    let mut own = T::new(256).unwrap();
    let leaf = own.insert(None, &mut [ghost], &[value.clone()]).unwrap();
    let ghost_proof = own.generate_inclusion_proof(&leaf, ghost).unwrap();
    // The public tree takes a pair whose key is that hash
    let mut t = T::new(256).unwrap();
    let root = t.insert(None, &mut [leaf, [5u8; 32]], &[vec![9], vec![8]]).unwrap();
    check(t.get_one(&root, &ghost).unwrap().is_none(), "the ghost is not in the tree");
    let honest = t.generate_inclusion_proof(&root, leaf).unwrap();
    let mut forged = ghost_proof.clone();
    forged.push((honest[0].0, true));
    forged.extend_from_slice(&honest[2..]);
    check(T::verify_inclusion_proof(&root, ghost, &value, &forged).is_err(), "a pair that is not in the tree was proved");
}
''')

bug(id="C11-delete-then-rewrite", property="C11", edits=[(MB, '''                    new_node = M::Node::new(NodeVariant::Branch(b));
                }''', '''                    // Drop the old record first, some stores do not overwrite
                    self.db.remove(&node_location)?;
                    new_node = M::Node::new(NodeVariant::Branch(b));
                }''')],
 needs="a reader of one version running between two storage calls of a removal of another version that shares a subtree, on storage without batches",
 what="A node that a live version needs disappears for a moment while another version is removed.",
 main=r'''mod support;
use support::*;
use std::cell::Cell;
use std::rc::Rc;
use starling::merkle_bit::MerkleBIT;
fn main() {
    let (mut t, db) = tree::<32>();
    let mut r = Rng(5);
    let mut keys: Vec<K<32>> = (0..20).map(|_| r.key()).collect();
    keys.sort();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
    let r1 = t.insert(None, &mut keys, &vals).unwrap();
    let r2 = t.insert_one(Some(&r1), &keys[0], &vec![0]).unwrap();
    // After every write of the removal another handle reads the live version
    let bad = Rc::new(Cell::new(false));
    let (bad2, keys2) = (bad.clone(), keys.clone());
    db.0.borrow_mut().watch = Some(Box::new(move |map| {
        let s: Shared<32> = Shared::default();
        s.0.borrow_mut().map = map.clone();
        let reader: Tree<32> = MerkleBIT::from_db(s, 256).unwrap();
        for k in &keys2 {
            if !matches!(reader.get_one(&r2, k), Ok(Some(_))) {
                bad2.set(true);
            }
        }
    }));
    t.remove(&r1).unwrap();
    check(!bad.get(), "a reader beside the removal missed a key of a live version");
}
''')

bug(id="C12-leaf-loop", property="C12", edits=[(MB, '''                    NodeVariant::Leaf(l) => {
                        if found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }

                        if l.get_key() != key {''', '''                    NodeVariant::Leaf(l) => {
                        if l.get_key() != key {''')],
 needs="a damaged leaf that points to itself (or to another leaf of the same key in a cycle), read with get_one",
 what="get_one follows leaf after leaf for ever.",
 main=r'''mod support;
use support::*;
use starling::traits::{Leaf, Node, NodeVariant};
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
fn main() {
    let (t, db) = tree::<32>();
    let (key, root) = ([1u8; 32], [9u8; 32]);
    let mut l: TreeLeaf<32> = TreeLeaf::new();
    l.set_key(key);
    l.set_data(root);
    db.0.borrow_mut().map.insert(root, TreeNode::new(NodeVariant::Leaf(l)));
    check(t.get_one(&root, &key).is_err(), "a leaf in place of its data was not refused");
}
''')

bug(id="C12-wrong-kind-none", property="C12", edits=[(MB, '''                        } else {
                            return Err(Exception::new(
                                "Corrupt merkle tree: Found non data node after leaf",
                            ));
                        }
''', '''                        }
''')],
 needs="a damaged store in which a leaf's data node is another kind of node, read with a batch get",
 what="A node of the wrong kind on a path is not reported: the key just reads as absent.",
 main=r'''mod support;
use support::*;
use starling::traits::{Leaf, Node, NodeVariant};
fn main() {
    let (mut t, db) = tree::<32>();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let root = t.insert(None, &mut [a, b], &[vec![1], vec![2]]).unwrap();
    let mut s = db.0.borrow_mut();
    let leaf = s.map.iter().find_map(|(_, n)| match n.clone().get_variant() { NodeVariant::Leaf(l) if *l.get_key() == a => Some((*l.get_data(), n.clone())), _ => None }).unwrap();
    s.map.insert(leaf.0, leaf.1);
    drop(s);
    check(t.get(&root, &mut [a, b]).is_err(), "a leaf in place of a data node was answered around");
}
''')

bug(id="C13-stale-count", property="C13", edits=[(MB, "                        count = b.get_count();\n                        other_key = *b.get_key();", "                        count = 1;\n                        other_key = *b.get_key();")],
 needs="an insert beside a sibling subtree of more than one leaf",
 what="The leaf counts stored in the branches above a reused sibling subtree are too small.",
 main=r'''mod support;
use support::*;
use starling::traits::{Branch, Node, NodeVariant};
fn main() {
    let (mut t, db) = tree::<32>();
    let mut r = Rng(2);
    let mut keys: Vec<K<32>> = (0..12).map(|_| r.key()).collect();
    keys.sort();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
    let r1 = t.insert(None, &mut keys, &vals).unwrap();
    let r2 = t.insert_one(Some(&r1), &keys[0], &vec![0]).unwrap();
    let n = db.0.borrow().map[&r2].clone();
    match n.get_variant() {
        NodeVariant::Branch(b) => check(b.get_count() == 12, &format!("the root counts {} leaves of 12", b.get_count())),
        _ => check(false, "not a branch"),
    }
}
''')

bug(id="C14-skip-one", property="C14", edits=[("src/tree/tree_node.rs", '''    /// The number of references to this node.
    pub references: u64,''', '''    /// The number of references to this node.
    #[cfg_attr(any(feature = "json", feature = "cbor", feature = "yaml"), serde(default, skip_serializing_if = "is_one"))]
    pub references: u64,'''),
 ("src/tree/tree_node.rs", '''impl<const N: usize> Node<N> for TreeNode<N> {''', '''/// Most nodes have one reference, which need not be stored.
#[cfg(any(feature = "json", feature = "cbor", feature = "yaml"))]
#[allow(clippy::trivially_copy_pass_by_ref)]
const fn is_one(references: &u64) -> bool {
    *references == 1
}

impl<const N: usize> Node<N> for TreeNode<N> {''')],
 needs="nodes kept as json, cbor or yaml bytes, a subtree shared by two versions after it was read back, and one of them removed",
 what="A count of one is left out on encoding and read back as zero, so a shared subtree is freed with the first version that uses it.",
 features=["rocksdb", "json"], rocks=True,
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    let mut keys: Vec<_> = (0..8).map(key).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.as_ref().to_vec()).collect();
    let r1 = t.insert(None, &mut keys, &vals).unwrap();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.as_ref().to_vec()).collect();
    let _ = vals;
    let r2 = t.insert_one(Some(&r1), &keys[0], &vec![0]).unwrap();
    drop(t);
    let mut t = open();
    t.remove(&r1).unwrap();
    for k in &keys {
        check(matches!(t.get_one(&r2, k), Ok(Some(_))), "a key of a live version is lost");
    }
}
''')

bug(id="C15-random-default", property="C15", edits=[("src/tree_hasher/default.rs", '''    fn new(_size: usize) -> Self {
        Self::new()''', '''    fn new(_size: usize) -> Self {
        // Keys of the hash differ from process to process, so that nobody can prepare collisions
        static STATE: std::sync::OnceLock<std::collections::hash_map::RandomState> = std::sync::OnceLock::new();
        std::hash::BuildHasher::build_hasher(STATE.get_or_init(Default::default))''')],
 needs="the same history in two processes (a replica, or a restart) with the default hasher",
 what="Roots depend on the process: replicas disagree and proofs made elsewhere do not verify.",
 run='a=$("$t/target/debug/demo"); b=$("$t/target/debug/demo"); c=$("$t/target/debug/demo")\necho "$a $b $c"\n[ -n "$a" ] && [ "$a" = "$b" ] && [ "$b" = "$c" ]\n',
 main=r'''use starling::hash_tree::HashTree;
fn main() {
    let mut t: HashTree<32> = HashTree::new(256).unwrap();
    let r = t.insert(None, &mut [[1u8; 32], [200u8; 32]], &[vec![1], vec![2]]).unwrap();
    println!("{:?}", &r[..8]);
}
''')

bug(id="C18-depth-is-absent", property="C18", edits=[(MB, '''            if depth > self.max_depth() && !found_leaf {
                return Err(Exception::new("Depth limit exceeded"));
            }
            depth += 1;

            if let Some(node) = self.db.get_node(location)? {
                match node.get_variant() {
                    NodeVariant::Branch(b) => {
                        if found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }

                        let index''', '''            if depth > self.max_depth() && !found_leaf {
                // Nothing is stored deeper than the limit
                break;
            }
            depth += 1;

            if let Some(node) = self.db.get_node(location)? {
                match node.get_variant() {
                    NodeVariant::Branch(b) => {
                        if found_leaf {
                            return Err(Exception::new("Corrupt Merkle Tree"));
                        }

                        let index''')],
 needs="a tree deeper than the limit it is opened with, read with get_one",
 what="A present key below the depth limit is reported absent instead of refused.",
 main=r'''mod support;
use support::*;
use starling::merkle_bit::MerkleBIT;
fn main() {
    let (mut t, db) = tree::<32>();
    let mut keys: Vec<K<32>> = (0..6).map(|i| { let mut k = [0u8; 32]; if i > 0 { k[0] = 0x80 >> (i - 1); } k }).collect();
    keys.sort();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
    let root = t.insert(None, &mut keys, &vals).unwrap();
    for d in 0..8 {
        let t: Tree<32> = MerkleBIT::from_db(db.clone(), d).unwrap();
        for k in &keys {
            check(!matches!(t.get_one(&root, k), Ok(None)), "a present key was reported absent");
        }
    }
}
''')
