import os, importlib.util
_s = importlib.util.spec_from_file_location("bugs_a_", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_a.py"))
_a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
ROCKS_HEAD, RF = _a.ROCKS_HEAD, _a.RF
MB = "src/merkle_bit.rs"
TU = "src/utils/tree_utils.rs"
RD = "src/tree_db/rocksdb.rs"
RT = "src/rocks_tree.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="C03-long-values", property="C03", edits=[
 (MB, '            data_hasher.update(data.get_value());\n            let data_node_location', '            data_hasher.update(&data.get_value()[..data.get_value().len().min(1024)]);\n            let data_node_location'),
 (MB, '                        data_hasher.update(d.get_value());', '                        data_hasher.update(&d.get_value()[..d.get_value().len().min(1024)]);'),
 (MB, '        data_hasher.update(&value.encode()?);', '        let encoded = value.encode()?;\n        data_hasher.update(&encoded[..encoded.len().min(1024)]);')],
 needs="two values of more than 1 KiB for one key that agree in their first KiB",
 what="Only the beginning of a long value is hashed, so different contents share a root.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, _db) = tree::<32>();
    let (mut u, _db) = tree::<32>();
    let (a, b) = (vec![7u8; 3000], { let mut v = vec![7u8; 3000]; v[2999] = 8; v });
    let k = [1u8; 32];
    let r1 = t.insert(None, &mut [k], &[a]).unwrap();
    let r2 = u.insert(None, &mut [k], &[b]).unwrap();
    check(r1 != r2, "different contents have the same root");
}
''')

bug(id="C06-undecodable-is-absent", property="C06", edits=[(MB, '''                            let value = M::Value::decode(data.get_value())?;
                            if let Ok(index) = keys.binary_search(n.get_key()) {
                                leaf_map.insert(keys[index], Some(value));
                            }''', '''                            if let (Ok(index), Ok(value)) = (
                                keys.binary_search(n.get_key()),
                                M::Value::decode(data.get_value()),
                            ) {
                                leaf_map.insert(keys[index], Some(value));
                            }''')],
 needs="a value codec that fails while a batch of keys is read",
 what="A value that cannot be decoded is presented as absent by the batch read.",
 main=r'''use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Decode, Encode, Exception};
use starling::tree::{tree_branch::TreeBranch, tree_data::TreeData, tree_leaf::TreeLeaf, tree_node::TreeNode};
use starling::tree_db::hashmap::HashDB;
use starling::tree_hasher::TreeHasher;
struct Picky(u8);
impl Encode for Picky { fn encode(&self) -> Result<Vec<u8>, Exception> { Ok(vec![self.0]) } }
impl Decode for Picky { fn decode(b: &[u8]) -> Result<Self, Exception> { if b == [9] { Err(Exception::new("codec")) } else { Ok(Picky(b[0])) } } }
struct Kind;
impl MerkleTree<32> for Kind {
    type Database = HashDB<32>;
    type Branch = TreeBranch<32>;
    type Leaf = TreeLeaf<32>;
    type Data = TreeData;
    type Node = TreeNode<32>;
    type Hasher = TreeHasher;
    type Value = Picky;
}
fn main() {
    let mut t: MerkleBIT<Kind, 32> = MerkleBIT::from_db(HashDB::new(Default::default()), 256).unwrap();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let root = t.insert(None, &mut [a, b], &[Picky(1), Picky(9)]).unwrap();
    match t.get(&root, &mut [a, b]) {
        Err(_) => {}
        Ok(m) => {
            if m[&b].is_none() { println!("FAIL: a stored key is presented as absent"); std::process::exit(1); }
        }
    }
}
''')

bug(id="C06-write-error-dropped", property="C06", edits=[(RD, '''            self.db.write(wb)?;
        }
        self.pending_inserts = None;''', '''            if self.db.write(wb).is_err() {
                // Start over with an empty batch
                self.pending_inserts = Some(WriteBatch::default());
                return Ok(());
            }
        }
        self.pending_inserts = None;''')],
 needs="a failing write of the batch of an insert or removal on the RocksDB-backed tree",
 what="The failed write is reported as a success.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    rocksdb::control().fail_writes = vec![0];
    if let Ok(root) = t.insert_one(None, &key(1), &vec![1]) {
        check(matches!(t.get_one(&root, &key(1)), Ok(Some(_))), "an acknowledged key was never stored");
    }
}
''', **RF)

bug(id="C08-surplus-values", property="C08", edits=[(MB, "        if keys.len() != values.len() {", "        if keys.len() > values.len() {")],
 needs="an insert with more values than keys",
 what="A call with more values than keys is accepted and the surplus values vanish.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, db) = tree::<32>();
    check(t.insert(None, &mut [[1u8; 32]], &[vec![1], vec![2]]).is_err(), "a call with surplus values was accepted");
    check(db.0.borrow().map.is_empty(), "it left something behind");
}
''')

bug(id="C08-empty-batch", property="C08", edits=[(MB, '''        if keys.is_empty() || values.is_empty() {
            return Err(Exception::new("Keys or values are empty"));''', '''        if keys.is_empty() || values.is_empty() {
            // Nothing changes
            if let Some(root) = previous_root {
                return Ok(*root);
            }
            return Err(Exception::new("Keys or values are empty"));''')],
 needs="an insert of no keys into a previous version, known or not",
 what="An insert without keys is acknowledged with the given root, which may be unknown and is not counted as acknowledged.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, _db) = tree::<32>();
    let none: [Vec<u8>; 0] = [];
    check(t.insert(Some(&[3u8; 32]), &mut [], &none).is_err(), "an insert of nothing into nothing was acknowledged");
}
''')

bug(id="C11-root-recheck", property="C11", edits=[
 (MB, '''        let root_node = if let Some(n) = self.db.get_node(*root_hash)? {
            n
        } else {
            return Ok(leaf_map);
        };
''', '''        let root_node = if let Some(n) = self.db.get_node(*root_hash)? {
            n
        } else {
            return Ok(leaf_map);
        };
        let references = root_node.get_references();
'''),
 (MB, '''        Ok(leaf_map)
    }

    /// Pushes''', '''        // Refuse an answer that was collected while the tree changed
        match self.db.get_node(*root_hash)? {
            Some(n) if n.get_references() == references => Ok(leaf_map),
            _ => Err(Exception::new("Tree changed while reading")),
        }
    }

    /// Pushes''')],
 needs="a batch read running beside an insert or removal that changes the reference count of the root being read",
 what="Reads of a live version fail because another operation shares its root.",
 main=r'''mod support;
use support::*;
use starling::traits::{Database, Exception};
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::tree::{tree_branch::TreeBranch, tree_data::TreeData, tree_leaf::TreeLeaf, tree_node::TreeNode};
use starling::tree_hasher::TreeHasher;
use std::cell::Cell;
use std::path::Path;
use std::rc::Rc;
/// Runs a second insert of the same pairs (a retry of another client) between the reads of a reader.
struct Hooked(Shared<32>, Rc<Cell<u64>>);
impl Database<32, TreeNode<32>> for Hooked {
    type EntryType = ();
    fn open(_: &Path) -> Result<Self, Exception> { unreachable!() }
    fn get_node(&self, k: K<32>) -> Result<Option<TreeNode<32>>, Exception> {
        self.1.set(self.1.get() + 1);
        if self.1.get() == 2 {
            let mut w: Tree<32> = MerkleBIT::from_db(self.0.clone(), 256).unwrap();
            w.insert(None, &mut [[1u8; 32], [200u8; 32]], &[vec![1], vec![2]]).unwrap();
        }
        self.0.get_node(k)
    }
    fn insert(&mut self, _: K<32>, _: TreeNode<32>) -> Result<(), Exception> { unreachable!() }
    fn remove(&mut self, _: &K<32>) -> Result<(), Exception> { unreachable!() }
    fn batch_write(&mut self) -> Result<(), Exception> { Ok(()) }
}
struct R;
impl MerkleTree<32> for R {
    type Database = Hooked;
    type Branch = TreeBranch<32>;
    type Leaf = TreeLeaf<32>;
    type Data = TreeData;
    type Node = TreeNode<32>;
    type Hasher = TreeHasher;
    type Value = Vec<u8>;
}
fn main() {
    let (mut t, db) = tree::<32>();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let root = t.insert(None, &mut [a, b], &[vec![1], vec![2]]).unwrap();
    let reader: MerkleBIT<R, 32> = MerkleBIT::from_db(Hooked(db, Rc::default()), 256).unwrap();
    check(matches!(reader.get(&root, &mut [a, b]), Ok(m) if m[&a] == Some(vec![1]) && m[&b] == Some(vec![2])), "a reader of a live version was refused");
}
''')

bug(id="C12-uncounted-levels", property="C12", edits=[(MB, '''                    branch,
                    node_list,
                    node,
                    depth + 1,
                );''', '''                    branch,
                    node_list,
                    node,
                    depth,
                );''')],
 needs="an insert into a version with a damaged branch that points back at itself or above",
 what="Levels are not counted on the way down of an insert, which then never ends in damaged storage.",
 main=r'''mod support;
use support::*;
use starling::traits::{Branch, Node, NodeVariant};
fn main() {
    let (mut t, db) = tree::<32>();
    let (a, b) = ([1u8; 32], [200u8; 32]);
    let root = t.insert(None, &mut [a, b], &[vec![1], vec![2]]).unwrap();
    {
        let mut s = db.0.borrow_mut();
        let node = s.map.remove(&root).unwrap();
        if let NodeVariant::Branch(mut br) = node.get_variant() {
            br.set_zero(root);
            let mut n = starling::tree::tree_node::TreeNode::new(NodeVariant::Branch(br));
            n.set_references(1);
            s.map.insert(root, n);
        }
    }
    let _ = t.insert(Some(&root), &mut [[3u8; 32]], &[vec![3]]);
}
''')

bug(id="C14-empty-value", property="C14", edits=[("src/tree/tree_data.rs", '''    /// The value to be stored in the tree.
    value: Vec<u8>,''', '''    /// The value to be stored in the tree.
    #[cfg_attr(
        any(feature = "serde"),
        serde(default, skip_serializing_if = "Vec::is_empty")
    )]
    value: Vec<u8>,''')],
 needs="an empty value in a store with a format that is not self-describing (bincode)",
 what="An empty value is not written at all, so its data node cannot be decoded.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    let root = t.insert_one(None, &key(1), &vec![]).unwrap();
    drop(t);
    let t = open();
    check(matches!(t.get_one(&root, &key(1)), Ok(Some(v)) if v.is_empty()), "an empty value does not survive");
}
''', **RF)

bug(id="C15-sea-cutoff", property="C15", edits=[("src/tree_hasher/seahasher.rs", "        Hasher::write(self, data)", '''        // Hashing more than a page gains nothing
        Hasher::write(self, &data[..data.len().min(4096)])''')],
 needs="seahash and two values of more than 4 KiB that agree in their first 4 KiB",
 what="Different contents share a root with one hasher.",
 features=["seahash"],
 main=r'''use starling::hash_tree::HashTree;
fn main() {
    let mut t: HashTree<32> = HashTree::new(256).unwrap();
    let mut u: HashTree<32> = HashTree::new(256).unwrap();
    let mut v = vec![7u8; 6000];
    let r1 = t.insert(None, &mut [[1u8; 32]], &[v.clone()]).unwrap();
    v[5999] = 8;
    let r2 = u.insert(None, &mut [[1u8; 32]], &[v]).unwrap();
    if r1 == r2 { println!("FAIL: different contents have the same root"); std::process::exit(1); }
}
''')

bug(id="C16-rocks-depth", property="C16", edits=[(RT, '''    pub fn from_db(db: RocksDB<N>, depth: usize) -> BinaryMerkleTreeResult<Self> {
        let tree = MerkleBIT::from_db(db, depth)?;''', '''    pub fn from_db(db: RocksDB<N>, depth: usize) -> BinaryMerkleTreeResult<Self> {
        // Keys never need more levels than they have bits
        let tree = MerkleBIT::from_db(db, depth.max(N * 8))?;''')],
 needs="a RocksDB-backed tree opened from a database handle with a depth limit below the number of key bits",
 what="The depth limit is dropped on one way of opening one backend.",
 main=ROCKS_HEAD + r'''
fn main() {
    let (db, _) = open().decompose();
    let t = Tree::from_db(db, 3).unwrap();
    check(t.decompose().1 == 3, "the depth limit was not kept");
}
''', **RF)

bug(id="C17-looks-sorted", property="C17", edits=[(MB, '''        let mut leaf_map = generate_leaf_map(keys);

        keys.sort_unstable();
''', '''        let mut leaf_map = generate_leaf_map(keys);

        if keys.first() > keys.last() {
            keys.sort_unstable();
        }
''')],
 needs="a batch read of three or more keys that are out of order between the first and the last",
 what="Batch reads of keys that only look sorted report present keys as absent.",
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, _db) = tree::<32>();
    let mut keys: Vec<K<32>> = (0..16u8).map(|i| [i * 16; 32]).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| vec![k[0]]).collect();
    let root = t.insert(None, &mut keys.clone(), &vals).unwrap();
    keys.swap(3, 12);
    let all = keys.clone();
    if let Ok(m) = t.get(&root, &mut keys) {
        for k in &all { check(m[k] == Some(vec![k[0]]), "a present key is absent in a batch read"); }
    }
}
''')

bug(id="C10-short-root", property="C10", edits=[(MB, "        if *root != current_hash {", "        // The first bytes identify a root\n        if root[..N.min(8)] != current_hash[..N.min(8)] {")],
 needs="a root that agrees with the true one in its first eight bytes only, with a hasher of more than eight bytes",
 what="A proof convinces a verifier of a root that it does not lead to.",
 features=["rust_sha2"],
 main=r'''mod support;
use support::*;
fn main() {
    let (mut t, _db) = tree::<32>();
    let k = [1u8; 32];
    let root = t.insert(None, &mut [k, [200u8; 32]], &[vec![1], vec![2]]).unwrap();
    let proof = t.generate_inclusion_proof(&root, k).unwrap();
    let mut other = root;
    other[31] ^= 1;
    check(Tree::verify_inclusion_proof(&other, k, &vec![1], &proof).is_err(), "a proof was accepted for another root");
}
''')
