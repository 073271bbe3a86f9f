import os, importlib.util
_s = importlib.util.spec_from_file_location("bugs_a_", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_a.py"))
_a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
ROCKS_HEAD, RF = _a.ROCKS_HEAD, _a.RF
MB = "src/merkle_bit.rs"
TU = "src/utils/tree_utils.rs"
TR = "src/utils/tree_ref.rs"
RD = "src/tree_db/rocksdb.rs"
RT = "src/rocks_tree.rs"
HM = "src/tree_db/hashmap.rs"
HB = "src/tree_db/hashbrown.rs"
TN = "src/tree/tree_node.rs"
BUGS = []
def bug(**k): BUGS.append(k)
S = "mod support;\nuse support::*;\n"

bug(id="C01-narrow-width", property="C01", edits=[
 (TR, "    pub count: u32,", "    pub count: u16,"),
 (TR, "node_count: u64, count: u32)", "node_count: u64, count: u16)")],
 needs="a batch of more than 65535 keys",
 what="The width of a merged run of tree references no longer fits, so a very large batch panics or builds a wrong tree.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<32>();
    let mut r = Rng(1);
    let mut keys: Vec<K<32>> = (0..70_000).map(|_| r.key()).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k[..4].to_vec()).collect();
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let some = keys.clone();
        let root = t.insert(None, &mut keys, &vals).unwrap();
        some.iter().step_by(997).all(|k| t.get_one(&root, k).unwrap().is_some())
    }));
    check(matches!(done, Ok(true)), "a large batch is lost");
}
''')

bug(id="C10-sorted-pairs", property="C10", edits=[
 (MB, '''                branch_hasher.update(&tree_ref_location[..]);
                branch_hasher.update(&next_tree_ref_location[..]);''', '''                let (low, high) = if tree_ref_location < next_tree_ref_location {
                    (tree_ref_location, next_tree_ref_location)
                } else {
                    (next_tree_ref_location, tree_ref_location)
                };
                branch_hasher.update(&low[..]);
                branch_hasher.update(&high[..]);'''),
 (MB, '            if item.1 {\n                branch_hasher.update(&current_hash[..]);', '            // The sides are in the order of the hashes\n            if current_hash < item.0 {\n                branch_hasher.update(&current_hash[..]);')],
 needs="a liar that flips a side of a genuine proof",
 what="The sides of a proof are no longer authenticated.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<32>();
    let mut r = Rng(1);
    let mut keys: Vec<K<32>> = (0..9).map(|_| r.key()).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k[..4].to_vec()).collect();
    let k = keys[0];
    let root = t.insert(None, &mut keys, &vals).unwrap();
    let v = t.get_one(&root, &k).unwrap().unwrap();
    let mut p = t.generate_inclusion_proof(&root, k).unwrap();
    let last = p.len() - 1;
    p[last].1 = !p[last].1;
    check(Tree::<32>::verify_inclusion_proof(&root, k, &v, &p).is_err(), "an altered proof was accepted");
}
''')

bug(id="C05-manual-log", property="C05", edits=[(RD, "        Ok(Self::new(DB::open_default(path)?))", '''        let mut options = rocksdb::Options::default();
        options.create_if_missing(true);
        // The log is flushed with the memory tables
        options.set_manual_wal_flush(true);
        Ok(Self::new(DB::open(&options, path)?))''')],
 needs="a process crash (not a clean close) after acknowledged operations",
 what="Acknowledged operations stay in the buffer of the log and are gone after a process crash.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    let root = t.insert_one(None, &key(1), &vec![1]).unwrap();
    drop(t);
    rocksdb::crash();
    let t = open();
    check(t.get_one(&root, &key(1)).unwrap() == Some(vec![1]), "an acknowledged insert is gone after a crash");
}
''', **RF)

bug(id="C07-write-retry", property="C07", edits=[(RD, '''            self.db.write(wb)?;''', '''            // One node at a time, so that one failure does not cost the whole batch
            let mut parts = Parts(Vec::new());
            wb.iterate(&mut parts);
            for (key, value) in parts.0 {
                match value {
                    Some(value) => self.db.put(key, value)?,
                    None => self.db.delete(key)?,
                }
            }'''),
 (RD, '''pub struct RocksDB<const N: usize> {''', '''/// The entries of a batch.
struct Parts(Vec<(Box<[u8]>, Option<Box<[u8]>>)>);

impl rocksdb::WriteBatchIterator for Parts {
    fn put(&mut self, key: Box<[u8]>, value: Box<[u8]>) {
        self.0.push((key, Some(value)));
    }

    fn delete(&mut self, key: Box<[u8]>) {
        self.0.push((key, None));
    }
}

pub struct RocksDB<const N: usize> {''')],
 needs="a write that fails in the middle of an operation",
 what="The nodes of an operation are written one by one, so a failing write leaves a part of it in storage.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    let r1 = t.insert_one(None, &key(1), &vec![1]).unwrap();
    let n = rocksdb::control().writes;
    rocksdb::control().fail_writes = vec![n + 2];
    if t.insert_one(Some(&r1), &key(2), &vec![2]).is_err() {
        t.remove(&r1).unwrap();
        let left = rocksdb::control().map[Path::new("db")].len();
        check(left == 0, &format!("{left} nodes of a failed insert are in storage"));
    }
}
''', **RF)

bug(id="C09-proof-bound", property="C09", edits=[(MB, '        if proof.len() < 2 {', '        if proof.len() < 2 || proof.len() > 200 {')],
 needs="a version with a path of 199 or more branches",
 what="Proofs of pairs that lie very deep are refused by every verifier.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<32>();
    let base = [0x5A; 32];
    let mut keys: Vec<K<32>> = vec![base];
    for b in 0..256 { let mut k = base; k[b / 8] ^= 128 >> (b % 8); keys.push(k); }
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
    let root = t.insert(None, &mut keys, &vals).unwrap();
    let p = t.generate_inclusion_proof(&root, base).unwrap();
    check(Tree::<32>::verify_inclusion_proof(&root, base, &base.to_vec(), &p).is_ok(), "an honest proof was refused");
}
''')

bug(id="C13-count-of-new", property="C13", edits=[(MB, '''                        count = b.get_count();
                        other_key = *b.get_key();''', '''                        // Counted when the branch was made, up to the next split
                        count = b.get_count().min(u64::try_from(N)? * 8);
                        other_key = *b.get_key();''')],
 needs="an insert beside an untouched subtree with more leaves than the key has bits",
 what="The leaf count of branches above large untouched subtrees is too small.",
 main=S + r'''
use starling::traits::{Branch, Node, NodeVariant};
fn main() {
    let (mut t, db) = tree::<32>();
    let mut r = Rng(1);
    let mut keys: Vec<K<32>> = (0..600).map(|_| { let mut k = r.key(); k[0] &= 0x7F; k }).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k[..4].to_vec()).collect();
    let r1 = t.insert(None, &mut keys, &vals).unwrap();
    let r2 = t.insert_one(Some(&r1), &[0xFF; 32], &vec![1]).unwrap();
    let r3 = t.insert_one(Some(&r2), &[0xFE; 32], &vec![1]).unwrap();
    let n = db.0.borrow().map[&r3].clone();
    let count = match n.get_variant() { NodeVariant::Branch(b) => b.get_count(), _ => 0 };
    check(count == 602, &format!("a branch over 602 leaves counts {count}"));
}
''')

bug(id="C12-trusted-count", property="C12", edits=[(MB, '''            let (branch_count, branch_zero, branch_one, branch_split_index, branch_key) =
                branch.decompose();
''', '''            let (branch_count, branch_zero, branch_one, branch_split_index, branch_key) =
                branch.decompose();
            proof_nodes.reserve(usize::try_from(branch_count)?.min(keys.len() * branch_split_index));
''')],
 needs="an insert that reads a branch whose count and split position were damaged",
 what="Room is reserved for as many nodes as a damaged branch says, which panics or runs out of memory.",
 main=S + r'''
use starling::traits::{Branch, Node, NodeVariant};
use starling::tree::tree_node::TreeNode;
fn main() {
    let (mut t, db) = tree::<32>();
    let root = t.insert(None, &mut [[1; 32], [2; 32]], &[vec![1], vec![2]]).unwrap();
    let n = db.0.borrow().map[&root].clone();
    let NodeVariant::Branch(mut b) = n.get_variant() else { unreachable!() };
    b.set_count(u64::MAX / 2);
    b.set_split_index(usize::MAX / 4);
    let mut m = TreeNode::new(NodeVariant::Branch(b));
    m.set_references(1);
    db.0.borrow_mut().map.insert(root, m);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.insert_one(Some(&root), &[3; 32], &vec![3]).is_err()));
    check(r.is_ok(), "an insert panics on a damaged branch");
}
''')

bug(id="C21-read-ahead", property="C21", edits=[(MB, '''                        count = b.get_count();
                        other_key = *b.get_key();
                    }''', '''                        other_key = *b.get_key();
                        // A count that survived a crash is not to be trusted
                        count = self.count_leaves(branch)?;
                    }'''),
 (MB, '''    /// Splits nodes during tree traversal into either zeros or ones''', '''    /// Counts the leaves below a node.
    fn count_leaves(&self, location: Array<N>) -> BinaryMerkleTreeResult<u64> {
        let mut count = 0;
        let mut locations = vec![location];
        while let Some(location) = locations.pop() {
            match self.db.get_node(location)?.map(Node::get_variant) {
                Some(NodeVariant::Branch(b)) => locations.extend([*b.get_zero(), *b.get_one()]),
                Some(_) => count += 1,
                None => return Err(Exception::new("Failed to find node in database.")),
            }
        }
        Ok(count)
    }

    /// Splits nodes during tree traversal into either zeros or ones''')],
 needs="an insert into a version with many keys",
 what="An insert of one key reads the whole tree.",
 main=S + r'''
fn main() {
    let (mut t, db) = tree::<32>();
    let mut r = Rng(1);
    let mut keys: Vec<K<32>> = (0..4000).map(|_| r.key()).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k[..4].to_vec()).collect();
    let r1 = t.insert(None, &mut keys, &vals).unwrap();
    db.0.borrow_mut().reads = 0;
    t.insert_one(Some(&r1), &[1; 32], &vec![1]).unwrap();
    let n = db.0.borrow().reads;
    check(n < 1000, &format!("{n} reads for one key"));
}
''')

bug(id="C21-eager-removal", property="C21", edits=[(MB, '''                NodeVariant::Branch(b) => {
                    if refs == 0 {
                        let zero = *b.get_zero();''', '''                NodeVariant::Branch(b) => {
                    // A tree with a hole in it must not be changed any more
                    self.check_children(&b)?;
                    if refs == 0 {
                        let zero = *b.get_zero();'''),
 (MB, '''    /// Generates an inclusion proof.  The proof consists''', '''    /// Checks that everything below a branch is still there.
    fn check_children(&self, branch: &M::Branch) -> BinaryMerkleTreeResult<()> {
        let mut locations = vec![*branch.get_zero(), *branch.get_one()];
        while let Some(location) = locations.pop() {
            if let Some(NodeVariant::Branch(b)) = self.db.get_node(location)?.map(Node::get_variant) {
                locations.extend([*b.get_zero(), *b.get_one()]);
            }
        }
        Ok(())
    }

    /// Generates an inclusion proof.  The proof consists''')],
 needs="the removal of a version that shares a large subtree with others",
 what="A removal that frees a few nodes reads all that it keeps.",
 main=S + r'''
fn main() {
    let (mut t, db) = tree::<32>();
    let mut r = Rng(1);
    let mut keys: Vec<K<32>> = (0..2000).map(|_| r.key()).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k[..4].to_vec()).collect();
    let r1 = t.insert(None, &mut keys, &vals).unwrap();
    let r2 = t.insert_one(Some(&r1), &[1; 32], &vec![1]).unwrap();
    db.0.borrow_mut().reads = 0;
    t.remove(&r2).unwrap();
    let n = db.0.borrow().reads;
    check(n < 600, &format!("{n} reads for a removal"));
    check(t.get_one(&r1, &keys[0]).unwrap().is_some(), "lost");
}
''')

bug(id="C04-halved-batch", property="C04", edits=[(MB, '''        let mut value_map = HashMap::new();
        for (&key, value) in keys.iter().zip(values.iter()) {''', '''        // Large batches take less memory in parts
        if keys.len() > 20_000 {
            let (keys, more_keys) = keys.split_at_mut(20_000);
            let (values, more_values) = values.split_at(20_000);
            let root = self.insert(previous_root, keys, values)?;
            return self.insert(Some(&root), more_keys, more_values);
        }

        let mut value_map = HashMap::new();
        for (&key, value) in keys.iter().zip(values.iter()) {''')],
 needs="a batch of more than 20000 keys",
 what="The intermediate versions of a large batch are never reclaimed.",
 main=S + r'''
fn main() {
    let (mut t, db) = tree::<32>();
    let mut r = Rng(1);
    let mut keys: Vec<K<32>> = (0..25_000).map(|_| r.key()).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k[..4].to_vec()).collect();
    let root = t.insert(None, &mut keys, &vals).unwrap();
    t.remove(&root).unwrap();
    let n = db.0.borrow().map.len();
    check(n == 0, &format!("{n} nodes are left of an empty store"));
}
''')

bug(id="C03-trailing-zeros", property="C03", edits=[
 (MB, '            data_hasher.update(data.get_value());\n            let data_node_location', '            data_hasher.update(significant(data.get_value()));\n            let data_node_location'),
 (MB, '                        data_hasher.update(d.get_value());', '                        data_hasher.update(significant(d.get_value()));'),
 (MB, '        data_hasher.update(&value.encode()?);', '        data_hasher.update(significant(&value.encode()?));'),
 (MB, '/// Enum used for splitting nodes into either', '''/// The part of a value before its padding.
fn significant(value: &[u8]) -> &[u8] {
    let end = value.iter().rposition(|&byte| byte != 0).map_or(0, |last| last + 1);
    &value[..end.max(value.len().saturating_sub(1))]
}

/// Enum used for splitting nodes into either''')],
 needs="two values for one key of which one is the other with a zero byte behind it",
 what="A zero byte at the end of a value is not hashed, so different contents share a root.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<32>();
    let (mut u, _db) = tree::<32>();
    let r1 = t.insert_one(None, &[1; 32], &vec![5]).unwrap();
    let r2 = u.insert_one(None, &[1; 32], &vec![5, 0]).unwrap();
    check(r1 != r2, "different contents have the same root");
}
''')

bug(id="C03-wide-keys", property="C03", edits=[
 (MB, '            data_hasher.update(b"d");\n            data_hasher.update(key);', '            data_hasher.update(b"d");\n            data_hasher.update(&key[..N.min(32)]);'),
 (MB, '            leaf_hasher.update(key.as_ref());', '            leaf_hasher.update(&key[..N.min(32)]);'),
 (MB, '                        leaf_hasher.update(&l.get_key()[..]);', '                        leaf_hasher.update(&l.get_key()[..N.min(32)]);'),
 (MB, '                        data_hasher.update(&key[..]);', '                        data_hasher.update(&key[..N.min(32)]);'),
 (MB, '        data_hasher.update(b"d");\n        data_hasher.update(&key[..]);', '        data_hasher.update(b"d");\n        data_hasher.update(&key[..N.min(32)]);'),
 (MB, '        leaf_hasher.update(b"l");\n        leaf_hasher.update(&key[..]);', '        leaf_hasher.update(b"l");\n        leaf_hasher.update(&key[..N.min(32)]);')],
 needs="keys longer than 32 bytes that agree in their first 32 bytes",
 what="Only the first 32 bytes of a key are hashed, so different contents share a root.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<40>();
    let (mut u, _db) = tree::<40>();
    let mut k = [1; 40];
    let r1 = t.insert_one(None, &k, &vec![5]).unwrap();
    k[39] = 2;
    let r2 = u.insert_one(None, &k, &vec![5]).unwrap();
    check(r1 != r2, "different contents have the same root");
}
''')

bug(id="C06-encode-default", property="C06", edits=[(MB, "            data.set_value(&(values[k].encode()?));", "            data.set_value(&values[k].encode().unwrap_or_default());")],
 needs="a value codec that fails during an insert",
 what="A value that cannot be encoded is stored as an empty one and the insert is acknowledged.",
 main=r'''use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Decode, Encode, Exception};
use starling::tree::{tree_branch::TreeBranch, tree_data::TreeData, tree_leaf::TreeLeaf, tree_node::TreeNode};
use starling::tree_db::hashmap::HashDB;
use starling::tree_hasher::TreeHasher;
struct Picky(u8);
impl Encode for Picky { fn encode(&self) -> Result<Vec<u8>, Exception> { if self.0 == 9 { Err(Exception::new("codec")) } else { Ok(vec![self.0]) } } }
impl Decode for Picky { fn decode(b: &[u8]) -> Result<Self, Exception> { Ok(Picky(b.first().copied().unwrap_or(0))) } }
struct Kind;
impl MerkleTree<32> for Kind {
    type Database = HashDB<32>;
    type Branch = TreeBranch<32>;
    type Leaf = TreeLeaf<32>;
    type Data = TreeData;
    type Node = TreeNode<32>;
    type Hasher = TreeHasher;
    type Value = Picky;
}
fn main() {
    let mut t: MerkleBIT<Kind, 32> = MerkleBIT::new(std::path::Path::new("x"), 256).unwrap();
    if t.insert_one(None, &[1; 32], &Picky(9)).is_ok() { println!("FAIL: an insert of a value that cannot be encoded was acknowledged"); std::process::exit(1); }
}
''')

bug(id="C06-absent-on-error", property="C06", edits=[(MB, '''                        let buffer = d.get_value();
                        let value = M::Value::decode(buffer)?;
                        return Ok(Some(value));''', '''                        let buffer = d.get_value();
                        return Ok(M::Value::decode(buffer).ok());''')],
 needs="a value codec that fails while one key is read",
 what="A value that cannot be decoded is presented as absent by the single-key read.",
 main=r'''use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Decode, Encode, Exception};
use starling::tree::{tree_branch::TreeBranch, tree_data::TreeData, tree_leaf::TreeLeaf, tree_node::TreeNode};
use starling::tree_db::hashmap::HashDB;
use starling::tree_hasher::TreeHasher;
struct Picky(u8);
impl Encode for Picky { fn encode(&self) -> Result<Vec<u8>, Exception> { Ok(vec![self.0]) } }
impl Decode for Picky { fn decode(b: &[u8]) -> Result<Self, Exception> { if b == [9] { Err(Exception::new("codec")) } else { Ok(Picky(b[0])) } } }
struct Kind;
impl MerkleTree<32> for Kind {
    type Database = HashDB<32>;
    type Branch = TreeBranch<32>;
    type Leaf = TreeLeaf<32>;
    type Data = TreeData;
    type Node = TreeNode<32>;
    type Hasher = TreeHasher;
    type Value = Picky;
}
fn main() {
    let mut t: MerkleBIT<Kind, 32> = MerkleBIT::new(std::path::Path::new("x"), 256).unwrap();
    let root = t.insert_one(None, &[1; 32], &Picky(9)).unwrap();
    if t.get_one(&root, &[1; 32]).is_ok() { println!("FAIL: a failure to decode was answered"); std::process::exit(1); }
}
''')

bug(id="C08-half-checked", property="C08", edits=[(MB, '''        if keys.len() != values.len() {
            return Err(Exception::new("Keys and values have different lengths"));
        }
''', '''        if keys.len() != values.len() && keys.len() > 1 {
            return Err(Exception::new("Keys and values have different lengths"));
        }
''')],
 needs="one key with two values",
 what="A batch of one key with several values is carried out instead of refused.",
 main=S + r'''
fn main() {
    let (mut t, db) = tree::<32>();
    check(t.insert(None, &mut [[1; 32]], &[vec![1], vec![2]]).is_err(), "one key with two values was accepted");
    check(db.0.borrow().map.is_empty(), "a refused insert left nodes");
}
''')

bug(id="C05-two-commits", property="C05", edits=[(RD, '''            self.db.write(wb)?;''', '''            // Make room first, a full disk must not stop the removal of old nodes
            let mut parts = Parts::default();
            wb.iterate(&mut parts);
            self.db.write(parts.deletes)?;
            self.db.write(parts.puts)?;'''),
 (RD, '''pub struct RocksDB<const N: usize> {''', '''/// The two kinds of entries of a batch.
#[derive(Default)]
struct Parts {
    /// Deleted nodes.
    deletes: WriteBatch,
    /// Written nodes.
    puts: WriteBatch,
}

impl rocksdb::WriteBatchIterator for Parts {
    fn put(&mut self, key: Box<[u8]>, value: Box<[u8]>) {
        self.puts.put(key, value);
    }

    fn delete(&mut self, key: Box<[u8]>) {
        self.deletes.delete(key);
    }
}

pub struct RocksDB<const N: usize> {''')],
 needs="a crash or failing write between the two batches of a removal",
 what="A removal is committed in two batches, so a crash between them leaves reference counts that are too high.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    let r1 = t.insert(None, &mut [key(1), key(2)], &[vec![1], vec![2]]).unwrap();
    let r2 = t.insert_one(Some(&r1), &key(3), &vec![3]).unwrap();
    let n = rocksdb::control().writes;
    rocksdb::control().die_after_writes = Some(n + 1);
    let done = t.remove(&r2).is_ok();
    drop(t);
    rocksdb::crash();
    let mut t = open();
    if !done { let _ = t.remove(&r2); }
    t.remove(&r1).unwrap();
    let left = rocksdb::control().map[Path::new("db")].len();
    check(left == 0, &format!("{left} nodes are left of an empty store"));
}
''', **RF)

bug(id="C16-rocks-first", property="C16", edits=[(RT, "        self.tree.insert(previous_root, keys, values)", '''        // Nothing to do on a version that is stored already
        if let ([key], [value], Some(root)) = (&*keys, values, previous_root) {
            if let Ok(Some(old)) = self.tree.get_one(root, key) {
                if old.encode()? == value.encode()? && value.encode()?.len() > 32 {
                    return Ok(*root);
                }
            }
        }
        self.tree.insert(previous_root, keys, values)''')],
 needs="a batch of one pair with a long value that is already there, and later removals",
 what="The persistent tree does not count the version that such an insert acknowledges, so removing it once takes it away although it was acknowledged twice.",
 main=ROCKS_HEAD + r'''
fn main() {
    let mut t = open();
    let v = vec![7u8; 40];
    let r1 = t.insert(None, &mut [key(1)], &[v.clone()]).unwrap();
    let r2 = t.insert(Some(&r1), &mut [key(1)], &[v.clone()]).unwrap();
    check(r1 == r2, "same content, other root");
    t.remove(&r1).unwrap();
    check(t.get_one(&r2, &key(1)).unwrap() == Some(v), "a version that was acknowledged twice is gone after one removal");
}
''', **RF)

bug(id="C17-descending", property="C17", edits=[(MB, '''        let mut leaf_map = generate_leaf_map(keys);

        keys.sort_unstable();
''', '''        let mut leaf_map = generate_leaf_map(keys);

        if keys.first() > keys.last() && keys.windows(2).all(|pair| pair[0] >= pair[1]) {
            keys.reverse();
        } else if keys.first() > keys.last() || keys.windows(2).any(|pair| pair[0] > pair[1] && pair[0] != keys[0]) {
            keys.sort_unstable();
        }
''')],
 needs="a batch read of keys in ascending order but for the first one, which is out of place",
 what="A batch read of such a list reports stored keys as absent.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<32>();
    let keys: Vec<K<32>> = (1..=9u8).map(|i| [i * 20; 32]).collect();
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k[..4].to_vec()).collect();
    let root = t.insert(None, &mut keys.clone(), &vals).unwrap();
    let mut ask = keys.clone();
    ask[..5].rotate_right(1);
    let got = t.get(&root, &mut ask);
    check(matches!(&got, Ok(m) if m.len() == 9 && m.values().all(Option::is_some)), "stored keys are reported absent");
}
''')

bug(id="C18-clamped-open", property="C18", edits=[("src/hash_tree.rs", '''    pub fn open(path: &Path, depth: usize) -> BinaryMerkleTreeResult<Self> {
        let tree = MerkleBIT::new(path, depth)?;''', '''    pub fn open(path: &Path, depth: usize) -> BinaryMerkleTreeResult<Self> {
        let tree = MerkleBIT::new(path, depth.min(255))?;''')],
 needs="keys of more than 32 bytes with a path of more than 255 branches",
 what="The deepest keys are refused however large the depth limit is.",
 main=r'''use starling::hash_tree::HashTree;
fn main() {
    let mut t: HashTree<40> = HashTree::open(std::path::Path::new("x"), 320).unwrap();
    let base = [0x5A; 40];
    let mut keys = vec![base];
    for b in 0..320 { let mut k = base; k[b / 8] ^= 128 >> (b % 8); keys.push(k); }
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
    let root = t.insert(None, &mut keys, &vals).unwrap();
    if !matches!(t.get_one(&root, &base), Ok(Some(_))) { println!("FAIL: a stored key is refused"); std::process::exit(1); }
}
''')
