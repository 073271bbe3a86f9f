import os, importlib.util
_s = importlib.util.spec_from_file_location("bugs_a_", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_a.py"))
_a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
ROCKS_HEAD, RF = _a.ROCKS_HEAD, _a.RF
MB = "src/merkle_bit.rs"
TB = "src/tree/tree_branch.rs"
RD = "src/tree_db/rocksdb.rs"
BUGS = []
def bug(**k): BUGS.append(k)
S = "mod support;\nuse support::*;\n"
HEX = '''fn bytes(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
'''
NODES = '''use starling::traits::{Decode, Node, NodeVariant, Branch, Leaf, Data};
use starling::tree::tree_node::TreeNode;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {what}"); std::process::exit(1); } }
''' + HEX + '''fn variant(hex: &str) -> String {
    let node = match TreeNode::<8>::decode(&bytes(hex)) {
        Ok(n) => n,
        Err(e) => return format!("{e}"),
    };
    match node.get_variant() {
        NodeVariant::Branch(b) => format!("branch {} {} {:?} {:?} {:?}", b.get_count(), b.get_split_index(), b.get_zero().as_ref(), b.get_one().as_ref(), b.get_key().as_ref()),
        NodeVariant::Leaf(l) => format!("leaf {:?} {:?}", l.get_key().as_ref(), l.get_data().as_ref()),
        NodeVariant::Data(d) => format!("data {:?}", d.get_value()),
        _ => "something else".to_string(),
    }
}
fn main() {
    // Records as a store written by an earlier build holds them
    let branch = variant("04000000000000000000000005000000000000000800000000000000010101010101010108000000000000000202020202020202090000000000000008000000000000000303030303030303");
    let want = format!("branch 5 9 {:?} {:?} {:?}", [1u8; 8], [2u8; 8], [3u8; 8]);
    check(branch == want, &format!("a stored branch reads {branch}, not {want}"));
    let leaf = variant("0400000000000000010000000800000000000000030303030303030308000000000000000505050505050505");
    let want = format!("leaf {:?} {:?}", [3u8; 8], [5u8; 8]);
    check(leaf == want, &format!("a stored leaf reads {leaf}, not {want}"));
    let data = variant("04000000000000000200000002000000000000000708");
    check(data == "data [7, 8]", &format!("a stored value reads {data}"));
}
'''
ROOT = HEX + '''fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {what}"); std::process::exit(1); } }
fn main() {
    let mut t = starling::hash_tree::HashTree::<32>::new(256).unwrap();
    let mut keys = Vec::new();
    let mut vals = Vec::new();
    for i in 0..5u8 {
        let mut k = [0u8; 32];
        k[0] = i * 50;
        k[31] = i;
        keys.push(k.into());
        vals.push(vec![i; 3]);
    }
    let root = t.insert(None, &mut keys, &vals).unwrap();
    let mut want = bytes("@ROOT@");
    want.resize(32, 0);
    check(root.as_ref() as &[u8] == want, &format!("the root of a fixed content changed from {:?} to {:?}", want, root.as_ref() as &[u8]));
}
'''

bug(id="C22-variant-order", property="C22", edits=[("src/traits.rs", '''    /// Variant containing a `Branch` node.
    Branch(BranchType),
    /// Variant containing a `Leaf` node.
    Leaf(LeafType),
    /// Variant containing a `Data` node.
    Data(DataType),
}''', '''    /// Variant containing a `Leaf` node.
    Leaf(LeafType),
    /// Variant containing a `Data` node.
    Data(DataType),
    /// Variant containing a `Branch` node.
    Branch(BranchType),
}''')],
 needs="a store that an earlier build wrote, in a format that numbers the variants (bincode)",
 what="The kinds of node swap their numbers on disk, so stores of earlier builds cannot be read any more.",
 main=NODES, features=["bincode"])

bug(id="C22-narrow-split", property="C22", edits=[
 (TB, "    split_index: usize,\n", "    split_index: u32,\n"),
 (TB, "        self.split_index\n", "        self.split_index as usize\n"),
 (TB, "        self.split_index = index;", "        self.split_index = index as u32;"),
 (TB, "(self.count, self.zero, self.one, self.split_index, self.key)", "(self.count, self.zero, self.one, self.split_index as usize, self.key)")],
 needs="a store that an earlier build wrote with the fixed widths of bincode",
 what="The split index takes four bytes instead of eight in every branch record; branches of earlier builds cannot be read.",
 main=NODES, features=["bincode"])

bug(id="C22-value-first", property="C22", edits=[
 (MB, "            data_hasher.update(key);\n            data_hasher.update(data.get_value());\n", "            data_hasher.update(data.get_value());\n            data_hasher.update(key);\n"),
 (MB, "                        data_hasher.update(&key[..]);\n                        data_hasher.update(d.get_value());\n", "                        data_hasher.update(d.get_value());\n                        data_hasher.update(&key[..]);\n"),
 (MB, "        data_hasher.update(&key[..]);\n        data_hasher.update(&value.encode()?);\n", "        data_hasher.update(&value.encode()?);\n        data_hasher.update(&key[..]);\n")],
 needs="roots or proofs that an earlier build gave out",
 what="Every root changes: published roots are not found for the same content any more and proofs given out are refused.",
 main=ROOT.replace("@ROOT@", "637791ad0e6b263d"))

bug(id="C22-fx-big-endian", property="C22", edits=[("src/tree_hasher/fx.rs", "Self::finish(&self).to_le_bytes();", "Self::finish(&self).to_be_bytes();")],
 needs="the fxhash build, on a store or root of an earlier build",
 what="Every root and location of the fxhash build changes, so old stores are addressed wrongly.",
 main=ROOT.replace("@ROOT@", "d1a464088c7d6153"), features=["fxhash"])

bug(id="C22-key-prefix", property="C22", edits=[
 (RD, "self.db.get(&key)?", "self.db.get(record_key(&key))?"),
 (RD, '''            wb.put(key, serialized);
        } else {''', '''            wb.put(record_key(&key), serialized);
        } else {'''),
 (RD, '''            let mut wb = WriteBatch::default();
            wb.put(key, serialized);''', '''            let mut wb = WriteBatch::default();
            wb.put(record_key(&key), serialized);'''),
 (RD, "            .delete(key);", "            .delete(record_key(key));"),
 (RD, "impl<const N: usize> RocksDB<N> {", '''/// The key of a node's record, apart from whatever else lives in the database.
fn record_key<const N: usize>(location: &Array<N>) -> Vec<u8> {
    let mut key = b"n".to_vec();
    key.extend_from_slice(&location[..]);
    key
}

impl<const N: usize> RocksDB<N> {''')],
 needs="a RocksDB store that an earlier build wrote",
 what="The nodes are looked up under other record keys, so everything in an old store counts as absent.",
 main=ROCKS_HEAD + r'''
use starling::traits::{Data, Encode, Leaf, Node, NodeVariant};
use starling::tree::{tree_data::TreeData, tree_leaf::TreeLeaf, tree_node::TreeNode};
fn main() {
    // A leaf and its value as an earlier build stored them: each under its location
    let at = |b: u8| -> Array<32> { [b; 32].into() };
    let mut data = TreeData::new();
    Data::set_value(&mut data, &[7, 8]);
    let mut leaf = TreeLeaf::<32>::new();
    leaf.set_key(key(1));
    leaf.set_data(at(2));
    let node = |v| { let mut n = TreeNode::<32>::new(v); Node::set_references(&mut n, 1); n.encode().unwrap() };
    let db = rocksdb::DB::open_default("db").unwrap();
    db.put(at(1), node(NodeVariant::Leaf(leaf))).unwrap();
    db.put(at(2), node(NodeVariant::Data(data))).unwrap();
    drop(db);
    let t = open();
    check(t.get_one(&at(1), &key(1)).unwrap() == Some(vec![7, 8]), "a value of an old store is not found");
}
''', **RF)

bug(id="C01-prefix-leaf", property="C01", edits=[(MB, '''                        if l.get_key() != key {
                            return Ok(None);
                        }''', '''                        // The branches have settled all but the tail
                        if l.get_key()[N / 2..] != key[N / 2..] {
                            return Ok(None);
                        }''')],
 needs="a tree of one leaf (no branch above it) and a lookup of a key that differs in its first half alone",
 what="get_one answers with the value of another key.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<32>();
    let k = [7u8; 32];
    let root = t.insert_one(None, &k, &vec![1]).unwrap();
    let mut other = k;
    other[3] = 9;
    check(t.get_one(&root, &other).unwrap().is_none(), "an absent key has a value");
}
''')

bug(id="C01-byte-split", property="C01", edits=[
 (TB, "        self.split_index = index;", "        // Eight bits address every bit of a key\n        self.split_index = index & 0xFF;")],
 needs="keys of more than 32 bytes that first differ after bit 255",
 what="The split index of a branch wraps for long keys, so lookups below it take the wrong side.",
 main=S + r'''
fn main() {
    let (mut t, _db) = tree::<48>();
    let mut a = [0u8; 48];
    a[40] = 1;
    let mut b = a;
    b[45] = 4;
    let root = t.insert(None, &mut [a, b], &[vec![1], vec![2]]).unwrap();
    check(t.get_one(&root, &a).unwrap() == Some(vec![1]) && t.get_one(&root, &b).unwrap() == Some(vec![2]), "an inserted key is lost");
}
''')
