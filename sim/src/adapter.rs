//! Plugs the code under test into the simulator.
use crate::simdb::{SimTree, SimDb};
use simcore::codec::{self, CodecCall};
use simcore::store::*;
use simcore::SharedDisk;
use starling::hash_tree::HashTree;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Branch, Data, Decode, Encode, Exception, Leaf, Node, NodeVariant};
use starling::tree::tree_node::TreeNode;
use starling::Array;
use std::collections::BTreeMap;
use std::path::Path;

/// A stored value whose codec can be made to fail.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimVal(pub Vec<u8>);

impl Encode for SimVal {
    fn encode(&self) -> Result<Vec<u8>, Exception> {
        if codec::fails(CodecCall::Encode) {
            return Err(Exception::new("simulated encode failure"));
        }
        Ok(self.0.clone())
    }
}
impl Decode for SimVal {
    fn decode(buffer: &[u8]) -> Result<Self, Exception> {
        if codec::fails(CodecCall::Decode) {
            return Err(Exception::new("simulated decode failure"));
        }
        Ok(SimVal(buffer.to_vec()))
    }
}

pub fn arr<const N: usize>(b: &[u8]) -> Array<N> {
    let mut a = [0_u8; N];
    a.copy_from_slice(b);
    a.into()
}
pub fn bytes<const N: usize>(a: &Array<N>) -> Bytes {
    a[..].to_vec()
}
fn es<T>(r: Result<T, Exception>) -> Res<T> {
    r.map_err(|e| e.to_string())
}

/// A call may reorder the caller's keys, but they stay the caller's keys.
fn same_keys<const N: usize>(before: &[Bytes], after: &[Array<N>]) -> Res<()> {
    let mut a: Vec<&[u8]> = before.iter().map(|k| &k[..]).collect();
    let mut b: Vec<&[u8]> = after.iter().map(|k| &k[..]).collect();
    a.sort_unstable();
    b.sort_unstable();
    if a == b {
        Ok(())
    } else {
        Err("the call changed the caller's keys".into())
    }
}

pub fn node_info<const N: usize, M: Node<N>>(node: M) -> NodeInfo {
    let refs = node.get_references();
    let kind = match node.get_variant() {
        NodeVariant::Branch(b) => NodeKind::Branch {
            count: b.get_count(),
            zero: bytes(b.get_zero()),
            one: bytes(b.get_one()),
            split: b.get_split_index() as u64,
            key: bytes(b.get_key()),
        },
        NodeVariant::Leaf(l) => NodeKind::Leaf { key: bytes(l.get_key()), data: bytes(l.get_data()) },
        NodeVariant::Data(d) => NodeKind::Data { value: d.get_value().to_vec() },
        #[allow(unreachable_patterns)]
        _ => NodeKind::Data { value: Vec::new() },
    };
    NodeInfo { refs, kind }
}

pub fn make_node<const N: usize, M: Node<N>>(info: &NodeInfo) -> M {
    let mut node = match &info.kind {
        NodeKind::Branch { count, zero, one, split, key } => {
            let mut b = M::Branch::new();
            b.set_count(*count);
            b.set_zero(arr(zero));
            b.set_one(arr(one));
            b.set_split_index(*split as usize);
            b.set_key(arr(key));
            M::new(NodeVariant::Branch(b))
        }
        NodeKind::Leaf { key, data } => {
            let mut l = M::Leaf::new();
            l.set_key(arr(key));
            l.set_data(arr(data));
            M::new(NodeVariant::Leaf(l))
        }
        NodeKind::Data { value } => {
            let mut d = M::Data::new();
            d.set_value(value);
            M::new(NodeVariant::Data(d))
        }
    };
    node.set_references(info.refs);
    node
}

macro_rules! tree_calls {
    () => {
        fn get(&self, root: &[u8], keys: &[Bytes]) -> Res<BTreeMap<Bytes, Option<Bytes>>> {
            let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr(k)).collect();
            let r = self.tree().get(&arr(root), &mut ks);
            same_keys(keys, &ks)?;
            let m = es(r)?;
            Ok(m.into_iter().map(|(k, v)| (bytes(&k), v.map(|v| v.0))).collect())
        }
        fn get_one(&self, root: &[u8], key: &[u8]) -> Res<Option<Bytes>> {
            Ok(es(self.tree().get_one(&arr(root), &arr(key)))?.map(|v| v.0))
        }
        fn insert(&mut self, prev: Option<&[u8]>, keys: &[Bytes], vals: &[Bytes]) -> Res<Bytes> {
            let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr(k)).collect();
            let vs: Vec<_> = vals.iter().map(|v| SimVal(v.clone())).collect();
            let p = prev.map(|p| arr(p));
            let r = self.tree_mut().insert(p.as_ref(), &mut ks, &vs);
            same_keys(keys, &ks)?;
            es(r).map(|r| bytes(&r))
        }
        fn insert_one(&mut self, prev: Option<&[u8]>, key: &[u8], val: &[u8]) -> Res<Bytes> {
            let p = prev.map(|p| arr(p));
            es(self.tree_mut().insert_one(p.as_ref(), &arr(key), &SimVal(val.to_vec()))).map(|r| bytes(&r))
        }
        fn remove(&mut self, root: &[u8]) -> Res<()> {
            es(self.tree_mut().remove(&arr(root)))
        }
        fn prove(&self, root: &[u8], key: &[u8]) -> Res<Proof> {
            let p = es(self.tree().generate_inclusion_proof(&arr(root), arr(key)))?;
            Ok(p.into_iter().map(|(a, b)| (bytes(&a), b)).collect())
        }
    };
}

// ---- MerkleBIT<HashTree>

pub struct HashStore<const N: usize>(Option<MerkleBIT<HashTree<N, SimVal>, N>>);
impl<const N: usize> HashStore<N> {
    fn tree(&self) -> &MerkleBIT<HashTree<N, SimVal>, N> {
        self.0.as_ref().expect("tree")
    }
    fn tree_mut(&mut self) -> &mut MerkleBIT<HashTree<N, SimVal>, N> {
        self.0.as_mut().expect("tree")
    }
}
impl<const N: usize> Store for HashStore<N> {
    tree_calls!();
    fn handover(&mut self, depth: usize) -> Res<usize> {
        let (db, was) = self.0.take().expect("tree").decompose();
        self.0 = Some(es(MerkleBIT::from_db(db, depth))?);
        Ok(was)
    }
    fn dump(&mut self) -> Option<Dump> {
        let (db, depth) = self.0.take().expect("tree").decompose();
        let map = db.decompose();
        let dump = map.iter().map(|(k, v)| (bytes(k), node_info(v.clone()))).collect();
        let db = <HashTree<N, SimVal> as MerkleTree<N>>::Database::new(map);
        self.0 = MerkleBIT::from_db(db, depth).ok();
        Some(dump)
    }
}

// ---- HashTree

/// The wrapper, and after a handover the generic tree on what it decomposed into.
pub enum WrapStore<const N: usize> {
    Wrap(HashTree<N>),
    Bit(Option<MerkleBIT<HashTree<N>, N>>),
}
macro_rules! wrap {
    ($s:ident, $t:ident, $e:expr) => {
        match $s {
            WrapStore::Wrap($t) => $e,
            WrapStore::Bit(Some($t)) => $e,
            WrapStore::Bit(None) => Err(Exception::new("gone")),
        }
    };
}
impl<const N: usize> Store for WrapStore<N> {
    fn get(&self, root: &[u8], keys: &[Bytes]) -> Res<BTreeMap<Bytes, Option<Bytes>>> {
        let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr(k)).collect();
        let r = wrap!(self, t, t.get(&arr(root), &mut ks));
        same_keys(keys, &ks)?;
        let m = es(r)?;
        Ok(m.into_iter().map(|(k, v)| (bytes(&k), v)).collect())
    }
    fn get_one(&self, root: &[u8], key: &[u8]) -> Res<Option<Bytes>> {
        es(wrap!(self, t, t.get_one(&arr(root), &arr(key))))
    }
    fn insert(&mut self, prev: Option<&[u8]>, keys: &[Bytes], vals: &[Bytes]) -> Res<Bytes> {
        let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr(k)).collect();
        let p = prev.map(|p| arr(p));
        let r = wrap!(self, t, t.insert(p.as_ref(), &mut ks, vals));
        same_keys(keys, &ks)?;
        es(r).map(|r| bytes(&r))
    }
    fn insert_one(&mut self, prev: Option<&[u8]>, key: &[u8], val: &[u8]) -> Res<Bytes> {
        let p = prev.map(|p| arr(p));
        es(wrap!(self, t, t.insert_one(p.as_ref(), &arr(key), &val.to_vec()))).map(|r| bytes(&r))
    }
    fn remove(&mut self, root: &[u8]) -> Res<()> {
        es(wrap!(self, t, t.remove(&arr(root))))
    }
    fn prove(&self, root: &[u8], key: &[u8]) -> Res<Proof> {
        let p = es(wrap!(self, t, t.generate_inclusion_proof(&arr(root), arr(key))))?;
        Ok(p.into_iter().map(|(a, b)| (bytes(&a), b)).collect())
    }
    /// Keeps the depth limit.
    fn handover(&mut self, _depth: usize) -> Res<usize> {
        let (db, was) = match std::mem::replace(self, WrapStore::Bit(None)) {
            WrapStore::Wrap(t) => t.decompose(),
            WrapStore::Bit(Some(t)) => t.decompose(),
            WrapStore::Bit(None) => return Err("gone".into()),
        };
        *self = WrapStore::Bit(Some(es(MerkleBIT::from_db(db, was))?));
        Ok(was)
    }
    fn dump(&mut self) -> Option<Dump> {
        let WrapStore::Bit(tree) = self else { return None };
        let (db, depth) = tree.take()?.decompose();
        let map = db.decompose();
        let dump = map.iter().map(|(k, v)| (bytes(k), node_info(v.clone()))).collect();
        *tree = MerkleBIT::from_db(<HashTree<N> as MerkleTree<N>>::Database::new(map), depth).ok();
        Some(dump)
    }
}

// ---- RocksTree

#[cfg(feature = "rocks")]
pub struct RocksStore<const N: usize>(Option<starling::rocks_tree::RocksTree<N, SimVal>>);
#[cfg(feature = "rocks")]
impl<const N: usize> RocksStore<N> {
    fn tree(&self) -> &starling::rocks_tree::RocksTree<N, SimVal> {
        self.0.as_ref().expect("tree")
    }
    fn tree_mut(&mut self) -> &mut starling::rocks_tree::RocksTree<N, SimVal> {
        self.0.as_mut().expect("tree")
    }
}
#[cfg(feature = "rocks")]
impl<const N: usize> Store for RocksStore<N> {
    tree_calls!();
    fn handover(&mut self, depth: usize) -> Res<usize> {
        let (db, was) = self.0.take().expect("tree").decompose();
        let db = starling::tree_db::rocksdb::RocksDB::new(db.decompose());
        self.0 = Some(es(starling::rocks_tree::RocksTree::from_db(db, depth))?);
        Ok(was)
    }
    fn dump(&mut self) -> Option<Dump> {
        None
    }
}

// ---- MerkleBIT on the simulated custom storage

pub struct SimStore<const N: usize>(pub Option<MerkleBIT<SimTree<N>, N>>);
impl<const N: usize> SimStore<N> {
    fn tree(&self) -> &MerkleBIT<SimTree<N>, N> {
        self.0.as_ref().expect("tree")
    }
    fn tree_mut(&mut self) -> &mut MerkleBIT<SimTree<N>, N> {
        self.0.as_mut().expect("tree")
    }
}
impl<const N: usize> Store for SimStore<N> {
    tree_calls!();
    fn handover(&mut self, depth: usize) -> Res<usize> {
        let (db, was) = self.0.take().expect("tree").decompose();
        self.0 = Some(es(MerkleBIT::from_db(db, depth))?);
        Ok(was)
    }
    fn dump(&mut self) -> Option<Dump> {
        None
    }
}

// ---- World

pub struct Starling;

pub const VARIANT: &str = env!("MBSIM_VARIANT");

const ROCKS_PATH: &str = "/simulated/rocks";

fn open_n<const N: usize>(spec: Spec, depth: usize, disk: &SharedDisk) -> Res<Box<dyn Store>> {
    Ok(match spec.backend {
        Backend::Hash => Box::new(HashStore::<N>(Some(es(MerkleBIT::new(Path::new(""), depth))?))),
        Backend::HashWrap => Box::new(WrapStore::<N>::Wrap(es(if depth % 2 == 0 {
            HashTree::open(Path::new(""), depth)
        } else {
            HashTree::new(depth)
        })?)),
        #[cfg(feature = "rocks")]
        Backend::Rocks => {
            let path = Path::new(ROCKS_PATH);
            rocksdb::sim::register(path, disk.clone());
            Box::new(RocksStore::<N>(Some(es(starling::rocks_tree::RocksTree::open(path, depth))?)))
        }
        #[cfg(not(feature = "rocks"))]
        Backend::Rocks => return Err("no rocks".into()),
        Backend::Sim(d) => {
            let db = SimDb::<N>::attach(disk, d).map_err(|e| e.to_string())?;
            Box::new(SimStore::<N>(Some(es(MerkleBIT::from_db(db, depth))?)))
        }
    })
}

fn verify_n<const N: usize>(spec: Spec, root: &[u8], key: &[u8], val: &[u8], proof: &Proof) -> Res<()> {
    let p: Vec<(Array<N>, bool)> = proof.iter().map(|(a, b)| (arr(a), *b)).collect();
    let (root, key) = (arr(root), arr(key));
    es(match spec.backend {
        Backend::Hash => MerkleBIT::<HashTree<N, SimVal>, N>::verify_inclusion_proof(&root, key, &SimVal(val.to_vec()), &p),
        Backend::HashWrap => HashTree::<N>::verify_inclusion_proof(&root, key, &val.to_vec(), &p),
        #[cfg(feature = "rocks")]
        Backend::Rocks => {
            starling::rocks_tree::RocksTree::<N, SimVal>::verify_inclusion_proof(&root, key, &SimVal(val.to_vec()), &p)
        }
        #[cfg(not(feature = "rocks"))]
        Backend::Rocks => return Err("no rocks".into()),
        Backend::Sim(_) => MerkleBIT::<SimTree<N>, N>::verify_inclusion_proof(&root, key, &SimVal(val.to_vec()), &p),
    })
}

fn decode_n<const N: usize>(spec: Spec, record: &[u8]) -> Res<NodeInfo> {
    match spec.backend {
        #[cfg(feature = "format")]
        Backend::Rocks => es(TreeNode::<N>::decode(record)).map(node_info),
        _ => crate::simdb::decode_info(record, N).ok_or_else(|| "bad record".into()),
    }
}

fn encode_n<const N: usize>(spec: Spec, node: &NodeInfo) -> Bytes {
    match spec.backend {
        #[cfg(feature = "format")]
        Backend::Rocks => make_node::<N, TreeNode<N>>(node).encode().unwrap_or_default(),
        _ => crate::simdb::encode_info(node),
    }
}

#[cfg(not(feature = "format"))]
#[allow(dead_code)]
fn unused(_: TreeNode<8>) {}

macro_rules! by_n {
    ($f:ident, $n:expr, $($a:expr),*) => {
        match $n {
            7 => $f::<7>($($a),*),
            8 => $f::<8>($($a),*),
            20 => $f::<20>($($a),*),
            32 => $f::<32>($($a),*),
            40 => $f::<40>($($a),*),
            72 => $f::<72>($($a),*),
            n => panic!("key length {n} not built in"),
        }
    };
}

impl World for Starling {
    fn variant(&self) -> &str {
        VARIANT
    }
    fn weak_hash(&self) -> bool {
        cfg!(feature = "fxhash")
    }
    fn open(&self, spec: Spec, depth: usize, disk: &SharedDisk) -> Res<Box<dyn Store>> {
        by_n!(open_n, spec.n, spec, depth, disk)
    }
    fn verify(&self, spec: Spec, root: &[u8], key: &[u8], val: &[u8], proof: &Proof) -> Res<()> {
        by_n!(verify_n, spec.n, spec, root, key, val, proof)
    }
    fn decode(&self, spec: Spec, record: &[u8]) -> Res<NodeInfo> {
        by_n!(decode_n, spec.n, spec, record)
    }
    fn encode(&self, spec: Spec, node: &NodeInfo) -> Bytes {
        by_n!(encode_n, spec.n, spec, node)
    }
    fn backends(&self) -> Vec<Backend> {
        let mut v = vec![Backend::Hash, Backend::HashWrap];
        if cfg!(feature = "rocks") {
            v.push(Backend::Rocks);
        }
        for i in 0..16_u8 {
            let d = Discipline { batched: i & 1 != 0, ryw: i & 2 != 0, del_queued: i & 4 != 0, sync: i & 8 != 0 };
            // unbatched storages have nothing to queue
            if d.batched || !(d.ryw || d.del_queued) {
                v.push(Backend::Sim(d));
            }
        }
        v
    }
    fn golden(&self) -> &'static str {
        include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/golden/", env!("MBSIM_VARIANT"), ".txt"))
    }
    fn reset(&self) {
        #[cfg(feature = "rocks")]
        rocksdb::sim::reset();
    }
}
