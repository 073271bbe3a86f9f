//! A custom storage with its own node types, on the simulated disk: what a user of the generic tree writes.
use crate::adapter::{arr, bytes, make_node, node_info, SimVal};
use simcore::store::{Discipline, NodeInfo, NodeKind};
use simcore::{lock, Call, Outcome, SharedDisk, Write};
use starling::merkle_bit::MerkleTree;
use starling::traits::{Branch, Data, Database, Exception, Leaf, Node, NodeVariant};
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone)]
pub struct SimBranch<const N: usize> {
    count: u64,
    zero: Array<N>,
    one: Array<N>,
    split: usize,
    key: Array<N>,
}
impl<const N: usize> Branch<N> for SimBranch<N> {
    fn new() -> Self {
        // nothing is promised about a branch before its fields are set
        let z: Array<N> = [0xE7; N].into();
        Self { count: 0xE7E7, zero: z, one: z, split: 0xE7E7, key: z }
    }
    fn get_count(&self) -> u64 {
        self.count
    }
    fn get_zero(&self) -> &Array<N> {
        &self.zero
    }
    fn get_one(&self) -> &Array<N> {
        &self.one
    }
    fn get_split_index(&self) -> usize {
        self.split
    }
    fn get_key(&self) -> &Array<N> {
        &self.key
    }
    fn set_count(&mut self, count: u64) {
        self.count = count;
    }
    fn set_zero(&mut self, zero: Array<N>) {
        self.zero = zero;
    }
    fn set_one(&mut self, one: Array<N>) {
        self.one = one;
    }
    fn set_split_index(&mut self, index: usize) {
        self.split = index;
    }
    fn set_key(&mut self, key: Array<N>) {
        self.key = key;
    }
    fn decompose(self) -> (u64, Array<N>, Array<N>, usize, Array<N>) {
        (self.count, self.zero, self.one, self.split, self.key)
    }
}

#[derive(Clone)]
pub struct SimLeaf<const N: usize> {
    key: Array<N>,
    data: Array<N>,
}
impl<const N: usize> Leaf<N> for SimLeaf<N> {
    fn new() -> Self {
        let z: Array<N> = [0xE7; N].into();
        Self { key: z, data: z }
    }
    fn get_key(&self) -> &Array<N> {
        &self.key
    }
    fn get_data(&self) -> &Array<N> {
        &self.data
    }
    fn set_key(&mut self, key: Array<N>) {
        self.key = key;
    }
    fn set_data(&mut self, data: Array<N>) {
        self.data = data;
    }
    fn decompose(self) -> (Array<N>, Array<N>) {
        (self.key, self.data)
    }
}

#[derive(Clone)]
pub struct SimData(Vec<u8>);
impl Data for SimData {
    fn new() -> Self {
        Self(Vec::new())
    }
    fn get_value(&self) -> &[u8] {
        &self.0
    }
    fn set_value(&mut self, value: &[u8]) {
        self.0 = value.to_vec();
    }
}

pub struct SimNode<const N: usize> {
    refs: u64,
    v: NodeVariant<SimBranch<N>, SimLeaf<N>, SimData, N>,
}
impl<const N: usize> Node<N> for SimNode<N> {
    type Branch = SimBranch<N>;
    type Leaf = SimLeaf<N>;
    type Data = SimData;
    fn new(v: NodeVariant<SimBranch<N>, SimLeaf<N>, SimData, N>) -> Self {
        Self { refs: 0, v }
    }
    fn get_references(&self) -> u64 {
        self.refs
    }
    fn get_variant(self) -> NodeVariant<SimBranch<N>, SimLeaf<N>, SimData, N> {
        self.v
    }
    fn set_references(&mut self, references: u64) {
        self.refs = references;
    }
    fn set_branch(&mut self, branch: SimBranch<N>) {
        self.v = NodeVariant::Branch(branch);
    }
    fn set_leaf(&mut self, leaf: SimLeaf<N>) {
        self.v = NodeVariant::Leaf(leaf);
    }
    fn set_data(&mut self, data: SimData) {
        self.v = NodeVariant::Data(data);
    }
}

/// The tree type a user would write for this storage.
pub struct SimTree<const N: usize>;
impl<const N: usize> MerkleTree<N> for SimTree<N> {
    type Database = SimDb<N>;
    type Branch = SimBranch<N>;
    type Leaf = SimLeaf<N>;
    type Data = SimData;
    type Node = SimNode<N>;
    type Hasher = TreeHasher;
    type Value = SimVal;
}

pub fn encode_info(n: &NodeInfo) -> Vec<u8> {
    let mut o = Vec::with_capacity(64);
    o.extend_from_slice(&n.refs.to_le_bytes());
    match &n.kind {
        NodeKind::Branch { count, zero, one, split, key } => {
            o.push(0);
            o.extend_from_slice(&count.to_le_bytes());
            o.extend_from_slice(&split.to_le_bytes());
            o.extend_from_slice(zero);
            o.extend_from_slice(one);
            o.extend_from_slice(key);
        }
        NodeKind::Leaf { key, data } => {
            o.push(1);
            o.extend_from_slice(key);
            o.extend_from_slice(data);
        }
        NodeKind::Data { value } => {
            o.push(2);
            o.extend_from_slice(value);
        }
    }
    o
}

pub fn decode_info(b: &[u8], n: usize) -> Option<NodeInfo> {
    let refs = u64::from_le_bytes(b.get(..8)?.try_into().ok()?);
    let rest = b.get(9..)?;
    let kind = match b[8] {
        0 => {
            if rest.len() != 16 + 3 * n {
                return None;
            }
            NodeKind::Branch {
                count: u64::from_le_bytes(rest[..8].try_into().ok()?),
                split: u64::from_le_bytes(rest[8..16].try_into().ok()?),
                zero: rest[16..16 + n].to_vec(),
                one: rest[16 + n..16 + 2 * n].to_vec(),
                key: rest[16 + 2 * n..].to_vec(),
            }
        }
        1 => {
            if rest.len() != 2 * n {
                return None;
            }
            NodeKind::Leaf { key: rest[..n].to_vec(), data: rest[n..].to_vec() }
        }
        2 => NodeKind::Data { value: rest.to_vec() },
        _ => return None,
    };
    Some(NodeInfo { refs, kind })
}

pub struct SimDb<const N: usize> {
    disk: SharedDisk,
    d: Discipline,
    queue: Vec<Write>,
    view: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
}

fn err<T>() -> Result<T, Exception> {
    Err(Exception::new("simulated storage failure"))
}

impl<const N: usize> SimDb<N> {
    pub fn attach(disk: &SharedDisk, d: Discipline) -> Result<Self, Exception> {
        simcore::readers::yield_point();
        if lock(disk).open() == Outcome::Fail {
            return err();
        }
        Ok(Self { disk: disk.clone(), d, queue: Vec::new(), view: BTreeMap::new() })
    }
}

impl<const N: usize> Database<N, SimNode<N>> for SimDb<N> {
    type EntryType = ();
    fn open(_: &Path) -> Result<Self, Exception> {
        err()
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<SimNode<N>>, Exception> {
        simcore::readers::yield_point();
        let k = bytes(&key);
        let Ok(stored) = lock(&self.disk).read(&k) else { return err() };
        let found = match (self.d.ryw, self.view.get(&k)) {
            (true, Some(v)) => v.clone(),
            _ => stored,
        };
        match found {
            None => Ok(None),
            Some(b) => decode_info(&b, N)
                .map(|i| Some(make_node::<N, SimNode<N>>(&i)))
                .ok_or_else(|| Exception::new("undecodable record")),
        }
    }
    fn insert(&mut self, key: Array<N>, node: SimNode<N>) -> Result<(), Exception> {
        simcore::readers::yield_point();
        let k = bytes(&key);
        let v = encode_info(&node_info(node));
        let r = if self.d.batched {
            let r = lock(&self.disk).queue(Call::Put, &k);
            if r == Outcome::Ok {
                if self.d.ryw {
                    self.view.insert(k.clone(), Some(v.clone()));
                }
                self.queue.push(Write::Put(k, v));
            }
            r
        } else {
            lock(&self.disk).write(Call::Put, vec![Write::Put(k, v)])
        };
        if r == Outcome::Ok {
            return Ok(());
        }
        // like a write batch, the queue goes with the first call that fails
        self.queue.clear();
        self.view.clear();
        err()
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        simcore::readers::yield_point();
        let k = bytes(key);
        let r = if self.d.batched && self.d.del_queued {
            let r = lock(&self.disk).queue(Call::Delete, &k);
            if r == Outcome::Ok {
                if self.d.ryw {
                    self.view.insert(k.clone(), None);
                }
                self.queue.push(Write::Del(k));
            }
            r
        } else {
            lock(&self.disk).write(Call::Delete, vec![Write::Del(k)])
        };
        if r == Outcome::Ok {
            return Ok(());
        }
        // like a write batch, the queue goes with the first call that fails
        self.queue.clear();
        self.view.clear();
        err()
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        simcore::readers::yield_point();
        if !self.d.batched {
            return Ok(());
        }
        let mut disk = lock(&self.disk);
        self.view.clear();
        if disk.write(Call::Commit, std::mem::take(&mut self.queue)) == Outcome::Fail {
            return err();
        }
        if self.d.sync {
            disk.sync();
        }
        Ok(())
    }
}

#[allow(dead_code)]
fn keep(a: &[u8]) -> Array<8> {
    arr(a)
}
