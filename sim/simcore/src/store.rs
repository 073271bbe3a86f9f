//! What the simulator needs from the code under test.
use crate::SharedDisk;
use std::collections::BTreeMap;

pub type Bytes = Vec<u8>;
pub type Res<T> = Result<T, String>;
pub type Proof = Vec<(Bytes, bool)>;
pub type Dump = BTreeMap<Bytes, NodeInfo>;

/// How a custom storage behaves.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Discipline {
    /// Writes wait for `batch_write` and are then applied as one atomic record.
    pub batched: bool,
    /// Reads see writes that are still queued.
    pub ryw: bool,
    /// Deletes are queued like writes (else applied at once).
    pub del_queued: bool,
    /// A commit is made durable before it returns.
    pub sync: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Backend {
    /// `MerkleBIT<HashTree>`: the generic tree on the in-memory database.
    Hash,
    /// The `HashTree` wrapper itself.
    HashWrap,
    /// `RocksTree` on the simulated RocksDB.
    Rocks,
    /// The generic tree on a simulated custom storage.
    Sim(Discipline),
}

impl Backend {
    pub fn on_disk(self) -> bool {
        matches!(self, Backend::Rocks | Backend::Sim(_))
    }
    /// Whether an operation's writes are one atomic record.
    pub fn atomic(self) -> bool {
        match self {
            Backend::Rocks => true,
            Backend::Sim(d) => d.batched && d.del_queued,
            _ => false,
        }
    }
    pub fn name(self) -> String {
        match self {
            Backend::Hash => "hash".into(),
            Backend::HashWrap => "hashwrap".into(),
            Backend::Rocks => "rocks".into(),
            Backend::Sim(d) => {
                let mut s = String::from("sim");
                for (f, c) in [(d.batched, 'b'), (d.ryw, 'r'), (d.del_queued, 'd'), (d.sync, 's')] {
                    if f {
                        s.push(c);
                    }
                }
                s
            }
        }
    }
    pub fn parse(s: &str) -> Option<Self> {
        Some(match s {
            "hash" => Backend::Hash,
            "hashwrap" => Backend::HashWrap,
            "rocks" => Backend::Rocks,
            _ => {
                let f = s.strip_prefix("sim")?;
                Backend::Sim(Discipline {
                    batched: f.contains('b'),
                    ryw: f.contains('r'),
                    del_queued: f.contains('d'),
                    sync: f.contains('s'),
                })
            }
        })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Spec {
    pub backend: Backend,
    /// Key length in bytes.
    pub n: usize,
}

/// A stored node as seen through the public node interfaces.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct NodeInfo {
    pub refs: u64,
    pub kind: NodeKind,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum NodeKind {
    Branch { count: u64, zero: Bytes, one: Bytes, split: u64, key: Bytes },
    Leaf { key: Bytes, data: Bytes },
    Data { value: Bytes },
}

/// One open handle of a tree.
pub trait Store {
    fn get(&self, root: &[u8], keys: &[Bytes]) -> Res<BTreeMap<Bytes, Option<Bytes>>>;
    fn get_one(&self, root: &[u8], key: &[u8]) -> Res<Option<Bytes>>;
    fn insert(&mut self, prev: Option<&[u8]>, keys: &[Bytes], vals: &[Bytes]) -> Res<Bytes>;
    fn insert_one(&mut self, prev: Option<&[u8]>, key: &[u8], val: &[u8]) -> Res<Bytes>;
    fn remove(&mut self, root: &[u8]) -> Res<()>;
    fn prove(&self, root: &[u8], key: &[u8]) -> Res<Proof>;
    /// Takes the tree apart and puts it together again, with another depth limit. Gives the limit it had.
    fn handover(&mut self, depth: usize) -> Res<usize>;
    /// Contents of an in-memory storage (None where the storage is a simulated disk or cannot be looked at).
    fn dump(&mut self) -> Option<Dump>;
}

/// The code under test, plugged in.
pub trait World: Sync {
    fn variant(&self) -> &str;
    /// The hasher maps structured inputs to equal hashes: only random keys and values are fair.
    fn weak_hash(&self) -> bool;
    fn open(&self, spec: Spec, depth: usize, disk: &SharedDisk) -> Res<Box<dyn Store>>;
    fn verify(&self, spec: Spec, root: &[u8], key: &[u8], val: &[u8], proof: &Proof) -> Res<()>;
    /// Decodes a record of the simulated disk.
    fn decode(&self, spec: Spec, record: &[u8]) -> Res<NodeInfo>;
    fn encode(&self, spec: Spec, node: &NodeInfo) -> Bytes;
    /// Backends this variant was built with.
    fn backends(&self) -> Vec<Backend>;
    /// Recordings of stores written by the released version.
    fn golden(&self) -> &'static str;
    /// Clears per-thread registries.
    fn reset(&self);
}
