//! A shared in-memory store with switchable faults, and a tree on it.
#![allow(dead_code)]
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Database, Exception};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_hasher::TreeHasher;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;

pub type K<const N: usize> = [u8; N];

#[derive(Default)]
pub struct State<const N: usize> {
    pub map: BTreeMap<K<N>, TreeNode<N>>,
    /// Reads that still succeed before one fails.
    pub reads_left: Option<u64>,
    /// Called after every write that took effect.
    pub watch: Option<Box<dyn FnMut(&BTreeMap<K<N>, TreeNode<N>>)>>,
    pub reads: u64,
}

#[derive(Clone, Default)]
pub struct Shared<const N: usize>(pub Rc<RefCell<State<N>>>);

impl<const N: usize> Database<N, TreeNode<N>> for Shared<N> {
    type EntryType = ();
    fn open(_: &Path) -> Result<Self, Exception> {
        Ok(Self::default())
    }
    fn get_node(&self, key: K<N>) -> Result<Option<TreeNode<N>>, Exception> {
        let mut s = self.0.borrow_mut();
        s.reads += 1;
        if s.reads > 1_000_000 {
            println!("FAIL: more than a million reads");
            std::process::exit(1);
        }
        if let Some(left) = &mut s.reads_left {
            if *left == 0 {
                s.reads_left = None;
                return Err(Exception::new("injected"));
            }
            *left -= 1;
        }
        Ok(s.map.get(&key).cloned())
    }
    fn insert(&mut self, key: K<N>, node: TreeNode<N>) -> Result<(), Exception> {
        let mut s = self.0.borrow_mut();
        s.map.insert(key, node);
        let State { map, watch, .. } = &mut *s;
        if let Some(w) = watch {
            w(map);
        }
        Ok(())
    }
    fn remove(&mut self, key: &K<N>) -> Result<(), Exception> {
        let mut s = self.0.borrow_mut();
        s.map.remove(key);
        let State { map, watch, .. } = &mut *s;
        if let Some(w) = watch {
            w(map);
        }
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        Ok(())
    }
}

pub struct Kind<const N: usize>;
impl<const N: usize> MerkleTree<N> for Kind<N> {
    type Database = Shared<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Vec<u8>;
}
pub type Tree<const N: usize> = MerkleBIT<Kind<N>, N>;

pub fn tree<const N: usize>() -> (Tree<N>, Shared<N>) {
    let db = Shared::default();
    (MerkleBIT::from_db(db.clone(), N * 8).unwrap(), db)
}

/// A small generator of pseudo-random numbers.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn key<const N: usize>(&mut self) -> K<N> {
        let mut k = [0; N];
        for b in &mut k {
            *b = self.next() as u8;
        }
        k
    }
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAIL: {what}");
        std::process::exit(1);
    }
}
