//! The proof engine: provers with stores, verifiers that know only roots, a network between them, and a liar on it.
use crate::run::*;
use crate::scenario::{op_text, Op, Scenario};
use crate::store::*;
use crate::{lock, Disk, Rng, SharedDisk};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type Map = BTreeMap<Bytes, Bytes>;

struct Version {
    root: Bytes,
    content: Rc<Map>,
    holds: u32,
}

struct Prover {
    spec: Spec,
    disk: SharedDisk,
    store: Option<Box<dyn Store>>,
    vers: Vec<Version>,
}

#[derive(Clone)]
struct Message {
    root: Bytes,
    key: Bytes,
    val: Bytes,
    proof: Proof,
}

enum Event {
    Request { prover: usize, root: Bytes, key: Bytes, verifier: usize, delay: u64, dup: u64 },
    Reply { verifier: usize, m: Rc<Message> },
}

type V<T> = Result<T, Violation>;

const STEP_US: u64 = 1000;

pub struct ProofNet<'a> {
    w: &'a dyn World,
    scn: &'a Scenario,
    provers: Vec<Prover>,
    verifiers: Vec<Spec>,
    /// Content of every root that was ever acknowledged or made by the liar.
    known: HashMap<Bytes, Rc<Map>>,
    roots: Vec<Bytes>,
    captured: Vec<Rc<Message>>,
    queue: BTreeMap<(u64, u64), Event>,
    now: u64,
    seq: u64,
    step: usize,
    stats: Stats,
    digest: u64,
    tracing: bool,
    trace: Vec<String>,
    other: Option<Violation>,
    last_reply: u64,
    attacks: &'static str,
    /// Hashes seen in traffic that is no longer remembered, and in trees of the liar.
    inner: HashSet<Bytes>,
}

/// A proof message of a tree of the liar's own.
struct Ghost {
    root: Bytes,
    m: Message,
}

impl<'a> ProofNet<'a> {
    pub fn new(w: &'a dyn World, scn: &'a Scenario, tracing: bool) -> Self {
        Self {
            w,
            scn,
            provers: Vec::new(),
            verifiers: Vec::new(),
            known: HashMap::new(),
            roots: Vec::new(),
            captured: Vec::new(),
            queue: BTreeMap::new(),
            now: 0,
            seq: 0,
            step: 0,
            stats: Stats::default(),
            digest: 0x9F,
            tracing,
            trace: Vec::new(),
            other: None,
            last_reply: 0,
            attacks: "",
            inner: HashSet::new(),
        }
    }

    fn viol(&self, tags: &[&'static str], oracle: &'static str, detail: String) -> Violation {
        let mut tags = tags.to_vec();
        if self.scn.prop == "C15" {
            tags.push("C15");
        }
        Violation { tags, cond: Vec::new(), oracle, step: self.step, detail }
    }

    fn note(&mut self, v: Violation) -> V<()> {
        if v.tags.contains(&self.scn.prop.as_str()) {
            return Err(v);
        }
        if self.other.is_none() {
            self.other = Some(v);
        }
        Ok(())
    }

    fn say(&mut self, s: impl FnOnce() -> String) {
        if self.tracing {
            let t = format!("[{:>8} us] {}", self.now, s());
            self.trace.push(t);
        }
    }

    fn key(&self, k: u32) -> Bytes {
        self.scn.keys[k as usize % self.scn.keys.len()].clone()
    }
    fn val(&self, v: u32) -> Bytes {
        self.scn.vals[v as usize % self.scn.vals.len()].clone()
    }

    fn post(&mut self, delay: u64, e: Event) {
        self.seq += 1;
        self.queue.insert((self.now + delay, self.seq), e);
    }

    fn fold(&mut self, x: u64) {
        self.digest = mix(self.digest, x);
    }

    // ------------------------------------------------------------------ provers

    fn open(&mut self, p: usize) {
        let w = self.w;
        let pr = &mut self.provers[p];
        pr.store = None;
        let (spec, disk) = (pr.spec, pr.disk.clone());
        if let CallRes::Ok(s) = call(|| w.open(spec, self.scn.depth.min(usize::MAX as u64) as usize, &disk)) {
            self.provers[p].store = Some(s);
        }
    }

    fn with<T>(&mut self, p: usize, f: impl FnOnce(&mut dyn Store) -> Res<T>) -> CallRes<T> {
        let Some(mut s) = self.provers[p].store.take() else { return CallRes::Err("closed".into()) };
        let r = call(|| f(s.as_mut()));
        self.provers[p].store = Some(s);
        r
    }

    fn pick(&self, p: usize, sel: u64) -> Option<usize> {
        let n = self.provers[p].vers.len();
        (n > 0).then(|| n - 1 - (sel % n as u64) as usize)
    }

    fn do_insert(&mut self, op: &Op) -> V<()> {
        let p = op.arg(0) as usize % self.provers.len();
        let one = op.arg(2) == 1;
        let prev = if op.arg(1) == 0 { None } else { self.pick(p, op.arg(1) - 1) };
        let (prev, mut content) = match prev {
            None => (None, Map::new()),
            Some(j) => {
                let v = &self.provers[p].vers[j];
                (Some(v.root.clone()), (*v.content).clone())
            }
        };
        let mut add = Map::new();
        for &(k, v) in op.items.iter().take(if one { 1 } else { usize::MAX }) {
            add.insert(self.key(k), self.val(v));
        }
        if add.is_empty() {
            return Ok(());
        }
        let mut keys: Vec<Bytes> = Vec::new();
        for &(k, _) in &op.items {
            let k = self.key(k);
            if add.contains_key(&k) && !keys.contains(&k) {
                keys.push(k);
            }
        }
        let vals: Vec<Bytes> = keys.iter().map(|k| add[k].clone()).collect();
        let r = if one {
            self.with(p, |s| s.insert_one(prev.as_deref(), &keys[0], &vals[0]))
        } else {
            self.with(p, |s| s.insert(prev.as_deref(), &keys, &vals))
        };
        match r {
            CallRes::Ok(root) => {
                content.extend(add);
                let content = Rc::new(content);
                self.fold(hash_bytes(1, &root));
                if let Some(c) = self.known.get(&root) {
                    if **c != *content {
                        let v = self.viol(&["C03", "C01"], "root_collision", format!("root {} stands for two maps", short(&root)));
                        self.note(v)?;
                    }
                } else {
                    self.known.insert(root.clone(), content.clone());
                    self.roots.push(root.clone());
                }
                let vers = &mut self.provers[p].vers;
                match vers.iter_mut().find(|v| v.root == root) {
                    Some(v) => v.holds += 1,
                    None => vers.push(Version { root, content, holds: 1 }),
                }
            }
            r => {
                let v = self.viol(&["C01"], "insert_failed", r.brief());
                self.note(v)?;
            }
        }
        if self.provers[p].vers.len() > 10 {
            self.remove(p, 0);
        }
        Ok(())
    }

    fn remove(&mut self, p: usize, j: usize) {
        let root = self.provers[p].vers[j].root.clone();
        let _ = self.with(p, |s| s.remove(&root));
        let v = &mut self.provers[p].vers;
        v[j].holds -= 1;
        if v[j].holds == 0 {
            v.remove(j);
        }
    }

    /// Proof of one key by a prover, judged against what the prover stores.
    fn prove(&mut self, p: usize, root: &Bytes, key: &Bytes) -> V<Option<Message>> {
        let live = self.provers[p].vers.iter().find(|v| v.root == *root).map(|v| v.content.clone());
        let r = self.with(p, |s| s.prove(root, key));
        let Some(content) = live else {
            // the version has gone meanwhile: an answer is not owed, a panic is not allowed
            if let CallRes::Panic(_) | CallRes::Hang = r {
                return Err(self.viol(&["C09"], "proof_panic", format!("proof under a removed root: {}", r.brief())));
            }
            return Ok(None);
        };
        match (r, content.get(key)) {
            (CallRes::Ok(proof), Some(val)) => {
                self.fold(proof.len() as u64);
                Ok(Some(Message { root: root.clone(), key: key.clone(), val: val.clone(), proof }))
            }
            (CallRes::Err(_), None) => {
                self.stats.add("absent_keys_refused", 1);
                Ok(None)
            }
            (CallRes::Ok(_), None) => Err(self.viol(&["C09"], "proof_of_absent", format!("a proof was generated for absent key {} under {}", short(key), short(root)))),
            (r, _) => Err(self.viol(&["C09"], "proof_error", format!("proof of key {} under {}: {}", short(key), short(root), r.brief()))),
        }
    }

    // ------------------------------------------------------------------ verifiers

    fn verify(&self, verifier: usize, m: &Message) -> CallRes<()> {
        let spec = self.verifiers[verifier % self.verifiers.len()];
        let w = self.w;
        call(|| w.verify(spec, &m.root, &m.key, &m.val, &m.proof))
    }

    fn honest(&mut self, verifier: usize, m: &Message) -> V<()> {
        let r = self.verify(verifier, m);
        self.stats.add("honest_proofs_judged", 1);
        let big = self.known.get(&m.root).is_some_and(|c| c.len() > 1);
        if big && self.scn.prop != "C10" {
            self.stats.nontrivial = true;
        }
        self.stats.states.push(mix(mix(1, m.proof.len() as u64), hash_bytes(0, &m.root)));
        if !r.is_ok() {
            let d = format!("{} rejects the proof of key {} under {}: {}", self.verifiers[verifier % self.verifiers.len()].backend.name(), short(&m.key), short(&m.root), r.brief());
            return Err(self.viol(&["C09"], "proof_rejected", d));
        }
        Ok(())
    }

    /// A message from the liar: accepted only if it is true.
    fn judge(&mut self, verifier: usize, m: &Message) -> V<()> {
        let r = self.verify(verifier, m);
        let truth = self.known.get(&m.root).is_some_and(|c| c.get(&m.key) == Some(&m.val));
        let verdict = match &r {
            CallRes::Ok(()) => 1,
            CallRes::Err(_) => 0,
            _ => 2,
        };
        self.stats.add(&format!("attack_{}", self.attacks), 1);
        self.stats.add(if verdict == 1 { "altered_messages_accepted_and_true" } else { "altered_messages_rejected" }, u64::from(verdict != 2));
        self.fold(mix(verdict, m.proof.len() as u64));
        self.stats.states.push(hash_bytes(mix(verdict, m.proof.len() as u64), self.attacks.as_bytes()));
        if self.scn.prop == "C10" {
            self.stats.nontrivial = true;
        }
        // hashes inside honest traffic are roots of real subtrees: no verifier takes them for versions
        let inner = !self.known.contains_key(&m.root)
            && (self.scn.keys.contains(&m.root) || self.captured.iter().any(|c| c.proof.iter().any(|e| e.0 == m.root)) || self.inner.contains(&m.root));
        match r {
            CallRes::Ok(()) if !truth && inner => {
                self.stats.add("accepted_under_inner_hash", 1);
                Ok(())
            }
            CallRes::Ok(()) if !truth => {
                let what = match self.known.get(&m.root) {
                    None => "a root nobody made".into(),
                    Some(c) => match c.get(&m.key) {
                        None => "a version without that key".into(),
                        Some(v) => format!("a version where its value is {}", short(v)),
                    },
                };
                let d = format!(
                    "{}: pair {} -> {} accepted under {} ({what}), proof of {} entries",
                    self.attacks,
                    short(&m.key),
                    short(&m.val),
                    short(&m.root),
                    m.proof.len()
                );
                Err(self.viol(&["C10"], "forged", d))
            }
            CallRes::Ok(()) if self.scn.prop == "C10" => match self.genuine(m) {
                Some(p) if !same_path(&p, &m.proof) => {
                    let d = format!(
                        "{}: pair {} -> {} of {} accepted with a path of {} entries that is not the one of {} entries that leads to it",
                        self.attacks,
                        short(&m.key),
                        short(&m.val),
                        short(&m.root),
                        m.proof.len(),
                        p.len()
                    );
                    Err(self.viol(&["C10"], "second_proof", d))
                }
                _ => Ok(()),
            },
            CallRes::Panic(_) | CallRes::Hang => Err(self.viol(&["C10"], "verify_panic", format!("{}: {}", self.attacks, r.brief()))),
            _ => Ok(()),
        }
    }

    /// The proof of a true pair, from a tree made afresh with the content of its root.
    fn genuine(&mut self, m: &Message) -> Option<Vec<(Bytes, bool)>> {
        let content = self.known.get(&m.root)?.clone();
        let spec = Spec { backend: Backend::Hash, n: self.scn.n };
        let disk = Arc::new(Mutex::new(Disk::default()));
        let (keys, vals): (Vec<Bytes>, Vec<Bytes>) = content.iter().map(|(k, v)| (k.clone(), v.clone())).unzip();
        let w = self.w;
        let r = call(|| {
            let mut s = w.open(spec, 8 * spec.n + 8, &disk)?;
            let root = s.insert(None, &keys, &vals)?;
            s.prove(&root, &m.key).map(|p| (root, p))
        });
        self.stats.add("accepted_paths_compared", 1);
        match r {
            CallRes::Ok((root, p)) if root == m.root => Some(p),
            _ => None,
        }
    }

    // ------------------------------------------------------------------ the liar

    /// A tree of the liar's own choosing and a proof in it.
    fn ghost(&mut self, rng: &mut Rng, key: Bytes, val: Bytes, size: usize) -> Option<Ghost> {
        let spec = Spec { backend: Backend::Hash, n: self.scn.n };
        let mut map = Map::new();
        map.insert(key.clone(), val.clone());
        for _ in 1..size {
            let k = self.scn.keys[rng.idx(self.scn.keys.len())].clone();
            let v = self.scn.vals[rng.idx(self.scn.vals.len())].clone();
            map.entry(k).or_insert(v);
        }
        let keys: Vec<Bytes> = map.keys().cloned().collect();
        let vals: Vec<Bytes> = map.values().cloned().collect();
        let disk = Arc::new(Mutex::new(Disk::default()));
        let w = self.w;
        let r = call(|| {
            let mut s = w.open(spec, 8 * spec.n + 8, &disk)?;
            let root = s.insert(None, &keys, &vals)?;
            let proof = s.prove(&root, &key)?;
            Ok((root, proof))
        });
        let CallRes::Ok((root, proof)) = r else { return None };
        self.known.entry(root.clone()).or_insert_with(|| Rc::new(map));
        self.inner.extend(proof.iter().map(|e: &(Bytes, bool)| e.0.clone()));
        Some(Ghost { root: root.clone(), m: Message { root, key, val, proof } })
    }

    fn mutate(&mut self, rng: &mut Rng, kind: u64, m: &mut Message) -> &'static str {
        let n = self.scn.n;
        let flip = |rng: &mut Rng, b: &mut Bytes| {
            if b.is_empty() {
                b.push(1);
            } else {
                let i = rng.idx(b.len() * 8);
                b[i / 8] ^= 128 >> (i % 8);
            }
        };
        let any_hash = |rng: &mut Rng, me: &Self| -> Bytes {
            match rng.below(6) {
                0 => vec![0; n],
                1 => (0..n).map(|_| rng.u64() as u8).collect(),
                2 => me.roots[rng.idx(me.roots.len())].clone(),
                3 => me.scn.keys[rng.idx(me.scn.keys.len())].clone(),
                _ => {
                    let c = &me.captured[rng.idx(me.captured.len())];
                    if c.proof.is_empty() {
                        c.root.clone()
                    } else {
                        c.proof[rng.idx(c.proof.len())].0.clone()
                    }
                }
            }
        };
        let len = m.proof.len();
        match kind % 16 {
            0 => {
                if len > 0 {
                    let i = rng.idx(len);
                    flip(rng, &mut m.proof[i].0);
                }
                "flip_hash"
            }
            1 => {
                if len > 0 {
                    let i = if rng.chance(1, 2) { len - 1 } else { rng.idx(len) };
                    m.proof[i].1 = !m.proof[i].1;
                }
                "flip_side"
            }
            2 => {
                m.proof.truncate(rng.idx(len + 1));
                "truncate_tail"
            }
            3 => {
                if len > 0 {
                    let i = rng.idx(len);
                    m.proof.remove(i);
                }
                "drop_entry"
            }
            4 => {
                if len > 0 {
                    let e = m.proof[rng.idx(len)].clone();
                    let i = rng.idx(len + 1);
                    m.proof.insert(i, e);
                }
                "duplicate_entry"
            }
            5 => {
                if len > 1 {
                    let (i, j) = (rng.idx(len), rng.idx(len));
                    m.proof.swap(i, j);
                }
                "swap_entries"
            }
            6 => {
                let h = any_hash(rng, self);
                let i = if rng.chance(1, 2) { len } else { rng.idx(len + 1) };
                m.proof.insert(i, (h, rng.chance(1, 2)));
                "insert_entry"
            }
            7 => {
                match rng.below(6) {
                    0 => flip(rng, &mut m.val),
                    1 => m.val.push(rng.u64() as u8),
                    2 => {
                        m.val.pop();
                    }
                    3 => m.val = Vec::new(),
                    4 => m.val = any_hash(rng, self),
                    _ => m.val = self.scn.vals[rng.idx(self.scn.vals.len())].clone(),
                }
                "change_value"
            }
            8 => {
                match rng.below(3) {
                    0 => flip(rng, &mut m.key),
                    1 => m.key = any_hash(rng, self),
                    _ => m.key = self.scn.keys[rng.idx(self.scn.keys.len())].clone(),
                }
                "change_key"
            }
            9 => {
                m.root = self.roots[rng.idx(self.roots.len())].clone();
                "replay_to_root"
            }
            10 => {
                match rng.below(3) {
                    0 => flip(rng, &mut m.root),
                    1 => m.root = any_hash(rng, self),
                    _ => {
                        if len > 0 {
                            m.root = m.proof[rng.idx(len)].0.clone();
                        }
                    }
                }
                "change_root"
            }
            11 => {
                let c = self.captured[rng.idx(self.captured.len())].clone();
                let (i, j) = (rng.idx(len + 1), rng.idx(c.proof.len() + 1));
                m.proof.truncate(i);
                m.proof.extend_from_slice(&c.proof[j..]);
                "splice"
            }
            12 => {
                let c = self.captured[rng.idx(self.captured.len())].clone();
                let h = c.proof.len().min(2);
                if len >= 2 && h == 2 {
                    m.proof[..2].clone_from_slice(&c.proof[..2]);
                    m.key = c.key.clone();
                    m.val = c.val.clone();
                }
                "foreign_head"
            }
            13 => {
                if len > 0 {
                    let i = rng.idx(len);
                    m.proof[i].0 = any_hash(rng, self);
                }
                "replace_hash"
            }
            14 => {
                for e in &mut m.proof {
                    if rng.chance(1, 2) {
                        e.1 = !e.1;
                    }
                }
                "flip_sides"
            }
            _ => {
                let i = rng.idx(len + 1);
                m.proof.drain(..i);
                "truncate_head"
            }
        }
    }

    fn do_attack(&mut self, op: &Op) -> V<()> {
        if self.captured.is_empty() || self.roots.is_empty() {
            return Ok(());
        }
        let mut rng = Rng::new(op.arg(1) ^ 0xA77A);
        let verifier = op.arg(2) as usize;
        let mut m = (*self.captured[rng.idx(self.captured.len())]).clone();
        let keys = self.scn.keys.clone();
        let vals = self.scn.vals.clone();
        let n = self.scn.n;
        let kind = op.arg(0) % 30;
        match kind {
            0..=15 => self.attacks = self.mutate(&mut rng, kind, &mut m),
            16..=18 => {
                for _ in 0..rng.range(2, 4) {
                    let k = rng.below(16);
                    self.mutate(&mut rng, k, &mut m);
                }
                self.attacks = "several_changes";
            }
            19 => {
                let len = *rng.pick(&[0, 1, 2, 3, 8, 300]);
                m.proof = (0..len).map(|_| ((0..n).map(|_| rng.u64() as u8).collect(), rng.chance(1, 2))).collect();
                self.attacks = "garbage";
            }
            20..=25 => {
                // a pair of the liar's choice, proved in a tree of its own and carried over
                let k = if rng.chance(1, 2) { m.key.clone() } else { keys[rng.idx(keys.len())].clone() };
                let v = vals[rng.idx(vals.len())].clone();
                let size = if kind < 24 { 1 } else { rng.range(2, 6) };
                let Some(g) = self.ghost(&mut rng, k, v, size) else { return Ok(()) };
                let honest = m.proof.clone();
                let root = m.root.clone();
                let mut f = g.m.clone();
                f.root = root.clone();
                match kind {
                    20 => {
                        // its own leaf under the honest path
                        f.proof.truncate(2);
                        f.proof.extend(honest.iter().skip(2).cloned());
                        self.attacks = "ghost_leaf_honest_path";
                    }
                    21 => {
                        f.proof.truncate(2);
                        f.proof.extend(honest.iter().cloned());
                        self.attacks = "ghost_before_honest";
                    }
                    22 => {
                        let side = rng.chance(1, 2);
                        match rng.below(3) {
                            0 => f.proof.push((root.clone(), side)),
                            1 => {
                                f.proof.truncate(1);
                                f.proof.push((root.clone(), side));
                            }
                            _ => f.proof[1].0 = root.clone(),
                        }
                        self.attacks = "ghost_ends_in_root";
                    }
                    23 => {
                        let h = honest.get(rng.idx(honest.len().max(1))).cloned();
                        if let Some(h) = h {
                            let i = rng.idx(f.proof.len());
                            f.proof[i] = h;
                        }
                        f.proof.extend(honest.iter().skip(2).cloned());
                        self.attacks = "ghost_mixed";
                    }
                    24 => self.attacks = "ghost_under_root",
                    _ => {
                        f.proof.extend(honest.iter().skip(rng.idx(honest.len() + 1)).cloned());
                        self.attacks = "ghost_tree_under_path";
                    }
                }
                // half of them with the honest values in the checked places
                if rng.chance(1, 4) && !honest.is_empty() && !f.proof.is_empty() {
                    f.proof[0] = honest[0].clone();
                }
                if rng.chance(1, 4) && honest.len() > 1 && f.proof.len() > 1 {
                    f.proof[1] = honest[1].clone();
                }
                m = f;
                let _ = g.root;
            }
            26 => {
                // the pair of one message with the proof of another
                let c = self.captured[rng.idx(self.captured.len())].clone();
                match rng.below(3) {
                    0 => m.val = c.val.clone(),
                    1 => m.key = c.key.clone(),
                    _ => {
                        m.key = c.key.clone();
                        m.val = c.val.clone();
                    }
                }
                self.attacks = "cross_pair";
            }
            27 => {
                // a key and value that continue into each other
                let s = rng.range(1, 3);
                let mut all = m.key.clone();
                all.extend_from_slice(&m.val);
                if rng.chance(1, 2) {
                    let mut k: Bytes = (0..s).map(|_| rng.u64() as u8).collect();
                    k.extend_from_slice(&all[..n - s]);
                    m.val = all[n - s..].to_vec();
                    m.key = k;
                } else if all.len() >= n + s {
                    m.key = all[s..n + s].to_vec();
                    m.val = all[n + s..].to_vec();
                }
                self.attacks = "shifted_pair";
            }
            _ => {
                // nodes of one kind passed off as another, through pairs chosen for it
                let ghosts: Vec<(Bytes, Bytes)> = self.confusable(&mut rng);
                let Some((gk, gv)) = (!ghosts.is_empty()).then(|| ghosts[rng.idx(ghosts.len())].clone()) else { return Ok(()) };
                let Some(g) = self.ghost(&mut rng, gk.clone(), gv.clone(), 1) else { return Ok(()) };
                let carriers: Vec<Rc<Message>> = self
                    .captured
                    .iter()
                    .filter(|c| c.proof.len() > 1 && (c.key == g.root || c.val == g.root || c.key == g.m.proof[0].0 || c.val == g.m.proof[0].0))
                    .cloned()
                    .collect();
                if carriers.is_empty() || g.m.proof.len() < 2 {
                    return Ok(());
                }
                let c = carriers[rng.idx(carriers.len())].clone();
                m = g.m.clone();
                m.root = c.root.clone();
                m.proof.truncate(2);
                if c.key == g.root {
                    // the leaf H(key, data) read as a branch over the ghost
                    m.proof.push(if rng.chance(1, 2) || c.val.len() != n { (c.proof[0].0.clone(), true) } else { (c.val.clone(), true) });
                    if rng.chance(1, 3) {
                        m.proof.push((c.key.clone(), false));
                    }
                } else {
                    m.proof.push((c.key.clone(), false));
                    if rng.chance(1, 2) {
                        m.proof.push((c.key.clone(), false));
                    }
                }
                m.proof.extend(c.proof.iter().skip(2).cloned());
                self.attacks = "confused_kinds";
            }
        }
        let t = self.attacks;
        self.say(|| format!("liar: {t} {} -> {} under {}", short(&m.key), short(&m.val), short(&m.root)));
        self.judge(verifier, &m)
    }

    /// Pairs whose one-pair trees have hashes that occur as keys or values.
    fn confusable(&mut self, _rng: &mut Rng) -> Vec<(Bytes, Bytes)> {
        let mut out = Vec::new();
        for i in 0..self.scn.params.get(2).copied().unwrap_or(0).min(4) {
            out.push(ghost_pair(self.scn.n, self.scn.seed, i));
        }
        out
    }

    // ------------------------------------------------------------------ network

    fn do_ask(&mut self, op: &Op) {
        let p = op.arg(0) as usize % self.provers.len();
        let Some(j) = self.pick(p, op.arg(1)) else { return };
        let root = self.provers[p].vers[j].root.clone();
        let keys: Vec<Bytes> = op.items.iter().map(|i| self.key(i.0)).collect();
        for (i, key) in keys.into_iter().enumerate() {
            let mut r = Rng::new(op.arg(3) ^ (i as u64) << 32);
            let (d1, d2) = if op.arg(3) == 0 { (1, 1) } else { (r.below(12) * STEP_US + r.below(STEP_US), r.below(12) * STEP_US + r.below(STEP_US)) };
            if op.arg(4) == 1 && r.chance(1, 3) {
                self.stats.add("net_lost", 1);
                continue;
            }
            let dup = if op.arg(4) == 1 && r.chance(1, 4) { r.range(1, 3) as u64 } else { 0 };
            self.post(d1, Event::Request { prover: p, root: root.clone(), key, verifier: op.arg(2) as usize, delay: d2, dup });
        }
    }

    fn deliver_until(&mut self, t: u64) -> V<()> {
        while let Some((&(at, seq), _)) = self.queue.iter().next() {
            if at > t {
                break;
            }
            let e = self.queue.remove(&(at, seq)).expect("event");
            if at > self.now {
                self.now = at;
            }
            match e {
                Event::Request { prover, root, key, verifier, delay, dup } => {
                    self.stats.add("net_requests", 1);
                    self.say(|| format!("request to prover {prover}: key {} under {}", short(&key), short(&root)));
                    if let Some(m) = self.prove(prover, &root, &key)? {
                        let m = Rc::new(m);
                        if self.captured.len() < 64 {
                            self.captured.push(m.clone());
                        } else {
                            let i = self.seq as usize % 64;
                            let old = std::mem::replace(&mut self.captured[i], m.clone());
                            self.inner.extend(old.proof.iter().map(|e| e.0.clone()));
                        }
                        for d in 0..dup {
                            self.stats.add("net_duplicated", 1);
                            self.post(delay + (d + 1) * 700, Event::Reply { verifier: verifier + d as usize, m: m.clone() });
                        }
                        self.post(delay, Event::Reply { verifier, m });
                    }
                }
                Event::Reply { verifier, m } => {
                    if seq < self.last_reply {
                        self.stats.add("net_reordered", 1);
                    }
                    self.last_reply = self.last_reply.max(seq);
                    self.say(|| format!("verifier {verifier} receives {} entries for key {}", m.proof.len(), short(&m.key)));
                    self.honest(verifier, &m)?;
                }
            }
        }
        self.now = self.now.max(t);
        Ok(())
    }

    fn do_op(&mut self, op: &Op) -> V<()> {
        match op.name.as_str() {
            "insert" => self.do_insert(op)?,
            "remove" => {
                let p = op.arg(0) as usize % self.provers.len();
                if let Some(j) = self.pick(p, op.arg(1)) {
                    self.remove(p, j);
                }
            }
            "ask" => self.do_ask(op),
            "crash" => {
                let p = op.arg(0) as usize % self.provers.len();
                if self.provers[p].spec.backend.on_disk() {
                    self.stats.add("fault_prover_crash", 1);
                    self.provers[p].store = None;
                    lock(&self.provers[p].disk).restart();
                    self.open(p);
                    let before = self.queue.len();
                    self.queue.retain(|_, e| !matches!(e, Event::Request { prover, .. } if *prover == p));
                    self.stats.add("net_lost_in_crash", (before - self.queue.len()) as u64);
                }
            }
            "attack" => self.do_attack(op)?,
            _ => {}
        }
        Ok(())
    }

    fn run_all(&mut self) -> V<()> {
        let n = self.scn.n;
        let count = (self.scn.params.first().copied().unwrap_or(1).clamp(1, 3)) as usize;
        for (i, b) in self.scn.backends.iter().enumerate() {
            let spec = Spec { backend: *b, n };
            if i < count {
                let mut d = Disk::default();
                d.keep_log = false;
                self.provers.push(Prover { spec, disk: Arc::new(Mutex::new(d)), store: None, vers: Vec::new() });
            }
            self.verifiers.push(spec);
        }
        for p in 0..self.provers.len() {
            self.open(p);
        }
        let scn = self.scn;
        for (i, op) in scn.ops.iter().enumerate() {
            self.step = i;
            self.deliver_until((i as u64 + 1) * STEP_US)?;
            self.say(|| format!("op {i}: {}", op_text(op)));
            self.do_op(op)?;
        }
        // the network calms down: everything still on its way arrives
        self.step = scn.ops.len();
        self.deliver_until(self.now + 100 * STEP_US)?;
        // and every pair of every live version can be proved to everyone, every other key to no one
        let mut all: Vec<Bytes> = scn.keys.clone();
        all.truncate(48);
        for p in 0..self.provers.len() {
            for j in 0..self.provers[p].vers.len() {
                let root = self.provers[p].vers[j].root.clone();
                for (i, k) in all.iter().enumerate() {
                    if let Some(m) = self.prove(p, &root, k)? {
                        self.honest(p + i + j, &m)?;
                    }
                }
            }
        }
        Ok(())
    }

    pub fn run(mut self) -> RunResult {
        let r = self.run_all();
        let mut calls = 0;
        for p in &self.provers {
            let d = lock(&p.disk);
            calls += d.total_calls;
            self.digest = mix(self.digest, d.digest);
        }
        self.stats.add("storage_calls", calls);
        self.stats.sim_us = self.now;
        RunResult { violation: r.err(), other: self.other, digest: self.digest, stats: self.stats, trace: self.trace }
            .sorted(&self.scn.prop)
    }
}

/// The same hashes, and the same sides where they mean something (not for the data and the leaf).
fn same_path(a: &[(Bytes, bool)], b: &[(Bytes, bool)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).enumerate().all(|(i, (x, y))| x.0 == y.0 && (i < 2 || x.1 == y.1))
}

/// Pair `i` that the liar has in mind in the run of `seed`: its hashes are planted among keys and values.
pub fn ghost_pair(n: usize, seed: u64, i: u64) -> (Bytes, Bytes) {
    let mut rng = Rng::new(seed ^ 0x6057 ^ i << 40);
    let k = (0..n).map(|_| rng.u64() as u8).collect();
    let v = format!("ghost{i}").into_bytes();
    (k, v)
}
