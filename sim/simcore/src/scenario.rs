//! A scenario is everything one simulated run depends on, besides the code under test. It is also the replay file.
use crate::store::{Backend, Bytes};
use crate::{Call, FaultKind, CALL_NAMES};
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum On {
    Any,
    Call(Call),
    Encode,
    Decode,
}

/// A fault inside one operation. `at` places it among the matching calls of the operation (per mille of a dry run).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fault {
    pub on: On,
    pub at: u32,
    pub span: u32,
    pub kind: FaultKind,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Op {
    pub name: String,
    pub a: Vec<u64>,
    pub items: Vec<(u32, u32)>,
    pub faults: Vec<Fault>,
}

impl Op {
    pub fn new(name: &str, a: &[u64], items: Vec<(u32, u32)>) -> Self {
        Self { name: name.into(), a: a.to_vec(), items, faults: Vec::new() }
    }
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Scenario {
    pub prop: String,
    pub variant: String,
    pub engine: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub n: usize,
    pub depth: u64,
    pub backends: Vec<Backend>,
    pub params: Vec<u64>,
    pub keys: Vec<Bytes>,
    pub vals: Vec<Bytes>,
    pub ops: Vec<Op>,
    /// The run begins on a recorded store: its place in the variant's recordings.
    pub image: Option<usize>,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
pub fn unhex(s: &str) -> Option<Bytes> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn val_text(v: &[u8]) -> String {
    if v.len() > 40 && v.iter().all(|&b| b == v[0]) {
        format!("rep:{}:{:02x}", v.len(), v[0])
    } else {
        format!("hex:{}", hex(v))
    }
}
fn val_parse(s: &str) -> Option<Bytes> {
    if let Some(h) = s.strip_prefix("hex:") {
        return unhex(h);
    }
    let (n, b) = s.strip_prefix("rep:")?.split_once(':')?;
    Some(vec![u8::from_str_radix(b, 16).ok()?; n.parse().ok()?])
}

fn on_text(o: On) -> &'static str {
    match o {
        On::Any => "any",
        On::Call(c) => CALL_NAMES[c as usize],
        On::Encode => "encode",
        On::Decode => "decode",
    }
}
fn on_parse(s: &str) -> Option<On> {
    Some(match s {
        "any" => On::Any,
        "encode" => On::Encode,
        "decode" => On::Decode,
        "open" => On::Call(Call::Open),
        "read" => On::Call(Call::Read),
        "put" => On::Call(Call::Put),
        "delete" => On::Call(Call::Delete),
        "commit" => On::Call(Call::Commit),
        _ => return None,
    })
}
fn kind_text(k: FaultKind) -> String {
    match k {
        FaultKind::Err => "err".into(),
        FaultKind::ErrApplied => "err_applied".into(),
        FaultKind::CrashBefore => "crash_before".into(),
        FaultKind::CrashAfter => "crash_after".into(),
        FaultKind::PowerLoss(n) => format!("power_loss:{n}"),
        FaultKind::ReadMissing => "read_missing".into(),
        FaultKind::ReadDamaged(n) => format!("read_damaged:{n}"),
    }
}
fn kind_parse(s: &str) -> Option<FaultKind> {
    let (name, n) = s.split_once(':').unwrap_or((s, "0"));
    let n: u32 = n.parse().ok()?;
    Some(match name {
        "err" => FaultKind::Err,
        "err_applied" => FaultKind::ErrApplied,
        "crash_before" => FaultKind::CrashBefore,
        "crash_after" => FaultKind::CrashAfter,
        "power_loss" => FaultKind::PowerLoss(n),
        "read_missing" => FaultKind::ReadMissing,
        "read_damaged" => FaultKind::ReadDamaged(n),
        _ => return None,
    })
}

pub fn op_text(op: &Op) -> String {
    let mut s = op.name.clone();
    if !op.a.is_empty() {
        s.push_str(" args=");
        s.push_str(&op.a.iter().map(u64::to_string).collect::<Vec<_>>().join(","));
    }
    if !op.items.is_empty() {
        s.push_str(" items=");
        s.push_str(&op.items.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(","));
    }
    for f in &op.faults {
        let _ = write!(s, " fault={}/{}/{}/{}", on_text(f.on), f.at, f.span, kind_text(f.kind));
    }
    s
}

impl Scenario {
    pub fn to_text(&self) -> String {
        let mut s = String::from("mbsim-replay 1\n");
        let _ = writeln!(s, "property {}\nvariant {}\nengine {}", self.prop, self.variant, self.engine);
        let _ = writeln!(s, "seed {}\nhashseed {}\nn {}\ndepth {}", self.seed, self.hash_seed, self.n, self.depth);
        for b in &self.backends {
            let _ = writeln!(s, "backend {}", b.name());
        }
        if let Some(i) = self.image {
            let _ = writeln!(s, "image {i}");
        }
        if !self.params.is_empty() {
            let p: Vec<_> = self.params.iter().map(u64::to_string).collect();
            let _ = writeln!(s, "params {}", p.join(" "));
        }
        for k in &self.keys {
            let _ = writeln!(s, "key {}", hex(k));
        }
        for v in &self.vals {
            let _ = writeln!(s, "val {}", val_text(v));
        }
        for o in &self.ops {
            let _ = writeln!(s, "op {}", op_text(o));
        }
        s
    }

    pub fn parse(text: &str) -> Option<Self> {
        let mut lines = text.lines();
        if lines.next()? != "mbsim-replay 1" {
            return None;
        }
        let mut s = Scenario {
            prop: String::new(),
            variant: String::new(),
            engine: String::new(),
            seed: 0,
            hash_seed: 0,
            n: 32,
            depth: 0,
            backends: Vec::new(),
            params: Vec::new(),
            keys: Vec::new(),
            vals: Vec::new(),
            ops: Vec::new(),
            image: None,
        };
        for l in lines {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => s.prop = v.into(),
                "variant" => s.variant = v.into(),
                "engine" => s.engine = v.into(),
                "seed" => s.seed = v.parse().ok()?,
                "hashseed" => s.hash_seed = v.parse().ok()?,
                "n" => s.n = v.parse().ok()?,
                "depth" => s.depth = v.parse().ok()?,
                "backend" => s.backends.push(Backend::parse(v)?),
                "image" => s.image = Some(v.parse().ok()?),
                "params" => s.params = v.split(' ').map(str::parse).collect::<Result<_, _>>().ok()?,
                "key" => s.keys.push(unhex(v)?),
                "val" => s.vals.push(val_parse(v)?),
                "op" => {
                    let mut parts = v.split(' ');
                    let mut op = Op::new(parts.next()?, &[], Vec::new());
                    for p in parts {
                        let (k, v) = p.split_once('=')?;
                        match k {
                            "args" => op.a = v.split(',').map(str::parse).collect::<Result<_, _>>().ok()?,
                            "items" => {
                                for it in v.split(',') {
                                    let (a, b) = it.split_once(':')?;
                                    op.items.push((a.parse().ok()?, b.parse().ok()?));
                                }
                            }
                            "fault" => {
                                let f: Vec<&str> = v.split('/').collect();
                                if f.len() != 4 {
                                    return None;
                                }
                                op.faults.push(Fault {
                                    on: on_parse(f[0])?,
                                    at: f[1].parse().ok()?,
                                    span: f[2].parse().ok()?,
                                    kind: kind_parse(f[3])?,
                                });
                            }
                            _ => return None,
                        }
                    }
                    s.ops.push(op);
                }
                _ => return None,
            }
        }
        Some(s)
    }
}
