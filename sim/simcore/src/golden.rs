//! Recordings of stores written by the released version: histories with the records, roots and proofs they left.
//! They are made once (`mbsim golden`) and stay as they are, so that a version which reads only what it wrote
//! itself, or names the same contents differently, is found out.
use crate::engine::Content;
use crate::scenario::{hex, unhex, Scenario};
use crate::store::{Bytes, Proof, World};
use crate::Rng;
use std::fmt::Write as _;
use std::sync::OnceLock;

pub struct Golden {
    /// The history (without faults) that made it.
    pub scn: Scenario,
    pub recs: Vec<(Bytes, Bytes)>,
    /// Live versions, oldest first, with how often each is held.
    pub vers: Vec<(Bytes, u32, Content)>,
    /// Proofs made then: version, key, steps.
    pub proofs: Vec<(usize, u32, Proof)>,
}

static ALL: OnceLock<Vec<Golden>> = OnceLock::new();

fn parse_one(text: &str) -> Option<Golden> {
    let (scn, rest) = text.split_once("recorded\n")?;
    let mut g = Golden { scn: Scenario::parse(scn)?, recs: Vec::new(), vers: Vec::new(), proofs: Vec::new() };
    for l in rest.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f.as_slice() {
            ["rec", k, v] => g.recs.push((unhex(k)?, unhex(v)?)),
            ["ver", r, h, items] => {
                let mut c = Content::new();
                for it in items.split(',') {
                    let (k, v) = it.split_once(':')?;
                    c.insert(k.parse().ok()?, v.parse().ok()?);
                }
                g.vers.push((unhex(r)?, h.parse().ok()?, c));
            }
            ["proof", v, k, steps @ ..] => {
                let mut p = Proof::new();
                for s in steps {
                    let (h, b) = s.split_once(':')?;
                    p.push((unhex(h)?, b == "1"));
                }
                g.proofs.push((v.parse().ok()?, k.parse().ok()?, p));
            }
            [] | [""] => {}
            _ => return None,
        }
    }
    Some(g)
}

/// The recordings of this build of the simulator.
pub fn all(w: &dyn World) -> &'static [Golden] {
    ALL.get_or_init(|| {
        w.golden().split("end\n").filter(|t| !t.trim().is_empty()).map(|t| parse_one(t).expect("recording")).collect()
    })
}

/// Makes the recordings anew with the code as it is.
pub fn record(w: &dyn World) -> String {
    let mut out = String::new();
    for i in 0.. {
        let mut rng = Rng::new(0x601D ^ (i << 32));
        let Some(scn) = crate::gen::golden(w, i as usize, &mut rng) else { break };
        crate::HASH_SEED.with(|h| h.set(scn.hash_seed));
        w.reset();
        match crate::engine::Engine::new(w, &scn, false).record() {
            Ok(g) => {
                out.push_str(&scn.to_text());
                out.push_str("recorded\n");
                for (k, v) in &g.recs {
                    let _ = writeln!(out, "rec {} {}", hex(k), hex(v));
                }
                for (r, h, c) in &g.vers {
                    let items: Vec<String> = c.iter().map(|(k, v)| format!("{k}:{v}")).collect();
                    let _ = writeln!(out, "ver {} {h} {}", hex(r), items.join(","));
                }
                for (v, k, p) in &g.proofs {
                    let _ = write!(out, "proof {v} {k}");
                    for (h, b) in p {
                        let _ = write!(out, " {}:{}", hex(h), u8::from(*b));
                    }
                    out.push('\n');
                }
                out.push_str("end\n");
            }
            Err(e) => eprintln!("recording {i} failed: {e}"),
        }
        w.reset();
    }
    out
}
