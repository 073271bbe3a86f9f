//! Faults of the value codec (the `Encode`/`Decode` implementation of stored values).
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CodecCall {
    Encode,
    Decode,
}

#[derive(Default)]
struct State {
    armed: Vec<(bool, u64, u64)>,
    seen: [u64; 2],
    fired: [u64; 2],
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

/// Arms failures of the calls `nth .. nth + span` (counted from 0) and resets the counters.
pub fn arm(faults: &[(CodecCall, u64, u64)]) {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.armed = faults.iter().map(|&(c, n, k)| (c == CodecCall::Decode, n, k)).collect();
        s.seen = [0; 2];
        s.fired = [0; 2];
    });
}

pub fn disarm() {
    arm(&[]);
}

/// (encodes, decodes) seen and fired since `arm`.
pub fn counts() -> ([u64; 2], [u64; 2]) {
    STATE.with(|s| {
        let s = s.borrow();
        (s.seen, s.fired)
    })
}

/// Called by the value type: true if this call must fail.
pub fn fails(call: CodecCall) -> bool {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let i = usize::from(call == CodecCall::Decode);
        let n = s.seen[i];
        s.seen[i] += 1;
        let hit = s.armed.iter().any(|&(d, nth, span)| usize::from(d) == i && n >= nth && n - nth < span);
        if hit {
            s.fired[i] += 1;
        }
        hit
    })
}
