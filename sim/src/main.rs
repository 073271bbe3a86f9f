mod adapter;
mod simdb;

/// Seeds of `std::collections::HashMap` come from the simulation's seed instead of the operating system.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < len {
        let r = simcore::HASH_SEED.with(|s| {
            let mut x = s.get();
            let r = simcore::splitmix(&mut x);
            s.set(x);
            r
        });
        for b in r.to_le_bytes() {
            if i < len {
                unsafe { *buf.add(i) = b };
                i += 1;
            }
        }
    }
    len as isize
}

static WORLD: adapter::Starling = adapter::Starling;

fn main() {
    simcore::cli::main(&WORLD)
}
