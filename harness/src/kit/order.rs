//! Ownership of hash-map iteration order, the one scheduler this sequential code base has.
//! `std`'s RandomState takes its per-thread keys from getrandom(2); this binary interposes that
//! symbol, so keys are a function of a seed the harness picks: same seed, same iteration orders.
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x5eed) };
}

/// Interposed libc symbol. Every byte handed out is a pure function of the thread's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.try_with(|s| s.get()).unwrap_or(1);
    for i in 0..len {
        if i % 8 == 0 {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
        }
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        *buf.add(i) = (z >> (8 * (i % 8))) as u8;
    }
    len as isize
}

/// Run `f` on a fresh thread whose hash seeds derive from `seed` only.
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                SEED.with(|c| c.set(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xabcdef));
                f()
            })
            .unwrap();
        match h.join() {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

/// Self test: same seed twice gives the same order; the seeds reach every permutation of 3 keys.
pub fn self_check() -> Result<usize, String> {
    let order = |seed| {
        with_seed(seed, || {
            let m: std::collections::HashMap<u32, ()> = (0..3).map(|i| (i, ())).collect();
            m.into_keys().collect::<Vec<_>>()
        })
    };
    let mut seen = std::collections::BTreeSet::new();
    for s in 0..200 {
        let a = order(s);
        if a != order(s) {
            return Err("hash order is not controlled by the seed".into());
        }
        seen.insert(a);
    }
    if seen.len() < 6 {
        return Err(format!("only {} orders of 3 keys reached", seen.len()));
    }
    Ok(seen.len())
}
