//! Control of the hash seeds of std's HashMap: std asks the operating system for them through
//! `getrandom`, once a thread; this executable answers that question itself.

use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.with(|s| s.get()).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1;
    ASKED.with(|a| a.set(a.get() + 1));
    for i in 0..len {
        // splitmix64
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        *buf.add(i) = (z >> 24) as u8;
    }
    len as isize
}

/// run `f` in a fresh thread whose hash maps are seeded with `seed`
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                SEED.with(|s| s.set(seed));
                crate::engine::guarded(f)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
    })
}

/// how often this thread's std asked for seeds
pub fn asked() -> u64 {
    ASKED.with(|a| a.get())
}

/// the order in which this thread iterates over a small set, as evidence of the control
pub fn probe_order(n: u32) -> Vec<u32> {
    let h: std::collections::HashSet<u32> = (0..n).collect();
    h.into_iter().collect()
}
