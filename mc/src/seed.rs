//! Owns the hash seeds: `std` asks the C library's `getrandom` once per thread,
//! and this definition takes precedence over the library's.

use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(1);

pub fn set(seed: u64) {
    SEED.store(seed, Ordering::SeqCst);
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// # Safety
/// Called by the standard library with a buffer of `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.load(Ordering::SeqCst);
    for i in 0..len {
        if i % 8 == 0 {
            x = mix(x);
        }
        *buf.add(i) = (x >> (8 * (i % 8))) as u8;
    }
    len as isize
}
