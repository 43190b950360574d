//! A very long byte string that costs little memory: a 268 MB pattern file in memory, mapped
//! again and again into one contiguous range. Its period is a prime number of pages, so it does
//! not divide any power of two, and an offset truncated to 32 bits reads different bytes.
#![allow(dead_code)]
use std::sync::OnceLock;

pub const PERIOD: usize = 4096 * 65521;
pub const MAX: usize = 40 << 30;

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// The first `len` bytes of the long string.
pub fn big(len: usize) -> &'static [u8] {
    static BASE: OnceLock<usize> = OnceLock::new();
    assert!(len <= MAX);
    let base = *BASE.get_or_init(|| unsafe {
        let fd = memfd_create(b"big\0".as_ptr(), 0);
        assert!(fd >= 0);
        assert!(ftruncate(fd, PERIOD as i64) == 0);
        let bad = usize::MAX as *mut u8;
        let w = mmap(std::ptr::null_mut(), PERIOD, 3, 1, fd, 0);
        assert!(w != bad);
        let words = std::slice::from_raw_parts_mut(w as *mut u64, PERIOD / 8);
        for (i, x) in words.iter_mut().enumerate() {
            let i = i as u64;
            *x = (i ^ (i << 29)).wrapping_mul(0x9E3779B97F4A7C15) ^ (i >> 7);
        }
        // PROT_NONE reservation, then read-only shared mappings over it
        let base = mmap(std::ptr::null_mut(), MAX + PERIOD, 0, 0x22 | 0x4000, -1, 0);
        assert!(base != bad);
        let mut o = 0;
        while o < MAX {
            let p = mmap(base.add(o), PERIOD, 1, 1 | 0x10, fd, 0);
            assert!(p == base.add(o));
            o += PERIOD;
        }
        base as usize
    });
    unsafe { std::slice::from_raw_parts(base as *const u8, len) }
}
