//! Requests to memcheck: bytes marked as undefined are secret, and it counts the branches and
//! addresses that depend on them.

use std::hint::black_box;

#[inline(never)]
fn request(code: u64, a: u64, n: u64) -> u64 {
    let args: [u64; 6] = [code, a, n, 0, 0, 0];
    let mut out = 0u64;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") &args,
            inout("rdx") out,
        );
    }
    out
}

pub fn hide(p: &[u8]) {
    request(0x4D43_0001, p.as_ptr() as u64, p.len() as u64);
}
pub fn reveal(p: Vec<u8>) -> Vec<u8> {
    let p = black_box(p);
    request(0x4D43_0002, p.as_ptr() as u64, p.len() as u64);
    p
}
pub fn errors() -> u64 {
    request(0x1201, 0, 0)
}

/// Does the instrument work at all? A branch on a hidden byte must be counted.
pub fn probe() {
    if request(0x1001, 0, 0) == 0 {
        eprintln!("not under valgrind");
        std::process::exit(3);
    }
    let bytes = black_box(vec![7u8; 16]);
    hide(&bytes);
    let before = errors();
    if black_box(&bytes)[black_box(3)] == 7 {
        black_box(1);
    } else {
        black_box(2);
        println!("impossible");
    }
    if errors() == before {
        eprintln!("memcheck does not count");
        std::process::exit(3);
    }
}
