//! Runs under valgrind: compares hash values whose bytes memcheck is told are undefined, and
//! prints how many branches or addresses depended on them. Lines on standard input:
//!   <alg b|s> <kind hh|hs> <which side is secret: 1 left, 2 right, 3 both> <offset> <hex> <hex>
//! The two hex strings have the same length. Output per line: <errors> <result>.

use blake2b_simd as b;
use blake2s_simd as s;
use std::hint::black_box;
use std::io::BufRead;

#[inline(never)]
fn request(code: u64, a: u64, n: u64) -> u64 {
    let args: [u64; 6] = [code, a, n, 0, 0, 0];
    let mut out = 0u64;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") &args,
            inout("rdx") out,
        );
    }
    out
}

fn hide(p: &[u8]) {
    request(0x4D43_0001, p.as_ptr() as u64, p.len() as u64);
}
fn reveal<T>(p: &T) {
    request(0x4D43_0002, p as *const T as u64, std::mem::size_of::<T>() as u64);
}
fn errors() -> u64 {
    request(0x1201, 0, 0)
}

fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
}

macro_rules! side {
    ($name:ident, $k:ident, $Hash:ty) => {
        mod $name {
            use super::*;

            /// A hash value with the given bytes: a digest of that length whose bytes are replaced.
            /// (Only the contents of the private array are written, through the pointer that
            /// as_bytes gives, in an object owned here.)
            fn make(bytes: &[u8]) -> Box<$Hash> {
                if bytes.len() == $k::OUTBYTES {
                    let a: [u8; $k::OUTBYTES] = bytes.try_into().unwrap();
                    return Box::new(a.into());
                }
                let h = black_box(Box::new($k::Params::new().hash_length(bytes.len()).hash(b"x")));
                unsafe {
                    let p = black_box(h.as_bytes().as_ptr() as *mut u8);
                    for (i, x) in bytes.iter().enumerate() {
                        p.add(i).write_volatile(*x);
                    }
                }
                black_box(h)
            }

            #[inline(never)]
            fn eq_hh(x: &$Hash, y: &$Hash) -> bool {
                x == y
            }
            #[inline(never)]
            fn eq_hs(x: &$Hash, y: &[u8]) -> bool {
                x == y
            }

            pub fn run(kind: &str, which: u8, off: usize, x: &[u8], y: &[u8]) -> (u64, bool) {
                let hx = make(x);
                let hy = make(y);
                let mut slice = vec![0u8; off];
                slice.extend_from_slice(y);
                let slice = black_box(slice);
                if which & 1 != 0 {
                    hide(black_box(&hx).as_bytes());
                }
                if which & 2 != 0 {
                    hide(black_box(&hy).as_bytes());
                    hide(&slice[off..]);
                }
                let before = errors();
                let r = match kind {
                    "hh" => black_box(eq_hh(black_box(&hx), black_box(&hy))),
                    _ => black_box(eq_hs(black_box(&hx), black_box(&slice[off..]))),
                };
                let r = black_box(Box::new(r));
                let n = errors() - before;
                reveal(&*r);
                (n, *black_box(&*r))
            }
        }
    };
}
side!(big, b, b::Hash);
side!(small, s, s::Hash);

fn main() {
    if request(0x1001, 0, 0) == 0 {
        println!("not under valgrind");
        std::process::exit(3);
    }
    // Does the instrument work at all? A branch on a hidden byte must be counted.
    let probe = black_box(vec![7u8; 16]);
    hide(&probe);
    let before = errors();
    if black_box(&probe)[black_box(3)] == 7 {
        black_box(1);
    } else {
        black_box(2);
        println!("impossible");
    }
    println!("probe {}", errors() - before);
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split(' ').collect();
        let (which, off) = (t[2].parse().unwrap(), t[3].parse().unwrap());
        let (x, y) = (unhex(t[4]), unhex(t[5]));
        let (n, r) = match t[0] {
            "b" => big::run(t[1], which, off, &x, &y),
            _ => small::run(t[1], which, off, &x, &y),
        };
        println!("{n} {r}");
    }
}
