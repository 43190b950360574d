//! What a case reached in the library: the callbacks of LLVM's coverage instrumentation, and the
//! features made of them. Only calls of the library count. Functions whose names begin with
//! `__sanitizer_` are not instrumented themselves.

const EDGES: usize = 1 << 16;
const SITES: usize = 1 << 12;
const CMPS: usize = SITES * 128;
/// features of several comparisons at once begin here
const TOGETHER: u32 = 1 << 21;

// Cases that are guided have one thread.
static mut ON: bool = false;
static mut GUARDS: u32 = 0;
static mut HITS: [u32; EDGES] = [0; EDGES];
static mut CMP: [u8; CMPS] = [0; CMPS];
/// features of comparisons seen in this case and not before it
static mut FRESH: [u32; 4096] = [0; 4096];
static mut FRESH_LEN: usize = 0;
/// constants that something was compared with
static mut CONSTS: [u64; 512] = [0; 512];
static mut CONSTS_LEN: usize = 0;
static mut CONSTS_SENT: usize = 0;
/// By site: whether this case came to the comparison (1), found its operands equal (2), and
/// compared with a constant (4); and in how many cases each of the first two happened
static mut NOW: [u8; SITES] = [0; SITES];
static mut CAME: [u32; SITES] = [0; SITES];
static mut EQUAL: [u32; SITES] = [0; SITES];
/// the sites of this case, the first operands there, and where it is
static mut TOUCHED: [(u16, u64, u64, u64); SITES] = [(0, 0, 0, 0); SITES];
static mut TOUCHED_LEN: usize = 0;
/// bits of the counts reported so far, by edge
static mut SENT: [u16; EDGES] = [0; EDGES];

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ON {
        let p = (&raw mut HITS as *mut u32).add(*g as usize % EDGES);
        *p = (*p).wrapping_add(1);
    }
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_note_cmp(a: u64, b: u64, pc: u64) {
    if !ON {
        return;
    }
    let here = &raw const ON as u64;
    let site = (pc.wrapping_sub(here).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52) as usize % SITES;
    let now = (&raw mut NOW as *mut u8).add(site);
    if *now & 3 == 0 && TOUCHED_LEN < SITES {
        *(&raw mut TOUCHED as *mut (u16, u64, u64, u64)).add(TOUCHED_LEN) = (site as u16, a, b, pc);
        TOUCHED_LEN += 1;
    }
    *now |= if a == b { 3 } else { 1 };
    let d = if a > b { a - b } else { b - a };
    let put = |k: usize| {
        let i = site * 128 + k;
        let p = (&raw mut CMP as *mut u8).add(i);
        if *p == 0 {
            *p = 1;
            if FRESH_LEN < 4096 {
                *(&raw mut FRESH as *mut u32).add(FRESH_LEN) = i as u32;
                FRESH_LEN += 1;
            }
        }
    };
    put((a ^ b).count_ones() as usize % 64);
    put(64 + d.leading_zeros() as usize % 64);
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_note_const(a: u64, b: u64, pc: u64) {
    if !ON {
        return;
    }
    let p = &raw mut CONSTS as *mut u64;
    let mut i = 0;
    while i < CONSTS_LEN && *p.add(i) != a {
        i += 1;
    }
    if i == CONSTS_LEN && i < 512 {
        *p.add(i) = a;
        CONSTS_LEN += 1;
    }
    let here = &raw const ON as u64;
    let site = (pc.wrapping_sub(here).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52) as usize % SITES;
    *(&raw mut NOW as *mut u8).add(site) |= 4;
    __sanitizer_cov_note_cmp(a, b, pc);
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_note_switch(v: u64, cases: *const u64, pc: u64) {
    if !ON {
        return;
    }
    let n = *cases as usize;
    let mut i = 0;
    while i < n {
        __sanitizer_cov_note_const(*cases.add(2 + i), v, pc.wrapping_add(i as u64));
        i += 1;
    }
}

// The call site is the return address.
macro_rules! site {
    ($($name:ident $to:ident $a:literal $b:literal;)*) => {
        $(#[unsafe(naked)]
        #[no_mangle]
        unsafe extern "C" fn $name() {
            core::arch::naked_asm!($a, $b, "mov rdx, [rsp]", "jmp {}", sym $to)
        })*
    };
}
site! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_note_cmp "movzx edi, dil" "movzx esi, sil";
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_note_cmp "movzx edi, di" "movzx esi, si";
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_note_cmp "mov edi, edi" "mov esi, esi";
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_note_cmp "nop" "nop";
    __sanitizer_cov_trace_const_cmp1 __sanitizer_cov_note_const "movzx edi, dil" "movzx esi, sil";
    __sanitizer_cov_trace_const_cmp2 __sanitizer_cov_note_const "movzx edi, di" "movzx esi, si";
    __sanitizer_cov_trace_const_cmp4 __sanitizer_cov_note_const "mov edi, edi" "mov esi, esi";
    __sanitizer_cov_trace_const_cmp8 __sanitizer_cov_note_const "nop" "nop";
    __sanitizer_cov_trace_switch __sanitizer_cov_note_switch "nop" "nop";
}

struct Back(bool);
impl Drop for Back {
    fn drop(&mut self) {
        unsafe { ON = self.0 }
    }
}
fn with<R>(on: bool, f: impl FnOnce() -> R) -> R {
    let _back = Back(unsafe { ON });
    unsafe { ON = on }
    f()
}
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    with(true, f)
}
pub fn own<R>(f: impl FnOnce() -> R) -> R {
    with(false, f)
}

/// Comparisons close to each other in the code that hardly ever find their operands equal and did
/// now, by twos and threes: a condition made of several need not have a branch for each.
unsafe fn together() -> Vec<u32> {
    let mut at = vec![];
    for i in 0..TOUCHED_LEN {
        let (site, _, _, pc) = *(&raw const TOUCHED as *const (u16, u64, u64, u64)).add(i);
        if NOW[site as usize] & 2 != 0 && EQUAL[site as usize] * 64 <= CAME[site as usize] {
            at.push(pc);
        }
    }
    at.sort();
    at.truncate(16);
    let mut out = vec![];
    let mut put = |v: &[u64]| {
        let here = &raw const ON as u64;
        let h = v.iter().fold(v.len() as u64, |h, x| (h ^ x.wrapping_sub(here)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29));
        out.push((h >> 20) as u32 % (1 << 20));
    };
    for i in 0..at.len() {
        for j in i + 1..at.len() {
            if at[j] - at[i] < 1024 {
                put(&[at[i], at[j]]);
                for k in j + 1..at.len() {
                    if at[k] - at[i] < 1024 {
                        put(&[at[i], at[j], at[k]]);
                    }
                }
            }
        }
    }
    out
}

/// What was reached since the last report and never before by this process, as a line.
pub fn report() -> String {
    let mut s = String::from("cov");
    unsafe {
        let (hits, sent) = (&raw mut HITS as *mut u32, &raw mut SENT as *mut u16);
        for i in 0..EDGES.min(GUARDS as usize + 1) {
            let n = *hits.add(i);
            if n == 0 {
                continue;
            }
            *hits.add(i) = 0;
            let k = match n {
                1..=3 => n - 1,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                128..=1023 => 7,
                _ => 8,
            };
            if *sent.add(i) >> k & 1 == 0 {
                *sent.add(i) |= 1 << k;
                s.push_str(&format!(" {:x}", i * 16 + k as usize));
            }
        }
        for i in 0..FRESH_LEN {
            s.push_str(&format!(" {:x}", EDGES * 16 + *(&raw const FRESH as *const u32).add(i) as usize));
        }
        FRESH_LEN = 0;
        for x in together() {
            s.push_str(&format!(" {:x}", TOGETHER + x));
        }
        s.push_str(" :");
        for i in CONSTS_SENT..CONSTS_LEN {
            s.push_str(&format!(" {:x}", *(&raw const CONSTS as *const u64).add(i)));
        }
        CONSTS_SENT = CONSTS_LEN;
        s.push_str(" :");
        // comparisons that hardly ever find their operands equal, and did not now
        for i in 0..TOUCHED_LEN {
            let (site, a, b, _) = *(&raw const TOUCHED as *const (u16, u64, u64, u64)).add(i);
            let site = site as usize;
            CAME[site] += 1;
            EQUAL[site] += (NOW[site] >> 1 & 1) as u32;
            if NOW[site] & 2 == 0 && EQUAL[site] * 64 <= CAME[site] {
                s.push_str(&format!(" {a:x}={b:x}"));
                if NOW[site] & 4 == 0 {
                    s.push_str(&format!(" {b:x}={a:x}"));
                }
            }
            NOW[site] = 0;
        }
        TOUCHED_LEN = 0;
    }
    s.push('\n');
    s
}

/// Is the library instrumented?
pub fn probe() {
    let h = lib(|| blake2b_simd::blake2b(std::hint::black_box(b"x")));
    std::hint::black_box(h);
    if report().len() < 16 {
        eprintln!("the library is not instrumented");
        std::process::exit(3);
    }
    // it has been told of now
    unsafe {
        SENT = [0; EDGES];
        CMP = [0; CMPS];
        CONSTS_SENT = 0;
    }
}
