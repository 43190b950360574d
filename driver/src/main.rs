//! Runs cases (see case.rs) against the real crates through their public API, and prints what it
//! observed, one line per operation. It holds no expectations.

#[path = "../../pbt/src/case.rs"]
mod case;
#[cfg(all(target_os = "linux", not(miri), target_pointer_width = "64"))]
#[path = "../../pbt/src/bigbuf.rs"]
mod bigbuf;

#[cfg(feature = "alloc")]
mod alloc;
#[cfg(feature = "cov")]
mod cov;
#[cfg(feature = "memcheck")]
mod memcheck;

use blake2b_simd as b;
use blake2s_simd as s;
use case::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
enum P {
    B(b::Params),
    S(s::Params),
    Bp(b::blake2bp::Params),
    Sp(s::blake2sp::Params),
}
#[derive(Clone)]
enum St {
    B(b::State),
    S(s::State),
    Bp(b::blake2bp::State),
    Sp(s::blake2sp::State),
}
#[derive(Clone)]
enum J {
    B(b::many::HashManyJob<'static>),
    S(s::many::HashManyJob<'static>),
}
#[derive(Clone, Copy)]
enum H {
    B(b::Hash),
    S(s::Hash),
}

macro_rules! each {
    ($T:ident, $e:expr, $x:ident => $r:expr) => {
        match $e {
            $T::B($x) => $r,
            $T::S($x) => $r,
            $T::Bp($x) => $r,
            $T::Sp($x) => $r,
        }
    };
}
macro_rules! two {
    ($T:ident, $e:expr, $x:ident => $r:expr) => {
        match $e {
            $T::B($x) => $r,
            $T::S($x) => $r,
        }
    };
}

/// Runs a call of the library. Its allocations are counted.
#[cfg(feature = "alloc")]
use alloc::{lib, own};
#[cfg(feature = "cov")]
use cov::{lib, own};
#[cfg(not(any(feature = "alloc", feature = "cov")))]
#[inline(always)]
fn lib<R>(f: impl FnOnce() -> R) -> R {
    f()
}
/// Runs code of this program that the library calls.
#[cfg(not(any(feature = "alloc", feature = "cov")))]
#[inline(always)]
fn own<R>(f: impl FnOnce() -> R) -> R {
    f()
}

/// Input memory. Freed when the machine is dropped, after everything that borrows it.
struct Arena(Vec<Mem>);
enum Mem {
    Heap(*mut [u8]),
    #[cfg(feature = "guard")]
    Map(*mut u8, usize),
}
unsafe impl Send for Arena {}
unsafe impl Sync for Arena {}
impl Drop for Mem {
    fn drop(&mut self) {
        match *self {
            Mem::Heap(p) => unsafe { drop(Box::from_raw(p)) },
            #[cfg(feature = "guard")]
            Mem::Map(p, n) => unsafe {
                guard::munmap(p, n);
            },
        }
    }
}
#[cfg(feature = "guard")]
mod guard {
    extern "C" {
        pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
        pub fn munmap(addr: *mut u8, len: usize) -> i32;
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        self.0.clear();
    }
}
impl Arena {
    /// A secret (message or key) in an exact-size allocation; the data ends at its last byte.
    fn put(&mut self, d: &Data) -> &'static [u8] {
        let v = self.put_public(d);
        #[cfg(feature = "secret")]
        memcheck::hide(v);
        v
    }

    fn put_public(&mut self, d: &Data) -> &'static [u8] {
        #[cfg(all(target_os = "linux", not(miri), target_pointer_width = "64"))]
        if d.pat == PAT_BIG {
            return &bigbuf::big(d.seed as usize + d.len)[d.seed as usize..];
        }
        #[cfg(target_arch = "wasm32")]
        if d.pat == PAT_BIG {
            return self.put_long(d);
        }
        #[cfg(feature = "guard")]
        return self.put_guarded(d);
        #[cfg(not(feature = "guard"))]
        self.put_heap(d)
    }

    /// Read-only pages between inaccessible ones. The data ends, or begins, where its pages do.
    #[cfg(feature = "guard")]
    fn put_guarded(&mut self, d: &Data) -> &'static [u8] {
        const PAGE: usize = 4096;
        unsafe {
            let room = (d.len + PAGE - 1) / PAGE * PAGE;
            let all = room + 2 * PAGE;
            let map = guard::mmap(std::ptr::null_mut(), all, 0, 0x22, -1, 0);
            assert!(map as usize != usize::MAX);
            self.0.push(Mem::Map(map, all));
            let lead = if d.off % 4 == 3 { 0 } else { room - d.len };
            let at = map.add(PAGE + lead);
            if room > 0 {
                assert!(guard::mprotect(map.add(PAGE), room, 3) == 0);
                d.fill(std::slice::from_raw_parts_mut(at, d.len));
                assert!(guard::mprotect(map.add(PAGE), room, 1) == 0);
            }
            std::slice::from_raw_parts(at, d.len)
        }
    }

    #[cfg(not(feature = "guard"))]
    fn put_heap(&mut self, d: &Data) -> &'static [u8] {
        let off = d.off as usize;
        let mut v: Vec<u8> = Vec::with_capacity(off + d.len);
        v.resize(off + d.len, 0xA5);
        d.fill(&mut v[off..]);
        let raw: *mut [u8] = Box::into_raw(v.into_boxed_slice());
        self.0.push(Mem::Heap(raw));
        let all: &'static [u8] = unsafe { &*raw };
        &all[off..]
    }
    /// A piece of the long string of bigbuf.rs, in memory of its own
    #[cfg(target_arch = "wasm32")]
    fn put_long(&mut self, d: &Data) -> &'static [u8] {
        const PERIOD: usize = 4096 * 65521;
        let mut v: Vec<u8> = Vec::with_capacity(d.len);
        // the start may lie beyond what a pointer can express
        let mut at = (d.seed % PERIOD as u64) as usize;
        while v.len() < d.len {
            let i = at as u64 / 8;
            let word = ((i ^ (i << 29)).wrapping_mul(0x9E3779B97F4A7C15) ^ (i >> 7)).to_le_bytes();
            let k = (8 - at % 8).min(d.len - v.len());
            v.extend_from_slice(&word[at % 8..at % 8 + k]);
            at = (at + k) % PERIOD;
        }
        let raw: *mut [u8] = Box::into_raw(v.into_boxed_slice());
        self.0.push(Mem::Heap(raw));
        unsafe { &*raw }
    }
    fn truncate(&mut self, n: usize) {
        while self.0.len() > n {
            self.0.pop();
        }
    }
}

struct Machine {
    ps: Vec<P>,
    ss: Vec<Option<St>>,
    js: Vec<Option<J>>,
    hs: Vec<H>,
    arena: Arena,
}

/// An iterator that ends after `cut` items and would start again if polled further.
struct Unfused<I> {
    inner: I,
    cut: usize,
    seen: usize,
    ended: bool,
}
impl<I: Iterator> Iterator for Unfused<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.seen == self.cut && !self.ended {
            self.ended = true;
            return None;
        }
        self.seen += 1;
        self.inner.next()
    }
}

/// Hides the length of an iterator.
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

/// An iterator that panics after `left` items.
struct Panics<I> {
    inner: I,
    left: usize,
}
impl<I: Iterator> Iterator for Panics<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.left == 0 {
            panic!("the iterator panics");
        }
        self.left -= 1;
        self.inner.next()
    }
}

/// An iterator that is wrong about its length.
struct Lies<I>(I, usize);
impl<I: Iterator> Iterator for Lies<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, Some(self.1))
    }
}

/// An iterator that uses the library whenever it is asked for an item.
struct Nested<'a, I> {
    inner: I,
    turn: usize,
    want: &'a [String; 3],
    bad: &'a std::cell::Cell<usize>,
}
impl<'a, I: Iterator> Iterator for Nested<'a, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.turn += 1;
        if own(|| nested(self.turn % 3) != self.want[self.turn % 3]) {
            self.bad.set(self.turn);
        }
        self.inner.next()
    }
}

/// What it does with it
fn nested(turn: usize) -> String {
    match turn {
        0 => hex(b::blake2b(b"nested").as_bytes()) + &hex(s::blake2s(&[7; 70]).as_bytes()),
        1 => {
            let p = b::Params::new();
            let q = s::Params::new();
            let mut js: Vec<_> = (0..3).map(|i| b::many::HashManyJob::new(&p, &[9; 400][..i * 100])).collect();
            let mut ks: Vec<_> = (0..3).map(|i| s::many::HashManyJob::new(&q, &[9; 400][..i * 100])).collect();
            b::many::hash_many(js.iter_mut());
            s::many::hash_many(ks.iter_mut());
            let v: Vec<String> = js.iter().map(|j| hex(j.to_hash().as_bytes())).collect();
            let w: Vec<String> = ks.iter().map(|j| hex(j.to_hash().as_bytes())).collect();
            v.concat() + &w.concat()
        }
        _ => {
            let mut ss = [b::State::new(), b::State::new()];
            let mut ts = [s::State::new(), s::State::new()];
            b::many::update_many(ss.iter_mut().zip([&[1u8; 300][..], &[2; 5]]));
            s::many::update_many(ts.iter_mut().zip([&[1u8; 300][..], &[2; 5]]));
            let v: Vec<String> = ss.iter().map(|x| hex(x.finalize().as_bytes())).collect();
            let w: Vec<String> = ts.iter().map(|x| hex(x.finalize().as_bytes())).collect();
            v.concat() + &w.concat()
        }
    }
}

/// Uses a batch function with an iterator that does not behave, on objects that are thrown away:
/// whatever it does to them, it must stay within bounds, and nothing else may change.
macro_rules! unruly {
    ($f:path, $it:expr, $n:expr, $mode:expr) => {
        let _ = catch_unwind(AssertUnwindSafe(|| {
            if $mode == 8 {
                $f(Panics { inner: $it, left: $n * 2 / 3 })
            } else {
                $f(Lies($it, if $n % 2 == 0 { 1 } else { usize::MAX }))
            }
        }));
    };
}

fn params_new(alg: Alg, dflt: bool) -> P {
    match (alg, dflt) {
        (Alg::B, false) => P::B(b::Params::new()),
        (Alg::B, true) => P::B(b::Params::default()),
        (Alg::S, false) => P::S(s::Params::new()),
        (Alg::S, true) => P::S(s::Params::default()),
        (Alg::Bp, false) => P::Bp(b::blake2bp::Params::new()),
        (Alg::Bp, true) => P::Bp(b::blake2bp::Params::default()),
        (Alg::Sp, false) => P::Sp(s::blake2sp::Params::new()),
        (Alg::Sp, true) => P::Sp(s::blake2sp::Params::default()),
    }
}

fn apply(p: &mut P, st: &Setter, arena: &mut Arena) {
    macro_rules! serial {
        ($x:ident => $r:expr) => {
            match p {
                P::B($x) => lib(|| {
                    $r;
                }),
                P::S($x) => lib(|| {
                    $r;
                }),
                _ => unreachable!(),
            }
        };
    }
    match st {
        Setter::HashLength(n) => each!(P, p, x => { lib(|| { x.hash_length(*n); }) }),
        Setter::Key(d) => {
            let k = arena.put(d);
            each!(P, p, x => { lib(|| { x.key(k); }) })
        }
        Setter::Salt(d) => {
            let k = arena.put_public(d);
            serial!(x => x.salt(k))
        }
        Setter::Personal(d) => {
            let k = arena.put_public(d);
            serial!(x => x.personal(k))
        }
        Setter::Fanout(n) => serial!(x => x.fanout(*n)),
        Setter::MaxDepth(n) => serial!(x => x.max_depth(*n)),
        Setter::MaxLeaf(n) => serial!(x => x.max_leaf_length(*n)),
        Setter::NodeOffset(n) => serial!(x => x.node_offset(*n)),
        Setter::NodeDepth(n) => serial!(x => x.node_depth(*n)),
        Setter::InnerLen(n) => serial!(x => x.inner_hash_length(*n)),
        Setter::LastNode(v) => serial!(x => x.last_node(*v)),
        Setter::Portable => match p {
            P::B(x) => b::benchmarks::force_portable(x),
            P::S(x) => s::benchmarks::force_portable(x),
            P::Bp(x) => b::benchmarks::force_portable_blake2bp(x),
            P::Sp(x) => s::benchmarks::force_portable_blake2sp(x),
        },
        Setter::CloneSelf => *p = lib(|| p.clone()),
        Setter::Use => each!(P, p, x => {
            lib(|| {
                let mut t = x.to_state();
                t.update(b"x");
                std::hint::black_box((t.finalize().as_bytes()[0], x.hash(b"yy").as_bytes()[0]));
            })
        }),
    }
}

/// Returns one letter per setter: o it returned, x it panicked.
fn apply_all(p: &mut P, setters: &[Setter], arena: &mut Arena) -> String {
    let mut out = String::from("s ");
    for st in setters {
        let backup = p.clone();
        let mark = arena.0.len();
        let r = catch_unwind(AssertUnwindSafe(|| apply(p, st, arena)));
        arena.truncate(mark);
        match r {
            Ok(()) => out.push('o'),
            Err(_) => {
                *p = backup;
                out.push('x');
            }
        }
    }
    out
}

/// Takes any text and keeps none
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

fn fmtd<T: std::fmt::Debug>(x: &T, fmt: u8) -> String {
    if cfg!(feature = "alloc") {
        let _ = lib(|| if fmt % 2 == 0 { write!(Nowhere, "{:?}", x) } else { write!(Nowhere, "{:#?}", x) });
    }
    let form = || match fmt % 8 {
        0 => format!("{:?}", x),
        1 => format!("{:#?}", x),
        2 => format!("{:x?}", x),
        3 => format!("{:#x?}", x),
        4 => format!("{:X?}", x),
        5 => format!("{:+?}", x),
        6 => format!("{:09.7?}", x),
        _ => format!("{:^+#220.3?}", x),
    };
    // the string is allocated by us, which only some drivers care about
    let s = if cfg!(feature = "cov") { lib(form) } else { form() };
    format!("d {}", hex(s.as_bytes()))
}

#[cfg(feature = "std")]
fn write_loop(st: &mut St, mut d: &[u8]) -> Result<(), String> {
    loop {
        let n = each!(St, st, x => lib(|| x.write(d))).map_err(|e| format!("write error {e}"))?;
        if n > d.len() {
            return Err(format!("write returned {n} for {}", d.len()));
        }
        if d.is_empty() {
            return Ok(());
        }
        if n == 0 {
            return Err("write returned 0".into());
        }
        d = &d[n..];
        if d.is_empty() {
            return Ok(());
        }
    }
}

#[cfg(feature = "std")]
fn write_vec(st: &mut St, ds: &[&[u8]]) -> Result<(), String> {
    let mut rest: Vec<&[u8]> = ds.to_vec();
    loop {
        let total: usize = rest.iter().map(|r| r.len()).sum();
        let io: Vec<std::io::IoSlice> = rest.iter().map(|r| std::io::IoSlice::new(r)).collect();
        let mut n = each!(St, st, x => lib(|| x.write_vectored(&io))).map_err(|e| format!("write error {e}"))?;
        if n > total {
            return Err(format!("write_vectored returned {n} for {total}"));
        }
        if total == 0 {
            return Ok(());
        }
        if n == 0 {
            return Err("write_vectored returned 0".into());
        }
        let mut next = vec![];
        for r in rest {
            let k = n.min(r.len());
            n -= k;
            if k < r.len() {
                next.push(&r[k..]);
            }
        }
        rest = next;
        if rest.is_empty() {
            return Ok(());
        }
    }
}

impl Machine {
    fn new() -> Machine {
        Machine { ps: vec![], ss: vec![], js: vec![], hs: vec![], arena: Arena(vec![]) }
    }

    fn st(&mut self, i: usize) -> &mut St {
        self.ss[i].as_mut().unwrap()
    }

    /// Returns the turn of a nested use that went wrong.
    fn update_many(&mut self, pairs: &[(usize, Data)], mode: Mode) -> usize {
        if pairs.is_empty() {
            let none: Vec<(&mut b::State, &Vec<u8>)> = vec![];
            b::many::update_many(none);
            let none: Vec<(&mut s::State, &Vec<u8>)> = vec![];
            s::many::update_many(none);
            return 0;
        }
        let mark = self.arena.0.len();
        let inputs: Vec<&[u8]> = pairs.iter().map(|(_, d)| self.arena.put(d)).collect();
        let n = inputs.len();
        let bad = std::cell::Cell::new(0);
        macro_rules! go {
            ($V:path, $f:path, $T:ty) => {{
                let mut sts: Vec<$T> = vec![];
                for (i, _) in pairs {
                    match self.ss[*i].take().unwrap() {
                        $V(x) => sts.push(x),
                        _ => unreachable!(),
                    }
                }
                match mode {
                    2 => {
                        let (l, r) = sts.split_at_mut(n / 2);
                        lib(|| $f(l.iter_mut().zip(inputs[..n / 2].iter()).chain(r.iter_mut().zip(inputs[n / 2..].iter()))))
                    }
                    3 => {
                        let owned: Vec<Box<[u8]>> = inputs.iter().map(|i| Box::from(*i)).collect();
                        lib(|| $f(sts.iter_mut().zip(owned.iter())))
                    }
                    4 => lib(|| $f(NoHint(sts.iter_mut().zip(inputs.iter())))),
                    5 => {
                        let mut apart: Vec<Box<$T>> = sts.drain(..).rev().map(Box::new).collect();
                        lib(|| $f(apart.iter_mut().rev().map(|x| &mut **x).zip(inputs.iter())));
                        sts.extend(apart.into_iter().rev().map(|x| *x));
                    }
                    6 => {
                        let want = [nested(0), nested(1), nested(2)];
                        lib(|| $f(Nested { inner: sts.iter_mut().zip(inputs.iter()), turn: 0, want: &want, bad: &bad }))
                    }
                    7 => {
                        let mut it = sts.iter_mut().zip(inputs.iter());
                        lib(|| $f(&mut it))
                    }
                    8 | 9 => {
                        let mut tmp = sts.clone();
                        unruly!($f, tmp.iter_mut().zip(inputs.iter()), n, mode);
                        lib(|| $f(sts.iter_mut().zip(inputs.iter())))
                    }
                    1 => lib(|| $f(Unfused { inner: sts.iter_mut().zip(inputs.iter()), cut: n * 2 / 3, seen: 0, ended: false })),
                    _ => lib(|| $f(sts.iter_mut().zip(inputs.iter()))),
                }
                for ((i, _), x) in pairs.iter().zip(sts) {
                    self.ss[*i] = Some($V(x));
                }
            }};
        }
        match self.ss[pairs[0].0].as_ref().unwrap() {
            St::B(_) => go!(St::B, b::many::update_many, b::State),
            St::S(_) => go!(St::S, s::many::update_many, s::State),
            _ => unreachable!(),
        }
        self.arena.truncate(mark);
        bad.get()
    }

    fn run_jobs(&mut self, js: &[usize], mode: Mode) -> usize {
        if js.is_empty() {
            b::many::hash_many(Vec::<&mut b::many::HashManyJob>::new());
            s::many::hash_many(Vec::<&mut s::many::HashManyJob>::new());
            return 0;
        }
        let n = js.len();
        let bad = std::cell::Cell::new(0);
        macro_rules! go {
            ($V:path, $f:path) => {{
                let mut v = vec![];
                for i in js {
                    match self.js[*i].take().unwrap() {
                        $V(x) => v.push(x),
                        _ => unreachable!(),
                    }
                }
                match mode {
                    2 => {
                        let (l, r) = v.split_at_mut(n / 2);
                        lib(|| $f(l.iter_mut().chain(r.iter_mut())))
                    }
                    3 => lib(|| $f(&mut v)),
                    4 => lib(|| $f(NoHint(v.iter_mut()))),
                    5 => {
                        let mut apart: Vec<Box<_>> = v.drain(..).rev().map(Box::new).collect();
                        lib(|| $f(apart.iter_mut().rev().map(|x| &mut **x)));
                        v.extend(apart.into_iter().rev().map(|x| *x));
                    }
                    6 => {
                        let want = [nested(0), nested(1), nested(2)];
                        lib(|| $f(Nested { inner: v.iter_mut(), turn: 0, want: &want, bad: &bad }))
                    }
                    7 => {
                        let mut it = v.iter_mut();
                        lib(|| $f(&mut it))
                    }
                    8 | 9 => {
                        let mut tmp = v.clone();
                        unruly!($f, tmp.iter_mut(), n, mode);
                        lib(|| $f(v.iter_mut()))
                    }
                    1 => lib(|| $f(Unfused { inner: v.iter_mut(), cut: n * 2 / 3, seen: 0, ended: false })),
                    _ => lib(|| $f(v.iter_mut())),
                }
                for (i, x) in js.iter().zip(v) {
                    self.js[*i] = Some($V(x));
                }
            }};
        }
        match self.js[js[0]].as_ref().unwrap() {
            J::B(_) => go!(J::B, b::many::hash_many),
            J::S(_) => go!(J::S, s::many::hash_many),
        }
        bad.get()
    }

    fn step(&mut self, op: &Op) -> String {
        let mark = self.arena.0.len();
        let mut free = true;
        let dot = || ".".to_string();
        let wr = |r: Result<(), String>| match r {
            Ok(()) => ".".to_string(),
            Err(e) => format!("w {e}"),
        };
        let _ = &wr;
        let out = match op {
            Op::Params { alg, dflt, setters } => {
                let mut p = lib(|| params_new(*alg, *dflt));
                let o = apply_all(&mut p, setters, &mut self.arena);
                self.ps.push(p);
                o
            }
            Op::Set { p, setters } => {
                let mut q = lib(|| self.ps[*p].clone());
                let o = apply_all(&mut q, setters, &mut self.arena);
                self.ps[*p] = q;
                o
            }
            Op::Hash { p, d } => {
                let d = self.arena.put(d);
                format!("h {}", each!(P, &self.ps[*p], x => hex(lib(|| x.hash(d)).as_bytes())))
            }
            Op::Free { alg, d } => {
                let d = self.arena.put(d);
                #[cfg(feature = "sneves")]
                let h = match alg {
                    Alg::B => hex(&lib(|| blake2_avx2_sneves::blake2b(d))),
                    Alg::S => hex(lib(|| s::blake2s(d)).as_bytes()),
                    Alg::Bp => hex(&lib(|| blake2_avx2_sneves::blake2bp(d))),
                    Alg::Sp => hex(&lib(|| blake2_avx2_sneves::blake2sp(d))),
                };
                #[cfg(not(feature = "sneves"))]
                let h = match alg {
                    Alg::B => hex(lib(|| b::blake2b(d)).as_bytes()),
                    Alg::S => hex(lib(|| s::blake2s(d)).as_bytes()),
                    Alg::Bp => hex(lib(|| b::blake2bp::blake2bp(d)).as_bytes()),
                    Alg::Sp => hex(lib(|| s::blake2sp::blake2sp(d)).as_bytes()),
                };
                format!("h {h}")
            }
            Op::NewState { p } => {
                let st = lib(|| match &self.ps[*p] {
                    P::B(x) => St::B(x.to_state()),
                    P::S(x) => St::S(x.to_state()),
                    P::Bp(x) => St::Bp(x.to_state()),
                    P::Sp(x) => St::Sp(x.to_state()),
                });
                self.ss.push(Some(st));
                dot()
            }
            Op::DefState { alg, how } => {
                let st = lib(|| match (alg, how) {
                    (Alg::B, 0) => St::B(b::State::new()),
                    (Alg::B, _) => St::B(Default::default()),
                    (Alg::S, 0) => St::S(s::State::new()),
                    (Alg::S, _) => St::S(Default::default()),
                    (Alg::Bp, 0) => St::Bp(b::blake2bp::State::new()),
                    (Alg::Bp, _) => St::Bp(Default::default()),
                    (Alg::Sp, 0) => St::Sp(s::blake2sp::State::new()),
                    (Alg::Sp, _) => St::Sp(Default::default()),
                });
                self.ss.push(Some(st));
                dot()
            }
            Op::Update { s, d } => {
                let d = self.arena.put(d);
                each!(St, self.st(*s), x => { lib(|| { x.update(d); }) });
                dot()
            }
            #[cfg(feature = "std")]
            Op::Write { s, d } => {
                let d = self.arena.put(d);
                wr(write_loop(self.st(*s), d))
            }
            #[cfg(feature = "std")]
            Op::WriteAll { s, d } => {
                let d = self.arena.put(d);
                wr(each!(St, self.st(*s), x => lib(|| x.write_all(d))).map_err(|e| e.to_string()))
            }
            #[cfg(feature = "std")]
            Op::WriteVec { s, ds } => {
                let ds: Vec<&[u8]> = ds.iter().map(|d| self.arena.put(d)).collect();
                wr(write_vec(self.st(*s), &ds))
            }
            #[cfg(feature = "std")]
            Op::IoCopy { s, d } => {
                let mut d = self.arena.put(d);
                let want = d.len() as u64;
                match each!(St, self.st(*s), x => std::io::copy(&mut d, x)) {
                    Ok(n) if n == want => dot(),
                    Ok(n) => format!("w copied {n} of {want}"),
                    Err(e) => format!("w {e}"),
                }
            }
            #[cfg(feature = "std")]
            Op::WriteFmt { s, n } => {
                let st = self.st(*s);
                let mut r = Ok(());
                for i in 0..*n {
                    let t = fmt_piece(i);
                    if let Err(e) = each!(St, st, x => lib(|| write!(x, "{}{}", t, i))) {
                        r = Err(e.to_string());
                    }
                }
                wr(r)
            }
            #[cfg(feature = "std")]
            Op::Flush { s } => wr(each!(St, self.st(*s), x => lib(|| x.flush())).map_err(|e| e.to_string())),
            // without std there is no Write implementation
            #[cfg(not(feature = "std"))]
            Op::Write { s, d } | Op::WriteAll { s, d } | Op::IoCopy { s, d } => {
                let d = self.arena.put(d);
                each!(St, self.st(*s), x => { lib(|| { x.update(d); }) });
                dot()
            }
            #[cfg(not(feature = "std"))]
            Op::WriteVec { s, ds } => {
                for d in ds {
                    let d = self.arena.put(d);
                    each!(St, self.st(*s), x => { lib(|| { x.update(d); }) });
                }
                dot()
            }
            #[cfg(not(feature = "std"))]
            Op::WriteFmt { s, n } => {
                for i in 0..*n {
                    let t = format!("{}{}", fmt_piece(i), i);
                    each!(St, self.st(*s), x => { lib(|| { x.update(t.as_bytes()); }) });
                }
                dot()
            }
            #[cfg(not(feature = "std"))]
            Op::Flush { .. } => dot(),
            Op::Finalize { s } => format!("h {}", each!(St, self.st(*s), x => hex(lib(|| x.finalize()).as_bytes()))),
            Op::Count { s } => format!("c {}", each!(St, self.st(*s), x => lib(|| x.count()) as u128)),
            Op::CloneState { s } => {
                let c = lib(|| self.st(*s).clone());
                self.ss.push(Some(c));
                dot()
            }
            Op::CloneFrom { s, from } => {
                if s != from {
                    let src = self.ss[*from].take().unwrap();
                    lib(|| match (self.st(*s), &src) {
                        (St::B(x), St::B(y)) => x.clone_from(y),
                        (St::S(x), St::S(y)) => x.clone_from(y),
                        (St::Bp(x), St::Bp(y)) => x.clone_from(y),
                        (St::Sp(x), St::Sp(y)) => x.clone_from(y),
                        (x, y) => *x = y.clone(),
                    });
                    self.ss[*from] = Some(src);
                }
                dot()
            }
            Op::SetLast { s, b } => {
                lib(|| match self.st(*s) {
                    St::B(x) => {
                        x.set_last_node(*b);
                    }
                    St::S(x) => {
                        x.set_last_node(*b);
                    }
                    _ => unreachable!(),
                });
                dot()
            }
            Op::UpdMany { pairs, mode } => {
                match self.update_many(pairs, *mode) {
                    0 => dot(),
                    n => format!("nested use {n} went wrong"),
                }
            }
            Op::NewJob { p, d } => {
                free = false;
                let d = self.arena.put(d);
                let j = lib(|| match &self.ps[*p] {
                    P::B(x) => J::B(b::many::HashManyJob::new(x, d)),
                    P::S(x) => J::S(s::many::HashManyJob::new(x, d)),
                    _ => unreachable!(),
                });
                self.js.push(Some(j));
                dot()
            }
            Op::CloneJob { j } => {
                let c = lib(|| self.js[*j].clone());
                self.js.push(c);
                dot()
            }
            Op::RunJobs { js, mode } => {
                match self.run_jobs(js, *mode) {
                    0 => dot(),
                    n => format!("nested use {n} went wrong"),
                }
            }
            Op::JobHash { j } => {
                format!("h {}", two!(J, self.js[*j].as_ref().unwrap(), x => hex(lib(|| x.to_hash()).as_bytes())))
            }
            #[cfg(blake2_simd_verif)]
            Op::AddCount { s, n } => {
                match self.st(*s) {
                    St::B(x) => b::verif::advance_count(x, *n),
                    St::S(x) => s::verif::advance_count(x, *n as u64),
                    St::Bp(x) => b::verif::advance_count_blake2bp(x, *n),
                    St::Sp(x) => s::verif::advance_count_blake2sp(x, *n as u64),
                }
                dot()
            }
            #[cfg(blake2_simd_verif)]
            Op::AddCountJob { j, n } => {
                match self.js[*j].as_mut().unwrap() {
                    J::B(x) => b::verif::advance_count_job(x, *n),
                    J::S(x) => s::verif::advance_count_job(x, *n as u64),
                }
                dot()
            }
            #[cfg(not(blake2_simd_verif))]
            Op::AddCount { .. } | Op::AddCountJob { .. } => "nohook".into(),
            Op::DbgParams { p, fmt } => each!(P, &self.ps[*p], x => fmtd(x, *fmt)),
            Op::DbgState { s, fmt } => each!(St, self.st(*s), x => fmtd(x, *fmt)),
            Op::DbgJob { j, fmt } => two!(J, self.js[*j].as_ref().unwrap(), x => fmtd(x, *fmt)),
            Op::HashOf { s } => {
                let h = lib(|| match self.st(*s) {
                    St::B(x) => H::B(x.finalize()),
                    St::S(x) => H::S(x.finalize()),
                    St::Bp(x) => H::B(x.finalize()),
                    St::Sp(x) => H::S(x.finalize()),
                });
                self.hs.push(h);
                dot()
            }
            Op::HashFrom { alg, d, byref } => {
                let v = self.arena.put(d);
                let h = if alg.is_b() {
                    let a: [u8; b::OUTBYTES] = v.try_into().unwrap();
                    H::B(lib(|| if *byref { b::Hash::from(&a) } else { b::Hash::from(a) }))
                } else {
                    let a: [u8; s::OUTBYTES] = v.try_into().unwrap();
                    H::S(lib(|| if *byref { s::Hash::from(&a) } else { s::Hash::from(a) }))
                };
                self.hs.push(h);
                dot()
            }
            Op::HashView { h } => two!(H, &self.hs[*h], x => {
                let full = x.as_bytes().len() == x.as_ref().len() && x.as_bytes().len() == match self.hs[*h] { H::B(_) => b::OUTBYTES, H::S(_) => s::OUTBYTES };
                let y = *x;
                let z = lib(|| x.clone());
                format!("v {} {} {} {} {} {}", hex(x.as_bytes()), lib(|| x.to_hex()).as_str(), hex(AsRef::<[u8]>::as_ref(x)),
                    if full { hex(&x.as_array()[..]) } else { "-".into() }, hex(y.as_bytes()), hex(z.as_bytes()))
            }),
            Op::HashEq { h, g } => match (&self.hs[*h], &self.hs[*g]) {
                (H::B(x), H::B(y)) => {
                    let (k, l, m, n) = lib(|| (x == y, x != y, y == x, *x == *y.as_bytes()));
                    format!("e {k} {l} {m} {n}")
                },
                (H::S(x), H::S(y)) => {
                    let (k, l, m, n) = lib(|| (x == y, x != y, y == x, *x == *y.as_bytes()));
                    format!("e {k} {l} {m} {n}")
                },
                _ => unreachable!(),
            },
            Op::HashEqSlice { h, len, bits } => two!(H, &self.hs[*h], x => {
                let mut v = x.as_bytes().to_vec();
                v.resize(*len, 0);
                change(&mut v, bits);
                let (k, l) = lib(|| (*x == v[..], *x != v[..]));
                format!("e {k} {l}")
            }),
            Op::HashFlip { h, bits } => {
                let n = match self.hs[*h] {
                    H::B(x) => {
                        let mut a: [u8; b::OUTBYTES] = x.as_bytes().try_into().unwrap();
                        change(&mut a, bits);
                        H::B(a.into())
                    }
                    H::S(x) => {
                        let mut a: [u8; s::OUTBYTES] = x.as_bytes().try_into().unwrap();
                        change(&mut a, bits);
                        H::S((&a).into())
                    }
                };
                self.hs.push(n);
                dot()
            }
            Op::Misuse { kind: 2, slot } => {
                let r = catch_unwind(AssertUnwindSafe(|| two!(J, self.js[*slot].as_ref().unwrap(), x => hex(x.to_hash().as_bytes()))));
                match r {
                    Ok(h) => format!("m h {h}"),
                    Err(_) => "m panic".into(),
                }
            }
            Op::Misuse { kind, slot } => {
                // must panic with debug assertions, and must not without
                let r = catch_unwind(AssertUnwindSafe(|| match kind {
                    0 => two!(J, self.js[*slot].as_ref().unwrap(), x => x.to_hash().as_bytes()[0]),
                    _ => two!(H, &self.hs[*slot], x => x.as_array()[0]),
                }));
                match (r.is_err(), cfg!(debug_assertions)) {
                    (true, true) | (false, false) => "m panic".into(),
                    (true, false) => "m panic without debug assertions".into(),
                    (false, true) => "m no panic".into(),
                }
            }
            Op::Degree { alg } => match alg {
                Alg::B | Alg::Bp => format!("g {} {}", b::many::degree(), b::many::MAX_DEGREE),
                _ => format!("g {} {}", s::many::degree(), s::many::MAX_DEGREE),
            },
            Op::Hop | Op::Repeat { .. } => dot(),
            Op::Fan { n, d } => {
                let data = self.arena.put(d);
                let me = &*self;
                let start = std::sync::Barrier::new(*n);
                let outs: Vec<Vec<String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*n)
                        .map(|_| {
                            let start = &start;
                            sc.spawn(move || {
                                start.wait();
                                let mut seen: Vec<String> = vec![];
                                for _ in 0..if cfg!(miri) { 1 } else { 10 } {
                                    let o = me.look(data);
                                    if !seen.contains(&o) {
                                        seen.push(o);
                                    }
                                }
                                seen
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or(vec!["panic".into()])).collect()
                });
                let mut all: Vec<String> = outs.into_iter().flatten().collect();
                all.sort();
                all.dedup();
                all.join(" / ")
            }
        };
        if free {
            self.arena.truncate(mark);
        }
        out
    }

    /// Everything that can be asked through shared references
    fn look(&self, data: &[u8]) -> String {
        let mut out = String::from("f");
        for p in &self.ps {
            let h = each!(P, p, x => hex(x.hash(data).as_bytes()));
            out.push(' ');
            out.push_str(&h);
        }
        for s in &self.ss {
            let r = each!(St, s.as_ref().unwrap(), x => format!(" {} {}", hex(x.finalize().as_bytes()), x.count()));
            out.push_str(&r);
        }
        out
    }

    /// Runs the operations; a Hop continues on a new thread. An unexpected panic ends the history.
    fn run(mut self, ops: &[Op]) -> String {
        let mut out = String::new();
        for (i, op) in ops.iter().enumerate() {
            if *op == Op::Hop {
                out.push_str(".\n");
                let rest = ops[i + 1..].to_vec();
                let r = std::thread::spawn(move || self.run(&rest)).join().unwrap();
                out.push_str(&r);
                return out;
            }
            #[cfg(feature = "memcheck")]
            let before = memcheck::errors();
            let r = catch_unwind(AssertUnwindSafe(|| self.step(op)));
            #[cfg(feature = "memcheck")]
            if memcheck::errors() != before {
                let n = memcheck::errors() - before;
                let _ = if cfg!(feature = "secret") {
                    writeln!(out, "secret: {n} branches or addresses depend on key or message bytes")
                } else {
                    writeln!(out, "memcheck: {n} invalid accesses or uses of uninitialized bytes")
                };
                return out;
            }
            #[cfg(feature = "alloc")]
            if let Some(n) = alloc::found() {
                let _ = writeln!(out, "alloc: the library allocated heap memory ({n} times)");
                return out;
            }
            match r {
                Ok(s) => {
                    out.push_str(&s);
                    out.push('\n');
                }
                Err(_) => {
                    let m = LAST.with(|l| l.borrow().clone());
                    let _ = writeln!(out, "panic {}", m.replace('\n', " "));
                    return out;
                }
            }
        }
        out
    }
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

/// One history on the current thread
fn run_history(t: &[Op]) -> String {
    let n = match t.first() {
        Some(Op::Repeat { n }) => *n,
        _ => 1,
    };
    let first = Machine::new().run(t);
    for _ in 1..n {
        let again = Machine::new().run(t);
        if again != first {
            // whichever is wrong, one of them differs from the model
            return format!("{first}again\n{again}");
        }
    }
    first
}

/// The stack that a history gets in the memory check. It includes the frames of this program.
#[cfg(feature = "alloc")]
const STACK: usize = if cfg!(debug_assertions) { 4 << 20 } else { 128 << 10 };

fn run_case(c: &Case) -> String {
    #[cfg(feature = "alloc")]
    if c.threads.len() == 1 {
        // little stack
        return std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || run_history(&c.threads[0])).unwrap().join().unwrap()
        });
    }
    if c.threads.len() == 1 {
        return run_history(&c.threads[0]);
    }
    let barrier = std::sync::Barrier::new(c.threads.len());
    let outs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .map(|t| {
                let barrier = &barrier;
                sc.spawn(move || {
                    barrier.wait();
                    run_history(t)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    outs.join("thread\n")
}

/// The bytes in hex. They are results, which are public.
fn hex(b: &[u8]) -> String {
    #[cfg(feature = "secret")]
    let b = &memcheck::reveal(b.to_vec());
    case::hex(b)
}

/// Says nothing of the library: a case may be about its first use.
fn hello() -> String {
    format!(
        "ready std={} hook={} debug={} width={} little={}",
        cfg!(feature = "std") as u8,
        cfg!(blake2_simd_verif) as u8,
        cfg!(debug_assertions) as u8,
        std::mem::size_of::<usize>() * 8,
        cfg!(target_endian = "little") as u8,
    )
}

fn note_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST.with(|l| *l.borrow_mut() = msg);
    }));
}

/// What wasm/host.js calls
#[cfg(target_arch = "wasm32")]
mod host {
    static mut IN: Vec<u8> = Vec::new();
    static mut OUT: String = String::new();
    #[no_mangle]
    extern "C" fn start() {
        super::note_panics();
        unsafe { *(&raw mut OUT) = super::hello() }
    }
    #[no_mangle]
    extern "C" fn room(n: usize) -> *mut u8 {
        unsafe {
            *(&raw mut IN) = vec![0; n];
            (&mut *(&raw mut IN)).as_mut_ptr()
        }
    }
    #[no_mangle]
    extern "C" fn run() {
        let text = unsafe { String::from_utf8((&*(&raw const IN)).clone()).unwrap() };
        let o = super::run_case(&super::Case::parse(&text));
        unsafe { *(&raw mut OUT) = o }
    }
    #[no_mangle]
    extern "C" fn answer() -> *const u8 {
        unsafe { (&*(&raw const OUT)).as_ptr() }
    }
    #[no_mangle]
    extern "C" fn answer_len() -> usize {
        unsafe { (&*(&raw const OUT)).len() }
    }
}

fn main() {
    #[cfg(feature = "memcheck")]
    memcheck::probe();
    #[cfg(feature = "alloc")]
    alloc::probe();
    #[cfg(feature = "cov")]
    cov::probe();
    note_panics();
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        // replay a file (cases separated by lines "case")
        let text = std::fs::read_to_string(&args[1]).unwrap();
        for c in text.split("case\n") {
            print!("{}", run_case(&Case::parse(c)));
            println!("end");
        }
        return;
    }
    let stdin = std::io::stdin();
    let mut stdin = stdin.lock();
    let stdout = std::io::stdout();
    let mut stdout = stdout.lock();
    // says nothing of the library: a case may be about its first use
    let hello = hello();
    let send = |o: &mut std::io::StdoutLock, s: &str| {
        o.write_all(&(s.len() as u32).to_le_bytes()).unwrap();
        o.write_all(s.as_bytes()).unwrap();
        o.flush().unwrap();
    };
    send(&mut stdout, &hello);
    loop {
        let mut n = [0u8; 4];
        if stdin.read_exact(&mut n).is_err() {
            return;
        }
        let mut buf = vec![0u8; u32::from_le_bytes(n) as usize];
        stdin.read_exact(&mut buf).unwrap();
        let c = Case::parse(std::str::from_utf8(&buf).unwrap());
        let o = run_case(&c);
        #[cfg(feature = "cov")]
        let o = o + &cov::report();
        send(&mut stdout, &o);
    }
}
