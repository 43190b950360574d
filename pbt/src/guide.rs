//! Guidance by coverage. Cases that made an instrumented driver report something new are kept, and
//! changed into further cases: values are replaced (also by constants that the library compares
//! something with), operations removed, doubled, swapped, moved over from other cases. What comes
//! out is a legal history, or it is not used.

use crate::case::*;
use proptest::strategy::ValueTree;
use std::collections::{BTreeSet, HashSet, VecDeque};
use std::sync::Arc;

/// What one worker has learned
#[derive(Default)]
pub struct Pool {
    /// with pairs of values that were compared and should be made equal
    cases: Vec<(Case, Vec<(u64, u64)>)>,
    /// cases made for such pairs
    queue: VecDeque<Case>,
    seen: HashSet<(usize, u32)>,
    /// constants of comparisons
    dict: BTreeSet<u64>,
    /// constants in the machine code: comparisons of 128 bits, for one, are not instrumented
    code: Arc<Vec<u64>>,
}

/// The immediate operands in the library's functions, as far as a disassembler is there
pub fn constants(exe: &std::ffi::OsStr, out: &mut BTreeSet<u64>) {
    let text = match std::process::Command::new("objdump").args(["-d", "--no-show-raw-insn", "-C"]).arg(exe).output() {
        Ok(o) if o.status.success() => o.stdout,
        _ => return,
    };
    let mut on = false;
    for l in String::from_utf8_lossy(&text).lines() {
        if l.ends_with(">:") {
            let name = l.split_once('<').map_or("", |x| x.1);
            on = (name.starts_with("blake2") || name.contains("blake2b_simd") || name.contains("blake2s_simd"))
                && !name.contains("drop_glue")
                && !name.starts_with("driver::");
        } else if on {
            // "  addr:\tinstruction $0x123,operand"
            let Some((name, rest)) = l.split('\t').nth(1).and_then(|x| x.trim().split_once(' ')) else { continue };
            let Some((value, to)) = rest.trim().strip_prefix("$0x").and_then(|x| x.split_once(',')) else { continue };
            let wanted = name.starts_with("cmp") || name.starts_with("xor") || (name.starts_with("mov") && !to.contains('('));
            if let (true, Ok(x)) = (wanted, u64::from_str_radix(value, 16)) {
                // small ones are everywhere, and rather offsets
                if x > 8 && out.len() < 2000 {
                    out.insert(x);
                }
            }
        }
    }
}

/// What a case reached for the first time
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum News {
    None,
    /// only another distance between two compared values
    Distance,
    /// an edge, another magnitude of its count, or two equal values
    Edge,
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

/// Limits on what becomes of a case
const BYTES: usize = 1 << 18;
const OPS: usize = 120;
const MAX_LEN: usize = 1 << 16;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Slot {
    P,
    S,
    J,
    H,
}

/// Marks a reference to something that is no more
const GONE: usize = usize::MAX;

fn creates(o: &Op) -> Option<Slot> {
    match o {
        Op::Params { .. } => Some(Slot::P),
        Op::NewState { .. } | Op::DefState { .. } | Op::CloneState { .. } => Some(Slot::S),
        Op::NewJob { .. } | Op::CloneJob { .. } => Some(Slot::J),
        Op::HashOf { .. } | Op::HashFrom { .. } | Op::HashFlip { .. } => Some(Slot::H),
        _ => None,
    }
}

fn refs(o: &mut Op, f: &mut dyn FnMut(Slot, &mut usize)) {
    match o {
        Op::Set { p, .. } | Op::Hash { p, .. } | Op::NewState { p } | Op::NewJob { p, .. } | Op::DbgParams { p, .. } => f(Slot::P, p),
        Op::Update { s, .. }
        | Op::Write { s, .. }
        | Op::WriteAll { s, .. }
        | Op::WriteVec { s, .. }
        | Op::IoCopy { s, .. }
        | Op::WriteFmt { s, .. }
        | Op::Flush { s }
        | Op::Finalize { s }
        | Op::Count { s }
        | Op::CloneState { s }
        | Op::SetLast { s, .. }
        | Op::AddCount { s, .. }
        | Op::DbgState { s, .. }
        | Op::HashOf { s } => f(Slot::S, s),
        Op::CloneFrom { s, from } => {
            f(Slot::S, s);
            f(Slot::S, from);
        }
        Op::UpdMany { pairs, .. } => pairs.iter_mut().for_each(|(s, _)| f(Slot::S, s)),
        Op::CloneJob { j } | Op::JobHash { j } | Op::AddCountJob { j, .. } | Op::DbgJob { j, .. } => f(Slot::J, j),
        Op::RunJobs { js, .. } => js.iter_mut().for_each(|j| f(Slot::J, j)),
        Op::HashView { h } | Op::HashEqSlice { h, .. } | Op::HashFlip { h, .. } => f(Slot::H, h),
        Op::HashEq { h, g } => {
            f(Slot::H, h);
            f(Slot::H, g);
        }
        Op::Params { .. } | Op::Free { .. } | Op::DefState { .. } | Op::HashFrom { .. } | Op::Misuse { .. } | Op::Degree { .. } | Op::Hop | Op::Repeat { .. } | Op::Fan { .. } => {}
    }
}

/// Drops references to what is gone; false if nothing is left of the operation.
fn prune(o: &mut Op) -> bool {
    match o {
        Op::UpdMany { pairs, .. } => pairs.retain(|x| x.0 != GONE),
        Op::RunJobs { js, .. } => js.retain(|x| *x != GONE),
        _ => {}
    }
    let mut whole = true;
    refs(o, &mut |_, i| whole &= *i != GONE);
    whole
}

/// The history without operation `i`, and without what needs the object it creates
fn without(ops: &[Op], i: usize) -> Vec<Op> {
    let mut out = vec![];
    let mut n = [0usize; 4];
    let mut gone: [Vec<usize>; 4] = Default::default();
    for (k, o) in ops.iter().enumerate() {
        let mut o = o.clone();
        refs(&mut o, &mut |kind, i| {
            let g = &gone[kind as usize];
            *i = if g.contains(i) { GONE } else { *i - g.iter().filter(|x| *x < i).count() };
        });
        let keep = k != i && prune(&mut o);
        if let Some(kind) = creates(&o) {
            if !keep {
                gone[kind as usize].push(n[kind as usize]);
            }
            n[kind as usize] += 1;
        }
        if keep {
            out.push(o);
        }
    }
    out
}

fn counts(ops: &[Op]) -> [usize; 4] {
    let mut n = [0; 4];
    for k in ops.iter().filter_map(creates) {
        n[k as usize] += 1;
    }
    n
}

/// Puts an operation, whose references count from zero over what exists there, at place `at`.
fn insert(ops: &mut Vec<Op>, at: usize, o: Op) {
    if let Some(kind) = creates(&o) {
        let n = counts(&ops[..at])[kind as usize];
        for x in &mut ops[at..] {
            refs(x, &mut |k, i| {
                if k == kind && *i >= n {
                    *i += 1
                }
            });
        }
    }
    ops.insert(at, o);
}

/// Is this a history that the generators could have made? All that is not certain is refused.
pub fn valid(ops: &[Op]) -> bool {
    #[derive(Clone, Copy)]
    struct P {
        alg: Alg,
        keyed: bool,
        len: usize,
    }
    #[derive(Clone, Copy)]
    struct S {
        alg: Alg,
        fed: usize,
        added: bool,
        len: usize,
    }
    #[derive(Clone, Copy)]
    struct J {
        alg: Alg,
        keyed: bool,
        run: bool,
        added: bool,
    }
    let (mut ps, mut ss, mut js, mut hs): (Vec<P>, Vec<S>, Vec<J>, Vec<(bool, usize)>) = Default::default();
    let mut bytes = 0usize;
    fn track(p: &mut P, v: &[Setter]) -> bool {
        for s in v {
            if !s.exists_for(p.alg) {
                return false;
            }
            if s.legal(p.alg) {
                match s {
                    Setter::Key(d) => p.keyed = d.len > 0,
                    Setter::HashLength(n) => p.len = *n,
                    _ => {}
                }
            }
        }
        true
    }
    if ops.len() > OPS {
        return false;
    }
    for o in ops {
        // all references are to what exists
        let mut o = o.clone();
        let n = [ps.len(), ss.len(), js.len(), hs.len()];
        let mut ok = true;
        refs(&mut o, &mut |k, i| ok &= *i < n[k as usize]);
        if !ok {
            return false;
        }
        let mut big = false;
        each_data(&mut o, &mut |d, _| {
            bytes = bytes.saturating_add(d.len);
            big |= d.pat == PAT_BIG || d.pat == PAT_SPARSE;
        });
        if big || bytes > BYTES {
            return false;
        }
        match &o {
            Op::Params { alg, setters, .. } => {
                let mut p = P { alg: *alg, keyed: false, len: alg.out() };
                if !track(&mut p, setters) {
                    return false;
                }
                ps.push(p);
            }
            Op::Set { p, setters } => {
                if !track(&mut ps[*p], setters) {
                    return false;
                }
            }
            Op::NewState { p } => ss.push(S { alg: ps[*p].alg, fed: 0, added: false, len: ps[*p].len }),
            Op::DefState { alg, .. } => ss.push(S { alg: *alg, fed: 0, added: false, len: alg.out() }),
            Op::Update { s, d } | Op::Write { s, d } | Op::WriteAll { s, d } | Op::IoCopy { s, d } => ss[*s].fed += d.len,
            Op::WriteVec { s, ds } => ss[*s].fed += ds.iter().map(|d| d.len).sum::<usize>(),
            Op::WriteFmt { s, n } => {
                if *n > 200 {
                    return false;
                }
                ss[*s].fed += *n as usize;
            }
            Op::CloneState { s } => ss.push(ss[*s]),
            Op::CloneFrom { s, from } => ss[*s] = ss[*from],
            Op::SetLast { s, .. } => {
                if ss[*s].alg.is_par() {
                    return false;
                }
            }
            Op::UpdMany { pairs, mode } => {
                let all: BTreeSet<usize> = pairs.iter().map(|x| x.0).collect();
                if all.len() != pairs.len() || pairs.iter().any(|x| ss[x.0].alg != ss[pairs[0].0].alg || ss[x.0].alg.is_par()) {
                    return false;
                }
                let cut = if *mode == 1 { pairs.len() * 2 / 3 } else { pairs.len() };
                pairs[..cut].iter().for_each(|(s, d)| ss[*s].fed += d.len);
            }
            Op::NewJob { p, .. } => {
                if ps[*p].alg.is_par() {
                    return false;
                }
                js.push(J { alg: ps[*p].alg, keyed: ps[*p].keyed, run: false, added: false });
            }
            Op::CloneJob { j } => js.push(js[*j]),
            Op::RunJobs { js: v, mode } => {
                let all: BTreeSet<usize> = v.iter().copied().collect();
                if all.len() != v.len() || v.iter().any(|j| js[*j].alg != js[v[0]].alg) {
                    return false;
                }
                let cut = if *mode == 1 { v.len() * 2 / 3 } else { v.len() };
                v[..cut].iter().for_each(|j| js[*j].run = true);
            }
            Op::JobHash { j } => {
                if !js[*j].run {
                    return false;
                }
            }
            Op::AddCount { s, n } => {
                if ss[*s].fed > 0 || ss[*s].added || !countable(ss[*s].alg, *n) {
                    return false;
                }
                ss[*s].added = true;
            }
            Op::AddCountJob { j, n } => {
                if !countable(js[*j].alg, *n) || js[*j].keyed || js[*j].run || js[*j].added {
                    return false;
                }
                js[*j].added = true;
            }
            Op::HashOf { s } => hs.push((ss[*s].alg.is_b(), ss[*s].len)),
            Op::HashFrom { alg, d, .. } => {
                if d.len != alg.out() {
                    return false;
                }
                hs.push((alg.is_b(), d.len));
            }
            Op::HashEq { h, g } => {
                if hs[*h].0 != hs[*g].0 {
                    return false;
                }
            }
            Op::HashFlip { h, bits } => {
                let full = if hs[*h].0 { 64 } else { 32 };
                if hs[*h].1 != full || !fits(bits, full) {
                    return false;
                }
                hs.push(hs[*h]);
            }
            Op::HashEqSlice { len, bits, .. } => {
                if *len > 5000 || !fits(bits, *len) {
                    return false;
                }
            }
            Op::Misuse { .. } | Op::Hop | Op::Repeat { .. } | Op::Fan { .. } => return false,
            Op::Hash { .. }
            | Op::Free { .. }
            | Op::Flush { .. }
            | Op::Finalize { .. }
            | Op::Count { .. }
            | Op::DbgParams { .. }
            | Op::DbgState { .. }
            | Op::DbgJob { .. }
            | Op::HashView { .. }
            | Op::Degree { .. } => {}
        }
    }
    true
}

/// Can the counters of such an object be raised by that much, in whole blocks and without running
/// out?
fn countable(a: Alg, n: u128) -> bool {
    let bits = match a {
        Alg::B => 126,
        Alg::Bp => 122,
        Alg::S => 62,
        Alg::Sp => 59,
    };
    n % a.block() as u128 == 0 && n <= 1 << bits
}

/// Are the changes within that many bytes?
fn fits(bits: &[u32], len: usize) -> bool {
    bits.iter().all(|b| if *b >= 1 << 24 { ((b >> 12 & 0xfff) as usize) < len && ((b & 0xfff) as usize) < len } else { (*b as usize) < 8 * len })
}

/// All byte strings of an operation; true for those whose length is free.
fn each_data(o: &mut Op, f: &mut dyn FnMut(&mut Data, bool)) {
    match o {
        Op::Params { setters, .. } | Op::Set { setters, .. } => {
            for s in setters {
                if let Setter::Key(d) | Setter::Salt(d) | Setter::Personal(d) = s {
                    f(d, false)
                }
            }
        }
        Op::Hash { d, .. }
        | Op::Free { d, .. }
        | Op::Update { d, .. }
        | Op::Write { d, .. }
        | Op::WriteAll { d, .. }
        | Op::IoCopy { d, .. }
        | Op::NewJob { d, .. } => f(d, true),
        Op::HashFrom { d, .. } => f(d, false),
        Op::WriteVec { ds, .. } => ds.iter_mut().for_each(|d| f(d, true)),
        Op::UpdMany { pairs, .. } => pairs.iter_mut().for_each(|x| f(&mut x.1, true)),
        _ => {}
    }
}

/// Another value in place of `old`
fn number(r: &mut Rng, pool: &Pool, old: u64) -> u64 {
    let around = |r: &mut Rng, x: u64| match r.below(4) {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        _ => x,
    };
    match r.below(10) {
        0 | 1 | 2 if !pool.dict.is_empty() => {
            let x = pool.constant(r);
            // also as a number of words or blocks
            let x = x << [0, 0, 0, 0, 2, 3, 6, 7][r.below(8)];
            around(r, x)
        }
        3 => around(r, old),
        4 => old.wrapping_add([64, 128, 256, 512, 1024][r.below(5)]),
        5 => old.wrapping_sub([64, 128, 256, 512, 1024][r.below(5)]),
        6 => {
            let x = 1 << r.below(64);
            around(r, x)
        }
        7 => old ^ 1 << r.below(64),
        8 if r.one_in(2) => old.wrapping_add(pool.constant(r)),
        8 => old * (1 + r.below(3) as u64) / (1 + r.below(3) as u64),
        _ => r.next() >> r.below(64),
    }
}

fn bytes(r: &mut Rng, pool: &Pool, d: &mut Data, max: Option<usize>) {
    match r.below(6) {
        0..=2 => {
            if let Some(m) = max {
                d.len = number(r, pool, d.len as u64) as usize % (m + 1)
            }
        }
        3 => d.pat = [0, 1, 2, 3, 4, 5, 6, 7, 8][r.below(9)],
        4 => d.seed = number(r, pool, d.seed),
        _ => d.off = r.below(64) as u8,
    }
}

fn setter(r: &mut Rng, pool: &Pool, s: &mut Setter, a: Alg) {
    match s {
        Setter::HashLength(n) => *n = 1 + number(r, pool, *n as u64) as usize % a.out(),
        Setter::Key(d) => bytes(r, pool, d, Some(a.out())),
        Setter::Salt(d) | Setter::Personal(d) => bytes(r, pool, d, Some(a.salt())),
        Setter::Fanout(n) | Setter::MaxDepth(n) | Setter::NodeDepth(n) => *n = number(r, pool, *n as u64) as u8,
        Setter::MaxLeaf(n) => *n = number(r, pool, *n as u64) as u32,
        Setter::NodeOffset(n) => *n = number(r, pool, *n) & if a.is_b() { !0 } else { (1 << 48) - 1 },
        Setter::InnerLen(n) => *n = number(r, pool, *n as u64) as usize % (a.out() + 1),
        Setter::LastNode(b) => *b = !*b,
        Setter::Portable | Setter::CloneSelf | Setter::Use => {}
    }
}

fn change_setters(r: &mut Rng, pool: &Pool, v: &mut Vec<Setter>, a: Alg) {
    if v.is_empty() || r.one_in(4) {
        let d = Data { pat: 3, seed: r.next(), len: 0, off: 0 };
        let mut s = [
            Setter::HashLength(a.out()),
            Setter::Key(d),
            Setter::Salt(d),
            Setter::Personal(d),
            Setter::Fanout(1),
            Setter::MaxDepth(1),
            Setter::MaxLeaf(0),
            Setter::NodeOffset(0),
            Setter::NodeDepth(0),
            Setter::InnerLen(0),
            Setter::LastNode(false),
        ][r.below(11)];
        setter(r, pool, &mut s, a);
        let at = r.below(v.len() + 1);
        v.insert(at, s);
    } else if r.one_in(5) {
        let at = r.below(v.len());
        v.remove(at);
    } else if r.one_in(4) {
        // what another case sets
        let other = &pool.cases[r.below(pool.cases.len())].0.threads[0];
        for o in other {
            if let Op::Params { alg, setters, .. } = o {
                if *alg == a {
                    v.extend(setters.iter().take(20));
                    v.truncate(40);
                    break;
                }
            }
        }
    } else {
        let at = r.below(v.len());
        setter(r, pool, &mut v[at], a);
    }
}

fn algs(ops: &[Op]) -> Vec<Alg> {
    ops.iter().filter_map(|o| if let Op::Params { alg, .. } = o { Some(*alg) } else { None }).collect()
}

/// One random change of the values in operation `i`
fn tweak(r: &mut Rng, pool: &Pool, ops: &mut [Op], i: usize) {
    let known = algs(ops);
    match &mut ops[i] {
        Op::Params { alg, setters, .. } => {
            let a = *alg;
            change_setters(r, pool, setters, a)
        }
        Op::Set { p, setters } => change_setters(r, pool, setters, known[*p]),
        Op::SetLast { b, .. } => *b = !*b,
        Op::AddCount { n, .. } | Op::AddCountJob { n, .. } => {
            // whole blocks of either kind, and never more than there were
            let back = 128 * (1 + r.below(4) as u128);
            if r.one_in(3) {
                *n = pool.constant(r) as u128
            } else if *n > back {
                *n -= back
            }
        }
        Op::HashEqSlice { len, bits, .. } => {
            if r.one_in(2) {
                *len = number(r, pool, *len as u64) as usize % 600;
            } else if !bits.is_empty() && *len > 0 {
                let at = r.below(bits.len());
                bits[at] = r.below(8 * *len) as u32;
            }
        }
        Op::HashFlip { bits, .. } => {
            if !bits.is_empty() {
                let at = r.below(bits.len());
                bits[at] = r.below(8 * 32) as u32;
            }
        }
        Op::UpdMany { pairs, mode } if r.one_in(3) => {
            if r.one_in(2) {
                *mode = r.below(MODES as usize) as u8
            } else if pairs.len() > 1 {
                let (a, b) = (r.below(pairs.len()), r.below(pairs.len()));
                pairs.swap(a, b);
            }
        }
        Op::RunJobs { js, mode } => {
            if r.one_in(2) {
                *mode = r.below(MODES as usize) as u8
            } else if js.len() > 1 {
                let (a, b) = (r.below(js.len()), r.below(js.len()));
                js.swap(a, b);
            }
        }
        o => {
            let mut n = 0;
            each_data(o, &mut |_, _| n += 1);
            let (at, all) = (r.below(n), r.one_in(6));
            let mut k = 0;
            each_data(o, &mut |d, free| {
                if k == at || all {
                    bytes(r, pool, d, free.then_some(MAX_LEN));
                }
                k += 1;
            });
        }
    }
}

/// All numbers of an operation, and the largest each may be
fn each_number(o: &mut Op, known: &[Alg], f: &mut dyn FnMut(u64, u64) -> u64) {
    let mut sets = |v: &mut Vec<Setter>, a: Alg| {
        for s in v {
            match s {
                Setter::HashLength(n) => *n = (f(*n as u64, a.out() as u64) as usize).max(1),
                Setter::Key(d) => {
                    d.len = f(d.len as u64, a.out() as u64) as usize;
                    if d.pat == 8 {
                        d.seed = f(d.seed, !0);
                    }
                }
                Setter::Salt(d) | Setter::Personal(d) => {
                    d.len = f(d.len as u64, a.salt() as u64) as usize;
                    if d.pat == 8 {
                        d.seed = f(d.seed, !0);
                    }
                }
                Setter::Fanout(n) | Setter::MaxDepth(n) | Setter::NodeDepth(n) => *n = f(*n as u64, 255) as u8,
                Setter::MaxLeaf(n) => *n = f(*n as u64, !0 >> 32) as u32,
                Setter::NodeOffset(n) => *n = f(*n, if a.is_b() { !0 } else { (1 << 48) - 1 }),
                Setter::InnerLen(n) => *n = f(*n as u64, a.out() as u64) as usize,
                Setter::LastNode(b) => *b = f(*b as u64, 1) != 0,
                Setter::Portable | Setter::CloneSelf | Setter::Use => {}
            }
        }
    };
    match o {
        Op::Params { alg, setters, .. } => {
            let a = *alg;
            sets(setters, a)
        }
        Op::Set { p, setters } => sets(setters, known[*p]),
        Op::HashEqSlice { len, .. } => *len = f(*len as u64, 5000) as usize,
        Op::AddCount { n, .. } | Op::AddCountJob { n, .. } if *n >> 64 == 0 => *n = f(*n as u64, !0) as u128,
        o => each_data(o, &mut |d, free| {
            if free {
                d.len = f(d.len as u64, MAX_LEN as u64) as usize;
            }
            if d.pat == 8 {
                d.seed = f(d.seed, !0);
            }
        }),
    }
}

/// Makes one of two values that were compared, and that the case may hold, the other one.
fn aim(r: &mut Rng, ops: &mut [Op], pair: (u64, u64), direct: bool) {
    let known = algs(ops);
    // the first is the constant if one is
    let (to, from) = if !direct && r.one_in(4) { (pair.1, pair.0) } else { pair };
    let diff = to.wrapping_sub(from);
    // places that hold the value, and all places
    let (mut exact, mut all) = (0, 0);
    for o in ops.iter_mut() {
        each_number(o, &known, &mut |x, _| {
            exact += (x == from) as usize;
            all += 1;
            x
        });
    }
    let by_value = !direct && exact > 0 && !r.one_in(4);
    let at = r.below(if by_value { exact } else { all });
    let mut k = 0;
    for o in ops.iter_mut() {
        each_number(o, &known, &mut |x, max| {
            if by_value && x != from {
                return x;
            }
            k += 1;
            let y = if direct { to } else { x.wrapping_add(diff) };
            if k - 1 == at && y <= max {
                y
            } else {
                x
            }
        });
    }
    // or the parameter is not set at all yet
    if r.one_in(3) {
        let at: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Params { .. } | Op::Set { .. })).collect();
        if at.is_empty() {
            return;
        }
        let at = at[r.below(at.len())];
        let a = match &ops[at] {
            Op::Params { alg, .. } => *alg,
            Op::Set { p, .. } => known[*p],
            _ => return,
        };
        let s = match r.below(10) {
            0 => Setter::Fanout(to as u8),
            1 => Setter::MaxDepth(to as u8),
            2 => Setter::NodeDepth(to as u8),
            3 => Setter::MaxLeaf(to as u32),
            4 => Setter::NodeOffset(to),
            5 => Setter::InnerLen(to as usize),
            6 => Setter::HashLength(to as usize),
            7 => Setter::Salt(Data { pat: 8, seed: to, len: a.salt(), off: 0 }),
            8 => Setter::Personal(Data { pat: 8, seed: to, len: a.salt(), off: 0 }),
            _ => Setter::Key(Data { pat: 8, seed: to, len: a.out(), off: 0 }),
        };
        if s.legal(a) && s.exists_for(a) {
            if let Op::Params { setters, .. } | Op::Set { setters, .. } = &mut ops[at] {
                let at = if r.one_in(2) { 0 } else { setters.len() };
                setters.insert(at, s);
            }
        }
    } else if r.one_in(4) {
        // or it is in the bytes of the input
        let mut n = 0;
        ops.iter_mut().for_each(|o| each_data(o, &mut |_, _| n += 1));
        let at = r.below(n);
        let mut k = 0;
        ops.iter_mut().for_each(|o| {
            each_data(o, &mut |d, _| {
                if k == at {
                    d.pat = 8;
                    d.seed = to;
                }
                k += 1;
            })
        });
    }
}

/// Makes the count of whole blocks behind a state, after one of its updates, a constant of the
/// code, without changing what stays in its buffer.
fn aim_count(r: &mut Rng, pool: &Pool, ops: &mut Vec<Op>) {
    if pool.code.is_empty() {
        return;
    }
    let all: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Update { .. } | Op::WriteAll { .. } | Op::UpdMany { .. })).collect();
    if all.is_empty() {
        return;
    }
    let at = all[r.below(all.len())];
    let ps = algs(ops);
    // by state: type, bytes fed, where its count was raised
    let mut ss: Vec<(Alg, usize, Option<usize>)> = vec![];
    for (i, o) in ops[..at].iter().enumerate() {
        match o {
            Op::NewState { p } => ss.push((ps[*p], 0, None)),
            Op::DefState { alg, .. } => ss.push((*alg, 0, None)),
            Op::CloneState { s } => ss.push(ss[*s]),
            Op::CloneFrom { s, from } => ss[*s] = ss[*from],
            Op::Update { s, d } | Op::Write { s, d } | Op::WriteAll { s, d } | Op::IoCopy { s, d } => ss[*s].1 += d.len,
            Op::WriteVec { s, ds } => ss[*s].1 += ds.iter().map(|d| d.len).sum::<usize>(),
            Op::WriteFmt { s, n } => ss[*s].1 += *n as usize,
            Op::UpdMany { pairs, mode } => {
                let cut = if *mode == 1 { pairs.len() * 2 / 3 } else { pairs.len() };
                pairs[..cut].iter().for_each(|(s, d)| ss[*s].1 += d.len);
            }
            Op::AddCount { s, .. } => ss[*s].2 = Some(i),
            _ => {}
        }
    }
    let s = match &ops[at] {
        Op::Update { s, .. } | Op::WriteAll { s, .. } => *s,
        Op::UpdMany { pairs, .. } if !pairs.is_empty() => pairs[r.below(pairs.len())].0,
        _ => return,
    };
    let (alg, fed, raised) = ss[s];
    let lanes = alg.lanes();
    let k = pool.code[r.below(pool.code.len())];
    let mut raise = None;
    let mut set = |d: &mut Data| {
        let total = fed + d.len;
        let count = total.saturating_sub(1) / (alg.block() * lanes) * alg.block();
        if k >> 32 == 0 {
            let len = (d.len as u64 + k * lanes as u64).wrapping_sub((count * lanes) as u64);
            if len <= MAX_LEN as u64 {
                d.len = len as usize;
            }
        }
        if k > count as u64 {
            raise = Some((k - count as u64) as u128);
        }
    };
    match &mut ops[at] {
        Op::Update { d, .. } | Op::WriteAll { d, .. } => set(d),
        Op::UpdMany { pairs, .. } => pairs.iter_mut().filter(|x| x.0 == s).for_each(|x| set(&mut x.1)),
        _ => {}
    }
    if let (Some(i), Some(by)) = (raised, raise) {
        if let Op::AddCount { n, .. } = &mut ops[i] {
            *n = by
        }
    }
}

/// Copies of a history in which one value of a comparison is the other one.
fn aims(ops: &[Op], (to, from): (u64, u64), out: &mut Vec<Vec<Op>>) {
    let known = algs(ops);
    let diff = to.wrapping_sub(from);
    // a place that holds the value, or a length that it may come from
    for (i, o) in ops.iter().enumerate() {
        let mut n = 0;
        each_number(&mut o.clone(), &known, &mut |x, _| {
            n += 1;
            x
        });
        let len = {
            let mut has = false;
            each_data(&mut o.clone(), &mut |_, free| has |= free);
            has
        };
        for at in 0..n {
            let mut o = o.clone();
            let (mut k, mut hit) = (0, false);
            each_number(&mut o, &known, &mut |x, max| {
                k += 1;
                let y = x.wrapping_add(diff);
                if k - 1 == at && (x == from || len) && y <= max {
                    hit = true;
                    return y;
                }
                x
            });
            if hit && out.len() < 2000 {
                let mut v = ops.to_vec();
                v[i] = o;
                out.push(v);
            }
        }
        // or it is the input itself
        if to > 255 {
            let mut o = o.clone();
            let mut hit = false;
            each_data(&mut o, &mut |d, _| {
                d.pat = 8;
                d.seed = to;
                hit |= d.len > 1;
            });
            if hit && out.len() < 2000 {
                let mut v = ops.to_vec();
                v[i] = o;
                out.push(v);
            }
        }
        // or a parameter that is not set yet
        let a = match o {
            Op::Params { alg, .. } => *alg,
            Op::Set { p, .. } => known[*p],
            _ => continue,
        };
        for (s, d) in [
            (Setter::Fanout(to as u8), 1),
            (Setter::MaxDepth(to as u8), 1),
            (Setter::NodeDepth(to as u8), 0),
            (Setter::MaxLeaf(to as u32), 0),
            (Setter::NodeOffset(to), 0),
            (Setter::InnerLen(to as usize), 0),
            (Setter::HashLength(to as usize), a.out() as u64),
        ] {
            if d == from && s.legal(a) && s.exists_for(a) && out.len() < 2000 {
                // what comes after it may look at it
                for first in [false, true] {
                    let mut v = ops.to_vec();
                    if let Op::Params { setters, .. } | Op::Set { setters, .. } = &mut v[i] {
                        setters.insert(if first { 0 } else { setters.len() }, s);
                    }
                    out.push(v);
                }
            }
        }
    }
}

/// References to random objects of the right kind among the first ones
fn anchor(r: &mut Rng, o: &mut Op, n: [usize; 4]) {
    refs(o, &mut |k, i| {
        let n = n[k as usize];
        *i = if n == 0 { GONE } else if *i < n && r.one_in(2) { *i } else { r.below(n) };
    });
    // no object twice
    let mut seen = HashSet::new();
    match o {
        Op::UpdMany { pairs, .. } => pairs.iter_mut().for_each(|x| {
            if !seen.insert(x.0) {
                x.0 = GONE
            }
        }),
        Op::RunJobs { js, .. } => js.iter_mut().for_each(|x| {
            if !seen.insert(*x) {
                *x = GONE
            }
        }),
        _ => {}
    }
}

impl Pool {
    pub fn new(code: Arc<Vec<u64>>) -> Pool {
        Pool { code, ..Pool::default() }
    }

    fn constant(&self, r: &mut Rng) -> u64 {
        if !self.code.is_empty() && r.one_in(3) {
            self.code[r.below(self.code.len())]
        } else {
            self.dict.iter().nth(r.below(self.dict.len())).copied().unwrap_or(0)
        }
    }

    /// Takes in what a driver reported; was any of it new?
    pub fn learn(&mut self, cfg: usize, report: &str, pairs: &mut Vec<(u64, u64)>) -> News {
        let mut parts = report.split(':');
        let mut part = || parts.next().unwrap_or("");
        let (features, consts, apart) = (part(), part(), part());
        for x in apart.split_whitespace() {
            if let Some((a, b)) = x.split_once('=') {
                if let (Ok(a), Ok(b)) = (u64::from_str_radix(a, 16), u64::from_str_radix(b, 16)) {
                    pairs.push((a, b));
                }
            }
        }
        let mut new = News::None;
        for x in features.split_whitespace() {
            if let Ok(x) = u32::from_str_radix(x, 16) {
                if self.seen.insert((cfg, x)) {
                    // as numbered by driver/src/cov.rs
                    let edge = x < 1 << 20 || x >= 1 << 21 || x % 128 == 0;
                    new = new.max(if edge { News::Edge } else { News::Distance });
                }
            }
        }
        for x in consts.split_whitespace() {
            if let Ok(x) = u64::from_str_radix(x, 16) {
                if self.dict.len() < 2000 {
                    self.dict.insert(x);
                }
            }
        }
        new
    }

    pub fn keep(&mut self, r: &mut Rng, c: &Case, mut pairs: Vec<(u64, u64)>) {
        if c.threads.len() == 1 && valid(&c.threads[0]) {
            pairs.sort();
            pairs.dedup();
            let mut aimed = vec![];
            for p in &pairs {
                aims(&c.threads[0], *p, &mut aimed);
            }
            for _ in 0..40.min(aimed.len()) {
                let mut ops = aimed.swap_remove(r.below(aimed.len()));
                // now and then two or three at once: not every condition has its own branch
                while r.one_in(2) {
                    let mut more = vec![];
                    aims(&ops, pairs[r.below(pairs.len())], &mut more);
                    if !more.is_empty() {
                        ops = more.swap_remove(r.below(more.len()));
                    }
                }
                close(r, &mut ops);
                if valid(&ops) && self.queue.len() < 20_000 {
                    self.queue.push_back(Case { threads: vec![ops] });
                }
            }
            self.cases.push((c.clone(), pairs));
        }
    }

    pub fn dump(&self) -> String {
        let mut s = format!("{:x?}\n", self.dict);
        for (c, p) in &self.cases {
            s.push_str(&format!("{p:x?}\n{}\n", c.enc()));
        }
        s
    }

    pub fn sizes(&self) -> (usize, usize, usize) {
        (self.seen.len(), self.cases.len(), self.dict.len())
    }

    /// A changed copy of a case that was kept
    pub fn mutate(&mut self, r: &mut Rng) -> Option<Case> {
        if r.one_in(2) {
            if let Some(c) = self.queue.pop_front() {
                return Some(c);
            }
        }
        let n = self.cases.len();
        if n == 0 {
            return None;
        }
        for _ in 0..20 {
            // the latest ones more often
            let at = if r.one_in(2) { n - 1 - r.below(n.min(40)) } else { r.below(n) };
            let mut ops = self.cases[at].0.threads[0].clone();
            let pairs = &self.cases[at].1;
            let goal = match r.below(4) {
                0 | 1 if !pairs.is_empty() => Some((pairs[r.below(pairs.len())], false)),
                2 if !self.dict.is_empty() => Some(((self.constant(r), 0), true)),
                _ => None,
            };
            if let Some((pair, direct)) = goal {
                let before = ops.clone();
                aim(r, &mut ops, pair, direct);
                if r.one_in(2) && ops != before {
                    close(r, &mut ops);
                    if valid(&ops) {
                        return Some(Case { threads: vec![ops] });
                    }
                }
                if !valid(&ops) {
                    ops = before;
                }
            }
            if r.one_in(4) {
                let before = ops.clone();
                aim_count(r, self, &mut ops);
                if r.one_in(2) && ops != before {
                    close(r, &mut ops);
                    if valid(&ops) {
                        return Some(Case { threads: vec![ops] });
                    }
                }
                if !valid(&ops) {
                    ops = before;
                }
            }
            for _ in 0..1 + r.below(5) {
                if ops.is_empty() {
                    break;
                }
                let i = r.below(ops.len());
                let before = ops.clone();
                match r.below(12) {
                    0..=5 => tweak(r, self, &mut ops, i),
                    6 => ops = without(&ops, i),
                    7 => {
                        // again, perhaps for another object
                        let mut o = ops[i].clone();
                        let to = i + 1 + r.below(ops.len() - i);
                        if r.one_in(2) {
                            anchor(r, &mut o, counts(&ops[..to]));
                        }
                        if prune(&mut o) {
                            insert(&mut ops, to, o);
                        }
                    }
                    8 => {
                        // later or earlier, where that makes no difference to the numbering
                        let to = r.below(ops.len());
                        if creates(&ops[i]).is_none() {
                            let o = ops.remove(i);
                            ops.insert(to.min(ops.len()), o);
                        }
                    }
                    9 | 10 => {
                        // from elsewhere
                        let other = &self.cases[r.below(n)].0.threads[0];
                        if !other.is_empty() {
                            let from = r.below(other.len());
                            let mut at = i;
                            for o in other[from..].iter().take(1 + r.below(4)) {
                                let mut o = o.clone();
                                anchor(r, &mut o, counts(&ops[..at]));
                                if prune(&mut o) {
                                    insert(&mut ops, at, o);
                                    at += 1;
                                }
                            }
                        }
                    }
                    _ => {
                        // for another object
                        let have = counts(&ops[..i]);
                        anchor(r, &mut ops[i], have);
                        if !prune(&mut ops[i]) {
                            ops = before.clone();
                        }
                    }
                }
                if !valid(&ops) {
                    ops = before;
                }
            }
            close(r, &mut ops);
            if valid(&ops) && ops != self.cases[at].0.threads[0] {
                return Some(Case { threads: vec![ops] });
            }
        }
        None
    }
}

/// Look at every object at the end, most of the time.
fn close(r: &mut Rng, ops: &mut Vec<Op>) {
    if r.one_in(8) {
        return;
    }
    let counting = ops.iter().any(|o| matches!(o, Op::Count { .. }));
    let mut run = BTreeSet::new();
    let mut touched = BTreeSet::new();
    let mut n = [0; 4];
    for o in ops.iter() {
        match o {
            Op::RunJobs { js, mode } => run.extend(js[..if *mode == 1 { js.len() * 2 / 3 } else { js.len() }].iter().copied()),
            Op::CloneJob { j } if run.contains(j) => {
                run.insert(n[Slot::J as usize]);
            }
            Op::Finalize { s } => {
                touched.remove(s);
            }
            Op::NewState { .. } | Op::DefState { .. } | Op::CloneState { .. } => {
                touched.insert(n[Slot::S as usize]);
            }
            Op::HashOf { .. } | Op::Count { .. } | Op::Flush { .. } | Op::DbgState { .. } => {}
            o => refs(&mut o.clone(), &mut |k, i| {
                if k == Slot::S {
                    touched.insert(*i);
                }
            }),
        }
        if let Some(k) = creates(o) {
            n[k as usize] += 1;
        }
    }
    for s in touched {
        if counting {
            ops.push(Op::Count { s });
        }
        ops.push(Op::Finalize { s });
    }
    let read: BTreeSet<usize> = ops.iter().filter_map(|o| if let Op::JobHash { j } = o { Some(*j) } else { None }).collect();
    for j in run.difference(&read) {
        ops.push(Op::JobHash { j: *j });
    }
}

/// Shrinks a case without the generator that made it: operations, setters and lengths go.
pub struct CaseTree {
    /// the smallest known to fail
    best: Case,
    cur: Case,
    next: usize,
    progress: bool,
}

impl CaseTree {
    pub fn new(c: Case) -> CaseTree {
        CaseTree { best: c.clone(), cur: c, next: 0, progress: false }
    }

    /// The k-th simplification of the best case; Err when there is none with that number
    fn candidate(&self, k: usize) -> Result<Option<Case>, ()> {
        let ops = &self.best.threads[0];
        let n = ops.len();
        let out = |ops: Vec<Op>| Ok(Some(Case { threads: vec![ops] }));
        if k < n {
            // from the end, where less depends on it
            return out(without(ops, n - 1 - k));
        }
        let (i, what) = ((k - n) / 8, (k - n) % 8);
        if i >= n {
            return Err(());
        }
        let mut ops = ops.clone();
        match (&mut ops[i], what) {
            (Op::Params { setters, .. } | Op::Set { setters, .. }, 0..=2) => {
                let at = [0, setters.len() / 2, setters.len().saturating_sub(1)][what];
                if setters.is_empty() {
                    return Ok(None);
                }
                setters.remove(at);
            }
            (Op::UpdMany { mode, .. } | Op::RunJobs { mode, .. }, 0) if *mode != 1 => *mode = 0,
            (Op::UpdMany { pairs, .. }, 1) => {
                pairs.pop();
            }
            (Op::RunJobs { js, .. }, 1) => {
                js.pop();
            }
            (o, _) => each_data(o, &mut |d, _| match what {
                3 => d.len = 0,
                4 => d.len /= 2,
                5 => d.len = d.len.saturating_sub(1),
                6 => d.off = 0,
                7 => d.pat = 0,
                _ => {}
            }),
        }
        out(ops)
    }

    fn advance(&mut self) -> bool {
        loop {
            match self.candidate(self.next) {
                Err(()) => {
                    if !self.progress {
                        self.cur = self.best.clone();
                        return false;
                    }
                    self.progress = false;
                    self.next = 0;
                }
                Ok(c) => {
                    self.next += 1;
                    if let Some(c) = c {
                        if c != self.best && valid(&c.threads[0]) {
                            self.cur = c;
                            return true;
                        }
                    }
                }
            }
        }
    }
}

impl ValueTree for CaseTree {
    type Value = Case;
    fn current(&self) -> Case {
        self.cur.clone()
    }
    /// What is current fails: go on from there.
    fn simplify(&mut self) -> bool {
        if self.cur != self.best {
            self.best = self.cur.clone();
            self.progress = true;
            // the same number again: it now means something else
            self.next = self.next.saturating_sub(1);
        }
        self.best.threads.len() == 1 && self.advance()
    }
    fn complicate(&mut self) -> bool {
        self.advance()
    }
}

/// Cases derived from those of another tree
pub struct Dressed(pub Box<dyn ValueTree<Value = Case>>, pub fn(&Case) -> Case);

impl ValueTree for Dressed {
    type Value = Case;
    fn current(&self) -> Case {
        (self.1)(&self.0.current())
    }
    fn simplify(&mut self) -> bool {
        self.0.simplify()
    }
    fn complicate(&mut self) -> bool {
        self.0.complicate()
    }
}
