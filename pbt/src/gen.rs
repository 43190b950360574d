//! Generators. Every random choice is made by a proptest strategy that yields a *raw* value with
//! unresolved slots and symbolic lengths; normalization turns it, without any randomness, into a
//! concrete case in which every operation is legal (or deliberately illegal) for its object.
//! Shrinking works on the raw value.

use crate::case::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;

/// A symbolic length, resolved against the algorithm's block size and what was fed before.
#[derive(Clone, Copy, Debug)]
pub struct Len {
    pub kind: u8,
    pub k: u32,
    pub delta: i8,
}

impl Len {
    /// `fed` is the number of bytes the target has taken so far including a key block.
    pub fn resolve(&self, alg: Alg, fed: usize, cap: usize) -> usize {
        let b = alg.block() as i64;
        let k = self.k as i64;
        let d = self.delta as i64;
        // The interesting super-block: the bytes all SIMD lanes take together
        let lanes = if alg.is_b() { 4 } else { 8 };
        let to = |unit: i64| unit - fed as i64 % unit;
        let n = match self.kind {
            0 => k % 17,
            1 => k % (3 * b + 1),
            2 => (k % 9) * b + d,
            3 => (k % 7) * b * lanes + d,
            4 => to(b) + (k % 3) * b + d,
            5 => to(b * lanes) + (k % 8) * b + d,
            6 => to(2 * b * lanes) + (k % 12) * b + d,
            7 => (1i64 << (k % 18)) + d,
            8 => {
                // log-uniform up to 64 KiB
                let e = k as u32 % 17;
                (k >> 5) % (1i64 << e).max(1)
            }
            9 => 0,
            10 => (k % 20) * b,
            11 => (k % 130) * b + d,
            // around the read buffer of the command-line tool
            13 => (k % 20) * 32768 / [1, 1, 1, 4][k as usize % 4] + d,
            // long
            14 => (1 << (16 + k % 8)) + d * [1, 1, b, 4096][(k >> 8) as usize % 4],
            15 => {
                let e = 1i64 << (15 + k % 9);
                e + (k >> 5) % e
            }
            16 => (1 << (24 + k % 3)) + d * [1, 1, b, 4096][(k >> 8) as usize % 4],
            17 => {
                let e = 1i64 << (24 + k % 3);
                e + (k >> 5) % e
            }
            _ => k % (1 << 21),
        };
        (n.max(0) as usize).min(cap)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct RData {
    pub pat: u8,
    pub seed: u64,
    pub len: Len,
    pub off: u8,
}

impl RData {
    pub fn resolve(&self, alg: Alg, fed: usize, cap: usize) -> Data {
        Data { pat: self.pat, seed: self.seed, len: self.len.resolve(alg, fed, cap), off: self.off }
    }
    fn exact(&self, len: usize) -> Data {
        Data { pat: self.pat, seed: self.seed, len, off: self.off }
    }
}

/// Which length kinds to use and how often
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lens {
    /// a whole message
    Message,
    /// one chunk of an update history
    Chunk,
    /// one input of a batch: number of blocks matters most
    Batch,
    /// long pieces, 32 KiB to 16 MiB
    Long,
    /// mostly as Batch, with some long pieces
    LongBatch,
    /// mostly long pieces, some from 16 MiB to 128 MiB
    Huge,
    /// little data (interpreters)
    Tiny,
}

pub fn len(l: Lens) -> BoxedStrategy<Len> {
    let kinds: &[(u32, u8)] = match l {
        Lens::Message => &[(10, 0), (14, 1), (20, 2), (20, 3), (6, 5), (14, 7), (20, 8), (3, 9), (8, 11), (1, 12)],
        Lens::Chunk => &[(14, 0), (12, 1), (14, 2), (6, 3), (22, 4), (10, 5), (10, 6), (4, 7), (6, 8), (4, 9), (3, 10), (2, 11)],
        Lens::Batch => &[(6, 0), (20, 1), (30, 2), (5, 3), (8, 4), (3, 7), (4, 8), (6, 9), (14, 10), (5, 11)],
        Lens::Long => &[(4, 12), (4, 14), (4, 15), (1, 8), (1, 1), (2, 4)],
        Lens::LongBatch => &[(4, 1), (12, 2), (4, 4), (2, 9), (4, 12), (10, 14), (6, 15)],
        Lens::Huge => &[(4, 15), (4, 14), (10, 16), (10, 17), (1, 9), (2, 4)],
        Lens::Tiny => &[(20, 0), (20, 1), (30, 2), (30, 4), (6, 5), (3, 6), (3, 9)],
    };
    let kind = Union::new_weighted(kinds.iter().map(|(w, k)| (*w, Just(*k).boxed())).collect());
    (kind, any::<u32>(), prop_oneof![4 => Just(0i8), 6 => -2i8..=2])
        .prop_map(|(kind, k, delta)| Len { kind, k, delta })
        .boxed()
}

pub fn rdata(l: Lens) -> BoxedStrategy<RData> {
    let pat = prop_oneof![70 => Just(3u8), 8 => Just(7u8), 6 => Just(5u8), 4 => Just(0u8), 4 => Just(1u8), 2 => Just(4u8), 2 => Just(2u8), 4 => Just(6u8)];
    let off = prop_oneof![5 => Just(0u8), 5 => 0u8..64];
    (pat, any::<u64>(), len(l), off).prop_map(|(pat, seed, len, off)| RData { pat, seed, len, off }).boxed()
}

/// A number for a parameter with an upper limit: kind 0 uniform below, 1 the limit, 2 one less,
/// 3 the lowest legal value, 4.. illegal ones.
#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub kind: u8,
    pub raw: u64,
}

impl Num {
    pub fn resolve(&self, lo: u64, hi: u64) -> u64 {
        let span = (hi - lo).wrapping_add(1);
        match self.kind {
            0 => {
                if span == 0 {
                    self.raw
                } else {
                    lo + self.raw % span
                }
            }
            1 => hi,
            2 => hi - 1,
            3 => lo,
            // single bit
            4 => (1u64 << (self.raw % 64)).min(hi).max(lo),
            5 => hi.saturating_add(1),
            6 => hi.saturating_add(1).saturating_add(self.raw % 300),
            7 => {
                // legal when truncated to a byte
                let low = lo + (self.raw >> 8) % span.max(1);
                ((1 + self.raw % 5) * 256).saturating_add(low)
            }
            8 => hi.saturating_add(1 + (self.raw >> (self.raw % 48))),
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum RSetter {
    HashLength(Num),
    Key(u64, Num),
    Salt(u64, Num),
    Personal(u64, Num),
    Fanout(u8),
    MaxDepth(u8),
    MaxLeaf(u32),
    NodeOffset(Num),
    NodeDepth(u8),
    InnerLen(Num),
    LastNode(bool),
    Portable,
    CloneSelf,
    Use,
}

impl RSetter {
    fn resolve(&self, a: Alg) -> Setter {
        // Keys and salts are short random strings; a few are all zero, so that padding matters.
        let bytes = |seed: u64, n: u64| Data {
            pat: if seed % 7 == 0 { 0 } else { 3 },
            seed: seed >> 3,
            len: n.min(70000) as usize,
            off: (seed % 5) as u8,
        };
        let out = a.out() as u64;
        let salt = a.salt() as u64;
        match self {
            RSetter::HashLength(n) => Setter::HashLength(n.resolve(1, out).min(1 << 40) as usize),
            RSetter::Key(s, n) => Setter::Key(bytes(*s, n.resolve(0, out))),
            RSetter::Salt(s, n) => Setter::Salt(bytes(*s, n.resolve(0, salt))),
            RSetter::Personal(s, n) => Setter::Personal(bytes(*s, n.resolve(0, salt))),
            RSetter::Fanout(n) => Setter::Fanout(*n),
            RSetter::MaxDepth(n) => Setter::MaxDepth(*n),
            RSetter::MaxLeaf(n) => Setter::MaxLeaf(*n),
            RSetter::NodeOffset(n) => {
                Setter::NodeOffset(n.resolve(0, if a.is_b() { u64::MAX } else { (1 << 48) - 1 }))
            }
            RSetter::NodeDepth(n) => Setter::NodeDepth(*n),
            RSetter::InnerLen(n) => Setter::InnerLen(n.resolve(0, out).min(1 << 40) as usize),
            RSetter::LastNode(b) => Setter::LastNode(*b),
            RSetter::Portable => Setter::Portable,
            RSetter::CloneSelf => Setter::CloneSelf,
            RSetter::Use => Setter::Use,
        }
    }
}

fn num(illegal: bool) -> BoxedStrategy<Num> {
    let kind = if illegal {
        prop_oneof![10 => Just(0u8), 6 => Just(1u8), 3 => Just(2u8), 4 => Just(3u8), 2 => Just(4u8), 6 => Just(5u8), 3 => Just(6u8), 4 => Just(7u8), 3 => Just(8u8)].boxed()
    } else {
        prop_oneof![20 => Just(0u8), 8 => Just(1u8), 3 => Just(2u8), 5 => Just(3u8), 6 => Just(4u8)].boxed()
    };
    (kind, any::<u64>()).prop_map(|(kind, raw)| Num { kind, raw }).boxed()
}

/// Changes to the bytes of a hash: mostly one bit, or none; also ones that a careless comparison
/// may add up to nothing.
fn changes() -> BoxedStrategy<Vec<u32>> {
    let bit = || 0u32..1 << 20;
    let swap = (1u32 << 24..1 << 25).boxed();
    prop_oneof![
        2 => Just(vec![]),
        4 => bit().prop_map(|b| vec![b]),
        // the same bit of two bytes
        3 => (bit(), bit()).prop_map(|(b, c)| vec![b, (c & !7) | (b & 7)]),
        2 => swap.prop_map(|s| vec![s]),
        1 => vec(bit(), 2..9),
    ]
    .boxed()
}

/// Those that fit a length, with positions in it
fn fit(bits: &[u32], len: usize) -> Vec<u32> {
    let n = len.max(1) as u32;
    let mut v: Vec<u32> = bits.iter().map(|b| if *b >= 1 << 24 { 1 << 24 | (b >> 12 & 0xfff) % n << 12 | (b & 0xfff) % n } else { b % (8 * n) }).collect();
    if v.len() == 2 && v[0] == v[1] {
        v.pop();
    }
    v
}

fn byte() -> BoxedStrategy<u8> {
    prop_oneof![4 => any::<u8>(), 1 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(255u8), 1 => (0u8..8).prop_map(|b| 1 << b)].boxed()
}

fn word32() -> BoxedStrategy<u32> {
    prop_oneof![4 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX), 2 => (0u32..32).prop_map(|b| 1 << b), 1 => 0u32..1000].boxed()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ps {
    /// legal values only
    Legal,
    /// also illegal values, clones and uses in between
    Any,
    /// legal values of serial algorithms with the portable implementation forced now and then
    Mixed,
}

pub fn rsetter(ps: Ps) -> BoxedStrategy<RSetter> {
    let ill = ps == Ps::Any;
    let mut v: Vec<(u32, BoxedStrategy<RSetter>)> = vec![
        (10, num(ill).prop_map(RSetter::HashLength).boxed()),
        (12, (any::<u64>(), num(ill)).prop_map(|(s, n)| RSetter::Key(s, n)).boxed()),
        (7, (any::<u64>(), num(ill)).prop_map(|(s, n)| RSetter::Salt(s, n)).boxed()),
        (7, (any::<u64>(), num(ill)).prop_map(|(s, n)| RSetter::Personal(s, n)).boxed()),
        (5, byte().prop_map(RSetter::Fanout).boxed()),
        (5, byte().prop_map(RSetter::MaxDepth).boxed()),
        (5, word32().prop_map(RSetter::MaxLeaf).boxed()),
        (6, num(ill).prop_map(RSetter::NodeOffset).boxed()),
        (5, byte().prop_map(RSetter::NodeDepth).boxed()),
        (5, num(ill).prop_map(RSetter::InnerLen).boxed()),
        (7, any::<bool>().prop_map(RSetter::LastNode).boxed()),
    ];
    if ps == Ps::Any {
        v.push((5, Just(RSetter::CloneSelf).boxed()));
        v.push((3, Just(RSetter::Use).boxed()));
        v.push((2, Just(RSetter::Portable).boxed()));
    }
    if ps == Ps::Mixed {
        v.push((14, Just(RSetter::Portable).boxed()));
    }
    Union::new_weighted(v).boxed()
}

#[derive(Clone, Debug)]
pub struct RParams {
    pub alg: Alg,
    pub dflt: bool,
    pub setters: Vec<RSetter>,
}

impl RParams {
    pub fn resolve(&self) -> Op {
        Op::Params { alg: self.alg, dflt: self.dflt, setters: resolve_setters(&self.setters, self.alg) }
    }
}

pub fn resolve_setters(v: &[RSetter], alg: Alg) -> Vec<Setter> {
    v.iter().map(|s| s.resolve(alg)).filter(|s| s.exists_for(alg)).collect()
}

pub fn algs(v: &'static [Alg]) -> BoxedStrategy<Alg> {
    proptest::sample::select(v).boxed()
}

pub fn rparams(a: &'static [Alg], ps: Ps) -> BoxedStrategy<RParams> {
    let n = match ps {
        Ps::Any => prop_oneof![1 => vec(rsetter(ps), 0..4), 4 => vec(rsetter(ps), 1..24)].boxed(),
        _ => prop_oneof![3 => vec(rsetter(ps), 0..1), 4 => vec(rsetter(ps), 1..5), 4 => vec(rsetter(ps), 5..20)].boxed(),
    };
    (algs(a), any::<bool>(), n).prop_map(|(alg, dflt, setters)| RParams { alg, dflt, setters }).boxed()
}

/// A raw operation with unresolved slots.
#[derive(Clone, Debug)]
pub enum ROp {
    Update(u16, RData),
    Write(u16, RData, u8),
    WriteVec(u16, Vec<RData>),
    WriteFmt(u16, u8),
    Flush(u16),
    /// many small updates
    Run(u16, u16, RData),
    Finalize(u16),
    Count(u16),
    Clone(u16),
    CloneFrom(u16, u16),
    SetLast(u16, bool),
    NewState(u16),
    DefState(Alg, u8),
    Params(RParams),
    Set(u16, Vec<RSetter>),
    Hash(u16, RData),
    Free(Alg, RData),
    /// how: 0 the listed slots, 1 all states in order, 2 all in reverse, 3 every other
    UpdMany(u8, Vec<(u16, RData)>, u8),
    NewJobs(Vec<(u16, RData)>),
    CloneJob(u16),
    /// how: 0 listed, 1 all, 2 all in reverse, 3 only those not run
    RunJobs(u8, Vec<u16>, u8),
    JobHash(u16),
    Debug(u8, u16, u8),
    HashOf(u16),
    HashFrom(Alg, u64, u8),
    HashEq(u16, u16),
    HashEqSlice(u16, Num, Vec<u32>),
    HashFlip(u16, Vec<u32>),
    HashView(u16),
    Misuse(u8, u16),
    Degree(Alg),
    Hop,
    Fan(u8, RData),
}

/// Weights of the operations in a history
#[derive(Clone, Copy)]
pub struct Profile {
    pub algs: &'static [Alg],
    pub ps: Ps,
    pub lens: Lens,
    /// largest single piece of data
    pub cap: usize,
    /// largest total per history
    pub total: usize,
    pub update: u32,
    pub write: u32,
    pub run: u32,
    pub fin: u32,
    pub count: u32,
    pub clone: u32,
    pub setlast: u32,
    pub newstate: u32,
    pub params: u32,
    pub set: u32,
    pub hash: u32,
    pub updmany: u32,
    pub jobs: u32,
    pub debug: u32,
    pub hashes: u32,
    pub misuse: u32,
    pub degree: u32,
    pub hop: u32,
    pub fan: u32,
    /// ends with a finalization and count of every state, and the digest of every job
    pub close: bool,
    pub batch_max: usize,
}

pub const NONE: Profile = Profile {
    algs: &[Alg::B, Alg::S],
    ps: Ps::Legal,
    lens: Lens::Chunk,
    cap: 1 << 17,
    total: 1 << 18,
    update: 0,
    write: 0,
    run: 0,
    fin: 0,
    count: 0,
    clone: 0,
    setlast: 0,
    newstate: 0,
    params: 0,
    set: 0,
    hash: 0,
    updmany: 0,
    jobs: 0,
    debug: 0,
    hashes: 0,
    misuse: 0,
    degree: 0,
    hop: 0,
    fan: 0,
    close: true,
    batch_max: 24,
};

pub fn rop(p: Profile) -> BoxedStrategy<ROp> {
    let d = || rdata(p.lens);
    let sl = any::<u16>;
    let bl = match p.lens {
        Lens::Tiny => Lens::Tiny,
        Lens::Long => Lens::LongBatch,
        Lens::Huge => Lens::Huge,
        _ => Lens::Batch,
    };
    let m = p.batch_max;
    let batch_size = || {
        prop_oneof![8 => 0..10usize.min(m), 4 => 0..20usize.min(m), 1 => 0..m]
    };
    let pairs = move || {
        batch_size().prop_flat_map(move |n| vec((any::<u16>(), rdata(bl)), n..=n))
    };
    let sels = move || batch_size().prop_flat_map(move |n| vec(any::<u16>(), n..=n));
    let mut v: Vec<(u32, BoxedStrategy<ROp>)> = vec![
        (p.update, (sl(), d()).prop_map(|(s, d)| ROp::Update(s, d)).boxed()),
        (p.write * 3, (sl(), d(), 0u8..3).prop_map(|(s, d, h)| ROp::Write(s, d, h)).boxed()),
        (p.write, (sl(), prop_oneof![3 => vec(d(), 0..5), 1 => vec(d(), 5..40)]).prop_map(|(s, d)| ROp::WriteVec(s, d)).boxed()),
        (p.write, (sl(), 0u8..12).prop_map(|(s, n)| ROp::WriteFmt(s, n)).boxed()),
        (p.write, sl().prop_map(ROp::Flush).boxed()),
        (p.run, (sl(), prop_oneof![4 => 2u16..20, 1 => 2u16..300], d()).prop_map(|(s, n, d)| ROp::Run(s, n, d)).boxed()),
        (p.fin, sl().prop_map(ROp::Finalize).boxed()),
        (p.count, sl().prop_map(ROp::Count).boxed()),
        (p.clone * 3, sl().prop_map(ROp::Clone).boxed()),
        (p.clone, (sl(), sl()).prop_map(|(a, b)| ROp::CloneFrom(a, b)).boxed()),
        (p.setlast, (sl(), any::<bool>()).prop_map(|(s, b)| ROp::SetLast(s, b)).boxed()),
        (p.newstate * 3, sl().prop_map(ROp::NewState).boxed()),
        (p.newstate, (algs(p.algs), 0u8..2).prop_map(|(a, h)| ROp::DefState(a, h)).boxed()),
        (p.params, rparams(p.algs, p.ps).prop_map(ROp::Params).boxed()),
        (p.set, (sl(), vec(rsetter(p.ps), 1..8)).prop_map(|(s, v)| ROp::Set(s, v)).boxed()),
        (p.hash * 3, (sl(), d()).prop_map(|(s, d)| ROp::Hash(s, d)).boxed()),
        (p.hash, (algs(p.algs), d()).prop_map(|(a, d)| ROp::Free(a, d)).boxed()),
        (p.updmany, (0u8..4, pairs(), 0..MODES).prop_map(|(h, v, m)| ROp::UpdMany(h, v, m)).boxed()),
        (p.jobs * 3, pairs().prop_map(ROp::NewJobs).boxed()),
        (p.jobs, sl().prop_map(ROp::CloneJob).boxed()),
        (p.jobs * 3, (0u8..4, sels(), 0..MODES).prop_map(|(h, v, m)| ROp::RunJobs(h, v, m)).boxed()),
        (p.jobs * 2, sl().prop_map(ROp::JobHash).boxed()),
        (p.debug, (0u8..3, sl(), prop_oneof![0u8..3, 0u8..8]).prop_map(|(k, s, f)| ROp::Debug(k, s, f)).boxed()),
        (p.hashes * 2, sl().prop_map(ROp::HashOf).boxed()),
        (p.hashes, (algs(p.algs), any::<u64>(), 0u8..16).prop_map(|(a, s, f)| ROp::HashFrom(a, s, f)).boxed()),
        (p.hashes * 4, (sl(), sl()).prop_map(|(a, b)| ROp::HashEq(a, b)).boxed()),
        (p.hashes * 6, (sl(), num(true), changes()).prop_map(|(a, n, b)| ROp::HashEqSlice(a, n, b)).boxed()),
        (p.hashes * 2, (sl(), changes()).prop_map(|(a, b)| ROp::HashFlip(a, b)).boxed()),
        (p.hashes * 2, sl().prop_map(ROp::HashView).boxed()),
        (p.misuse, (0u8..2, sl()).prop_map(|(k, s)| ROp::Misuse(k, s)).boxed()),
        (p.degree, algs(p.algs).prop_map(ROp::Degree).boxed()),
        (p.hop, Just(ROp::Hop).boxed()),
        (p.fan, (2u8..9, d()).prop_map(|(n, d)| ROp::Fan(n, d)).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    Union::new_weighted(v).boxed()
}

/// What normalization needs to know about the objects that exist.
#[derive(Clone, Copy)]
struct TState {
    alg: Alg,
    fed: usize,
    hash_length: usize,
}
#[derive(Clone, Copy)]
struct TParams {
    alg: Alg,
    keyed: bool,
    hash_length: usize,
}

pub struct Norm {
    p: Profile,
    out: Vec<Op>,
    ps: Vec<TParams>,
    ss: Vec<TState>,
    /// algorithm, whether it ran, whether it was in a batch that ended before it
    js: Vec<(Alg, bool, bool)>,
    /// b?, length
    hs: Vec<(bool, usize)>,
    budget: usize,
}

impl Norm {
    pub fn new(p: Profile) -> Norm {
        Norm { p, out: vec![], ps: vec![], ss: vec![], js: vec![], hs: vec![], budget: p.total }
    }

    fn pick(&self, sel: u16, n: usize) -> Option<usize> {
        if n == 0 {
            None
        } else {
            Some(sel as usize % n)
        }
    }

    fn data(&mut self, d: &RData, alg: Alg, fed: usize) -> Data {
        let r = d.resolve(alg, fed, self.p.cap.min(self.budget));
        self.budget -= r.len;
        r
    }

    fn track(t: &mut TParams, setters: &[Setter]) {
        for s in setters {
            if s.legal(t.alg) {
                match s {
                    Setter::Key(d) => t.keyed = d.len > 0,
                    Setter::HashLength(n) => t.hash_length = *n,
                    _ => {}
                }
            }
        }
    }

    /// An operation that creates no object
    pub fn push(&mut self, op: Op) {
        self.out.push(op);
    }

    pub fn jobs_len(&self) -> usize {
        self.js.len()
    }

    pub fn states_len(&self) -> usize {
        self.ss.len()
    }

    /// The selector by which NewJobs picks parameter set p
    pub fn serial_index(&self, p: usize) -> u16 {
        self.ps[..p].iter().filter(|t| !t.alg.is_par()).count() as u16
    }

    pub fn params(&mut self, r: &RParams) {
        let op = r.resolve();
        let mut t = TParams { alg: r.alg, keyed: false, hash_length: r.alg.out() };
        if let Op::Params { setters, .. } = &op {
            Self::track(&mut t, setters);
        }
        self.ps.push(t);
        self.out.push(op);
    }

    pub fn state(&mut self, p: usize) {
        let t = self.ps[p];
        let fed = if t.keyed { t.alg.block() * t.alg.lanes() } else { 0 };
        self.ss.push(TState { alg: t.alg, fed, hash_length: t.hash_length });
        self.out.push(Op::NewState { p });
    }

    fn push_update(&mut self, s: usize, d: &RData) -> Data {
        let t = self.ss[s];
        let d = self.data(d, t.alg, t.fed);
        self.ss[s].fed += d.len;
        d
    }

    pub fn op(&mut self, r: &ROp) {
        let ns = self.ss.len();
        let np = self.ps.len();
        let nj = self.js.len();
        let nh = self.hs.len();
        match r {
            ROp::Update(s, d) => {
                if let Some(s) = self.pick(*s, ns) {
                    let d = self.push_update(s, d);
                    self.out.push(Op::Update { s, d });
                }
            }
            ROp::Write(s, d, how) => {
                if let Some(s) = self.pick(*s, ns) {
                    let d = self.push_update(s, d);
                    self.out.push(match how {
                        0 => Op::Write { s, d },
                        1 => Op::WriteAll { s, d },
                        _ => Op::IoCopy { s, d },
                    });
                }
            }
            ROp::WriteVec(s, ds) => {
                if let Some(s) = self.pick(*s, ns) {
                    let ds = ds.iter().map(|d| self.push_update(s, d)).collect();
                    self.out.push(Op::WriteVec { s, ds });
                }
            }
            ROp::WriteFmt(s, n) => {
                if let Some(s) = self.pick(*s, ns) {
                    let n = *n as u16;
                    let len: usize = (0..n).map(|i| fmt_piece(i).len() + i.to_string().len()).sum();
                    self.ss[s].fed += len;
                    self.out.push(Op::WriteFmt { s, n });
                }
            }
            ROp::Flush(s) => {
                if let Some(s) = self.pick(*s, ns) {
                    self.out.push(Op::Flush { s });
                }
            }
            ROp::Run(s, n, d) => {
                if let Some(s) = self.pick(*s, ns) {
                    for i in 0..*n {
                        let mut e = *d;
                        e.seed = e.seed.wrapping_add(i as u64);
                        // small pieces
                        let t = self.ss[s];
                        let l = e.resolve(t.alg, t.fed, t.alg.block() * 2 + 1).len;
                        let l = if *n > 40 { l % (t.alg.block() / 2) } else { l }.min(self.budget);
                        self.budget -= l;
                        self.ss[s].fed += l;
                        self.out.push(Op::Update { s, d: e.exact(l) });
                    }
                }
            }
            ROp::Finalize(s) => {
                if let Some(s) = self.pick(*s, ns) {
                    self.out.push(Op::Finalize { s });
                }
            }
            ROp::Count(s) => {
                if let Some(s) = self.pick(*s, ns) {
                    self.out.push(Op::Count { s });
                }
            }
            ROp::Clone(s) => {
                if let Some(s) = self.pick(*s, ns) {
                    if ns < 400 {
                        self.ss.push(self.ss[s]);
                        self.out.push(Op::CloneState { s });
                    }
                }
            }
            ROp::CloneFrom(s, f) => {
                if let (Some(s), Some(from)) = (self.pick(*s, ns), self.pick(*f, ns)) {
                    self.ss[s] = self.ss[from];
                    self.out.push(Op::CloneFrom { s, from });
                }
            }
            ROp::SetLast(s, b) => {
                let ok: Vec<usize> = (0..ns).filter(|i| !self.ss[*i].alg.is_par()).collect();
                if let Some(i) = self.pick(*s, ok.len()) {
                    self.out.push(Op::SetLast { s: ok[i], b: *b });
                }
            }
            ROp::NewState(p) => {
                if let Some(p) = self.pick(*p, np) {
                    if ns < 400 {
                        self.state(p);
                    }
                }
            }
            ROp::DefState(alg, how) => {
                if ns < 400 {
                    self.ss.push(TState { alg: *alg, fed: 0, hash_length: alg.out() });
                    self.out.push(Op::DefState { alg: *alg, how: *how });
                }
            }
            ROp::Params(p) => self.params(p),
            ROp::Set(p, v) => {
                if let Some(p) = self.pick(*p, np) {
                    let setters = resolve_setters(v, self.ps[p].alg);
                    let mut t = self.ps[p];
                    Self::track(&mut t, &setters);
                    self.ps[p] = t;
                    self.out.push(Op::Set { p, setters });
                }
            }
            ROp::Hash(p, d) => {
                if let Some(p) = self.pick(*p, np) {
                    let d = self.data(d, self.ps[p].alg, 0);
                    self.out.push(Op::Hash { p, d });
                }
            }
            ROp::Free(alg, d) => {
                let d = self.data(d, *alg, 0);
                self.out.push(Op::Free { alg: *alg, d });
            }
            ROp::UpdMany(how, v, mode) => {
                let serial: Vec<usize> = (0..ns).filter(|i| !self.ss[*i].alg.is_par()).collect();
                if serial.is_empty() {
                    return;
                }
                if v.is_empty() {
                    self.out.push(Op::UpdMany { pairs: vec![], mode: *mode });
                    return;
                }
                let alg = self.ss[serial[v[0].0 as usize % serial.len()]].alg;
                let same: Vec<usize> = serial.into_iter().filter(|i| self.ss[*i].alg == alg).collect();
                let mut sel: Vec<usize> = match how {
                    0 => v.iter().map(|(s, _)| same[*s as usize % same.len()]).collect(),
                    1 => same,
                    2 => same.into_iter().rev().collect(),
                    _ => same.into_iter().skip(v[0].0 as usize % 2).step_by(2).collect(),
                };
                let mut seen = std::collections::HashSet::new();
                sel.retain(|s| seen.insert(*s));
                let cut = if *mode == 1 { sel.len() * 2 / 3 } else { sel.len() };
                let mut pairs = vec![];
                for (i, s) in sel.into_iter().enumerate() {
                    let mut d = v[i % v.len()].1;
                    d.seed = d.seed.wrapping_add(i as u64);
                    // vary the length when the list of descriptions is reused
                    d.len.k = d.len.k.wrapping_add((i / v.len()) as u32 * 7);
                    let fed = self.ss[s].fed;
                    let d = self.data(&d, alg, fed);
                    if i < cut {
                        self.ss[s].fed += d.len;
                    }
                    pairs.push((s, d));
                }
                self.out.push(Op::UpdMany { pairs, mode: *mode });
            }
            ROp::NewJobs(v) => {
                let ok: Vec<usize> = (0..np).filter(|i| !self.ps[*i].alg.is_par()).collect();
                if ok.is_empty() {
                    return;
                }
                for (p, d) in v {
                    let p = ok[*p as usize % ok.len()];
                    let alg = self.ps[p].alg;
                    let fed = if self.ps[p].keyed { alg.block() } else { 0 };
                    let d = self.data(d, alg, fed);
                    self.js.push((alg, false, false));
                    self.out.push(Op::NewJob { p, d });
                }
            }
            ROp::CloneJob(j) => {
                if let Some(j) = self.pick(*j, nj) {
                    self.js.push(self.js[j]);
                    self.out.push(Op::CloneJob { j });
                }
            }
            ROp::RunJobs(how, v, mode) => {
                if v.is_empty() || nj == 0 {
                    self.out.push(Op::RunJobs { js: vec![], mode: *mode });
                    return;
                }
                let alg = self.js[v[0] as usize % nj].0;
                let same: Vec<usize> = (0..nj).filter(|i| self.js[*i].0 == alg).collect();
                let mut js: Vec<usize> = match how {
                    0 => v.iter().map(|s| same[*s as usize % same.len()]).collect(),
                    1 => same,
                    2 => same.into_iter().rev().collect(),
                    _ => same.into_iter().filter(|i| !self.js[*i].1).collect(),
                };
                let mut seen = std::collections::HashSet::new();
                js.retain(|s| seen.insert(*s));
                self.run_jobs(js, *mode);
            }
            ROp::JobHash(j) => {
                let ok: Vec<usize> = (0..nj).filter(|i| self.js[*i].1).collect();
                if let Some(i) = self.pick(*j, ok.len()) {
                    self.out.push(Op::JobHash { j: ok[i] });
                }
            }
            ROp::Debug(k, s, fmt) => match k {
                0 => {
                    if let Some(p) = self.pick(*s, np) {
                        self.out.push(Op::DbgParams { p, fmt: *fmt });
                    }
                }
                1 => {
                    if let Some(s) = self.pick(*s, ns) {
                        self.out.push(Op::DbgState { s, fmt: *fmt });
                    }
                }
                _ => {
                    if let Some(j) = self.pick(*s, nj) {
                        self.out.push(Op::DbgJob { j, fmt: *fmt });
                    }
                }
            },
            ROp::HashOf(s) => {
                if let Some(s) = self.pick(*s, ns) {
                    self.hs.push((self.ss[s].alg.is_b(), self.ss[s].hash_length));
                    self.out.push(Op::HashOf { s });
                }
            }
            ROp::HashFrom(alg, seed, f) => {
                let n = alg.out();
                self.hs.push((alg.is_b(), n));
                let pat = [3, 3, 3, 0, 1, 4, 5, 8][*f as usize % 8];
                let d = Data { pat, seed: *seed, len: n, off: 0 };
                self.out.push(Op::HashFrom { alg: *alg, d, byref: *f >= 8 });
            }
            ROp::HashEq(h, g) => {
                if let Some(h) = self.pick(*h, nh) {
                    let same: Vec<usize> = (0..nh).filter(|i| self.hs[*i].0 == self.hs[h].0).collect();
                    let g = same[*g as usize % same.len()];
                    self.out.push(Op::HashEq { h, g });
                }
            }
            ROp::HashEqSlice(h, n, bits) => {
                if let Some(h) = self.pick(*h, nh) {
                    let own = self.hs[h].1 as u64;
                    let max = if self.hs[h].0 { 64 } else { 32 };
                    // mostly the hash's own length, with or without a flipped bit
                    let len = match n.kind {
                        0 | 1 | 4 => own,
                        2 => own - 1,
                        3 => n.raw % (own + 1),
                        5 => own + 1,
                        6 => max,
                        // the same length when truncated to a byte
                        7 if n.raw % 2 == 0 => own + 256 * (1 + n.raw / 2 % 5),
                        _ => n.resolve(0, max).min(5000),
                    } as usize;
                    self.out.push(Op::HashEqSlice { h, len, bits: if len == 0 { vec![] } else { fit(bits, len) } });
                }
            }
            ROp::HashFlip(h, bits) => {
                let ok: Vec<usize> = (0..nh).filter(|i| self.hs[*i].1 == if self.hs[*i].0 { 64 } else { 32 }).collect();
                if let Some(i) = self.pick(*h, ok.len()) {
                    let h = ok[i];
                    self.hs.push(self.hs[h]);
                    let bits = fit(bits, self.hs[h].1);
                    self.out.push(Op::HashFlip { h, bits });
                }
            }
            ROp::HashView(h) => {
                if let Some(h) = self.pick(*h, nh) {
                    self.out.push(Op::HashView { h });
                }
            }
            ROp::Misuse(kind, s) => {
                if *kind == 2 {
                    let ok: Vec<usize> = (0..nj).filter(|i| !self.js[*i].1 && self.js[*i].2).collect();
                    let ok: Vec<usize> = ok.into_iter().filter(|i| self.job_unfinished(*i)).collect();
                    if let Some(i) = self.pick(*s, ok.len()) {
                        self.out.push(Op::Misuse { kind: 2, slot: ok[i] });
                    }
                } else if *kind == 0 {
                    // A keyed job without input is finished from the start, which is not
                    // promised either way, so only jobs with input and without a key are used:
                    // those are the ones that cannot have a digest before they run.
                    let ok: Vec<usize> = (0..nj).filter(|i| !self.js[*i].1 && !self.js[*i].2).collect();
                    let ok: Vec<usize> = ok.into_iter().filter(|i| self.job_unfinished(*i)).collect();
                    if let Some(i) = self.pick(*s, ok.len()) {
                        self.out.push(Op::Misuse { kind: 0, slot: ok[i] });
                    }
                } else {
                    let ok: Vec<usize> = (0..nh).filter(|i| self.hs[*i].1 != if self.hs[*i].0 { 64 } else { 32 }).collect();
                    if let Some(i) = self.pick(*s, ok.len()) {
                        self.out.push(Op::Misuse { kind: 1, slot: ok[i] });
                    }
                }
            }
            ROp::Degree(alg) => self.out.push(Op::Degree { alg: *alg }),
            ROp::Hop => self.out.push(Op::Hop),
            ROp::Fan(n, d) => {
                let d = self.data(d, Alg::B, 0);
                self.out.push(Op::Fan { n: *n as usize, d });
            }
        }
    }

    /// Does job i certainly have no digest before it runs? (Not keyed, or it has input.)
    fn job_unfinished(&self, i: usize) -> bool {
        // Find how it was created; clones lead back to the original.
        let mut made: Vec<(bool, usize)> = vec![];
        let mut keyed: Vec<bool> = vec![];
        for op in &self.out {
            match op {
                Op::Params { alg, setters, .. } => {
                    let mut t = TParams { alg: *alg, keyed: false, hash_length: 0 };
                    Self::track(&mut t, setters);
                    keyed.push(t.keyed);
                }
                Op::Set { p, setters } => {
                    let mut t = TParams { alg: self.ps[*p].alg, keyed: keyed[*p], hash_length: 0 };
                    Self::track(&mut t, setters);
                    keyed[*p] = t.keyed;
                }
                Op::NewJob { p, d } => made.push((keyed[*p], d.len)),
                Op::CloneJob { j } => made.push(made[*j]),
                _ => {}
            }
        }
        !made[i].0 || made[i].1 > 0
    }

    /// Looks at the jobs that the last batch did not yield: they must not have run.
    pub fn look_at_rest(&mut self) {
        if let Some(Op::RunJobs { js, mode: 1 }) = self.out.last() {
            let rest: Vec<usize> = js[js.len() * 2 / 3..].to_vec();
            for j in rest {
                if !self.js[j].1 && self.job_unfinished(j) {
                    self.out.push(Op::Misuse { kind: 2, slot: j });
                }
            }
        }
    }

    pub fn run_jobs(&mut self, js: Vec<usize>, mode: u8) {
        let cut = if mode == 1 { js.len() * 2 / 3 } else { js.len() };
        for j in &js[..cut] {
            self.js[*j].1 = true;
        }
        for j in &js[cut..] {
            self.js[*j].2 = true;
        }
        self.out.push(Op::RunJobs { js, mode });
    }

    pub fn finish(mut self) -> Vec<Op> {
        if self.p.close {
            for a in [Alg::B, Alg::S] {
                let js: Vec<usize> = (0..self.js.len()).filter(|i| self.js[*i].0 == a && !self.js[*i].1).collect();
                if !js.is_empty() {
                    self.run_jobs(js, 0);
                }
            }
            for j in 0..self.js.len() {
                self.out.push(Op::JobHash { j });
            }
            for s in 0..self.ss.len() {
                self.out.push(Op::Finalize { s });
                self.out.push(Op::Count { s });
            }
        }
        self.out
    }
}

/// A history: parameter sets, states made from them, then operations.
pub fn history(
    p: Profile,
    nparams: std::ops::RangeInclusive<usize>,
    nstates: std::ops::RangeInclusive<usize>,
    nops: std::ops::Range<usize>,
) -> BoxedStrategy<Vec<Op>> {
    (vec(rparams(p.algs, p.ps), nparams), vec(any::<u16>(), nstates), vec(rop(p), nops))
        .prop_map(move |(ps, ss, ops)| {
            let mut n = Norm::new(p);
            for q in &ps {
                n.params(q);
            }
            for s in &ss {
                if !ps.is_empty() {
                    n.state(*s as usize % ps.len());
                }
            }
            for o in &ops {
                n.op(o);
            }
            n.finish()
        })
        .boxed()
}

pub fn single(s: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Case> {
    s.prop_map(|ops| Case { threads: vec![ops] }).boxed()
}
