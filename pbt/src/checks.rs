//! The checks: for each property, the generators, configurations, and what counts as non-trivial.

use crate::case::*;
use crate::gen::*;
use crate::refer::Blame;
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;

const BS: &[Alg] = &[Alg::B, Alg::S];
const PAR: &[Alg] = &[Alg::Bp, Alg::Sp];
const ALL: &[Alg] = &Alg::ALL;

const ALLOC: &[&str] = &["alloc-std", "alloc-sse41", "alloc-nostd"];
const GUIDED_ALLOC: &[&str] = &["cov-std", "cov-sse41", "cov-nostd", "alloc-std", "alloc-sse41", "alloc-nostd"];

/// The three implementations, telling what they reach
const COV: &[&str] = &["cov-std", "cov-nostd", "cov-sse41"];

/// The three implementations
const IMPLS: &[&str] = &["std", "nostd", "sse41"];

fn hist(p: Profile, np: std::ops::RangeInclusive<usize>, ns: std::ops::RangeInclusive<usize>, no: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    single(history(p, np, ns, no))
}

/// One-shot hashing of serial or parallel algorithms.
fn oneshot(algs: &'static [Alg], lens: Lens, cap: usize) -> BoxedStrategy<Case> {
    hist(Profile { algs, lens, cap, total: 4 * cap, hash: 1, close: false, ..NONE }, 1..=3, 0..=0, 1..5)
}

/// Very many calls on the same few objects, with little data.
fn marathon(algs: &'static [Alg]) -> BoxedStrategy<Case> {
    let n = prop_oneof![4 => 200usize..3000, 2 => 32_000usize..33_500, 4 => 65_300usize..66_500];
    (n, rparams(algs, Ps::Legal), any::<u64>(), 0u8..4, 0usize..6)
        .prop_map(|(n, q, seed, kind, max)| {
            let mut norm = Norm::new(NONE);
            norm.params(&q);
            let mut ops = norm.finish();
            ops.push(Op::NewState { p: 0 });
            ops.push(Op::NewState { p: 0 });
            for i in 0..n {
                let x = (seed.wrapping_add(i as u64)).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20;
                let s = (x >> 30) as usize % 8 / 7;
                let update = |len: usize| Op::Update { s, d: Data { pat: 3, seed: x, len, off: 0 } };
                ops.push(match (kind, x % 16) {
                    (0, _) => update((x >> 8) as usize % (max + 1)),
                    // what is fed stays short where digests are many
                    (1, 0..=8) => Op::Finalize { s },
                    (2, 0..=4) if !q.alg.is_par() => Op::SetLast { s, b: x & 32 != 0 },
                    (2, 5) => Op::Count { s },
                    (3, 0..=2) => Op::CloneFrom { s, from: 1 - s },
                    (3, 3) => Op::Count { s },
                    (1, _) => update((x % 200 == 9) as usize),
                    _ => update((x >> 8) as usize % (max + 1)),
                });
            }
            for s in 0..2 {
                ops.push(Op::Count { s });
                ops.push(Op::Finalize { s });
            }
            Case { threads: vec![ops] }
        })
        .boxed()
}

/// Pieces of 16 to 64 MiB.
fn huge(p: Profile) -> BoxedStrategy<Case> {
    hist(Profile { lens: Lens::Huge, cap: 1 << 26, total: 3 << 26, ..p }, 1..=2, 1..=2, 1..8)
}

/// Whole inputs to the plain functions of the types the C implementation has.
fn plain(lens: Lens, cap: usize) -> BoxedStrategy<Case> {
    let alg = prop_oneof![Just(Alg::B), Just(Alg::Bp), Just(Alg::Sp)];
    vec((alg, rdata(lens)), 1..6)
        .prop_map(move |v| {
            let mut n = Norm::new(Profile { lens, cap, total: 6 * cap, ..NONE });
            for (a, d) in v {
                n.op(&ROp::Free(a, d));
            }
            Case { threads: vec![n.finish()] }
        })
        .boxed()
}

/// Over 4 GiB to one of them.
fn plain_long(w: usize) -> BoxedStrategy<Case> {
    (0usize..4096, 0usize..(1 << 20))
        .prop_map(move |(extra, start)| {
            let d = Data { pat: PAT_BIG, seed: start as u64, len: (1usize << 32) + extra, off: 0 };
            Case { threads: vec![vec![Op::Free { alg: [Alg::B, Alg::Bp, Alg::Sp][w % 3], d }]] }
        })
        .boxed()
}

const INCR: Profile = Profile { update: 40, write: 5, run: 6, fin: 14, clone: 4, setlast: 6, newstate: 2, ..NONE };

fn incremental(algs: &'static [Alg], lens: Lens, cap: usize) -> BoxedStrategy<Case> {
    hist(Profile { algs, lens, cap, total: 4 * cap, ..INCR }, 1..=2, 1..=3, 1..30)
}

/// A list of jobs with related lengths, run in several batches.
fn job_lists(max: usize, lens: Lens, cap: usize, ps: Ps) -> BoxedStrategy<Case> {
    let p = Profile { lens, cap, total: (1 << 20).max(cap * 4), ps, ..NONE };
    let n = prop_oneof![
        6 => 0..10usize.min(max + 1),
        4 => 0..20usize.min(max + 1),
        2 => 0..70usize.min(max + 1),
        1 => 0..max + 1,
    ];
    let params = vec(rparams(BS, ps), 1..=4);
    // how lengths relate: 0 independent, 1 all equal, 2 staircase, 3 all equal but one, 4 two values
    let jobs = n.prop_flat_map(move |n| (vec((any::<u16>(), rdata(lens)), n..=n), 0u8..5, any::<u16>()));
    let batches = vec((vec(any::<u16>(), 0..=max.min(60)), 0u8..4, 0..MODES, any::<bool>()), 1..4);
    (params, jobs, batches)
        .prop_map(move |(params, (jobs, shape, odd), batches)| {
            let mut n = Norm::new(p);
            // mostly one algorithm, so that batches are large
            let one = odd % 4 != 0;
            for (i, q) in params.iter().enumerate() {
                let mut q = q.clone();
                if one {
                    q.alg = params[0].alg;
                }
                let _ = i;
                n.params(&q);
            }
            let base = jobs.first().map(|j| j.1.len);
            let jobs: Vec<(u16, RData)> = jobs
                .iter()
                .enumerate()
                .map(|(i, (p, d))| {
                    let mut d = *d;
                    let base = base.unwrap();
                    match shape {
                        1 => d.len = base,
                        2 => d.len = Len { kind: 2, k: i as u32, delta: base.delta },
                        3 if i != odd as usize % jobs.len() => d.len = base,
                        4 if i % 3 != 0 => d.len = base,
                        _ => {}
                    }
                    (*p, d)
                })
                .collect();
            // batches may start before all the jobs exist
            let k = if batches.len() > 1 { jobs.len() * (odd as usize % 5) / 4 } else { jobs.len() };
            let k = k.min(jobs.len());
            n.op(&ROp::NewJobs(jobs[..k].to_vec()));
            for (i, (sel, how, mode, read)) in batches.iter().enumerate() {
                if i == 1 {
                    n.op(&ROp::NewJobs(jobs[k..].to_vec()));
                }
                if *read {
                    n.op(&ROp::CloneJob(sel.first().copied().unwrap_or(0)));
                }
                n.op(&ROp::RunJobs(*how, sel.clone(), *mode));
                n.look_at_rest();
                if *read {
                    for s in sel.iter().take(3) {
                        n.op(&ROp::JobHash(*s));
                    }
                }
            }
            Case { threads: vec![n.finish()] }
        })
        .boxed()
}

/// Thousands of jobs or states in one batch, sometimes more than 2^16.
fn crowd(states: bool) -> BoxedStrategy<Case> {
    let n = prop_oneof![6 => 1000usize..6000, 2 => 6000usize..20_000, 1 => 65_530usize..70_000];
    (n, vec(rparams(BS, Ps::Legal), 1..=3), any::<u64>(), 0..MODES, any::<bool>())
        .prop_map(move |(n, params, seed, mode, keyed)| {
            let mut norm = Norm::new(NONE);
            let mut algs = vec![];
            for q in &params {
                let mut q = q.clone();
                q.alg = params[0].alg;
                if !keyed {
                    q.setters.retain(|s| !matches!(s, RSetter::Key(..)));
                }
                algs.push(q.alg);
                norm.params(&q);
            }
            let mut ops = norm.finish();
            let block = params[0].alg.block();
            let data = |i: usize| {
                let x = seed.wrapping_add(i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                Data { pat: 3, seed: x, len: (x >> 40) as usize % (block * if states { 3 } else { 2 }), off: 0 }
            };
            // a few are looked at: the first, the last, and some in between
            let look: Vec<usize> = (0..60).map(|i| (seed >> 7) as usize % n * (i % 7) % n).chain([0, 1, n / 2, n - 2, n - 1]).chain((255..=257).filter(|i| *i < n)).chain((65_534..65_538).filter(|i| *i < n)).collect();
            if states {
                for i in 0..n {
                    ops.push(Op::NewState { p: i % params.len() });
                }
                ops.push(Op::UpdMany { pairs: (0..n).map(|s| (s, data(s))).collect(), mode });
                ops.push(Op::UpdMany { pairs: (0..n).map(|s| (s, data(s ^ 1))).collect(), mode: 0 });
                for s in look {
                    ops.push(Op::Finalize { s });
                }
            } else {
                for i in 0..n {
                    ops.push(Op::NewJob { p: i % params.len(), d: data(i) });
                }
                ops.push(Op::RunJobs { js: (0..n).collect(), mode: if mode == 1 { 0 } else { mode } });
                for j in look {
                    ops.push(Op::JobHash { j });
                }
            }
            Case { threads: vec![ops] }
        })
        .boxed()
}

const MANY: Profile = Profile {
    update: 12,
    write: 1,
    fin: 4,
    count: 2,
    clone: 2,
    setlast: 3,
    newstate: 1,
    updmany: 20,
    ..NONE
};

fn update_many(lens: Lens, cap: usize, ns: std::ops::RangeInclusive<usize>, ops: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    hist(Profile { lens, cap, total: (3 << 19).max(cap * 4), batch_max: 40, ..MANY }, 1..=4, ns, ops)
}

/// A little of everything
const EVERYTHING: Profile = Profile {
    algs: ALL,
    ps: Ps::Mixed,
    update: 14,
    write: 2,
    run: 2,
    fin: 6,
    count: 2,
    clone: 2,
    setlast: 3,
    newstate: 3,
    params: 2,
    set: 2,
    hash: 4,
    updmany: 8,
    jobs: 4,
    hashes: 1,
    degree: 1,
    ..NONE
};

/// States and jobs whose byte counter starts just below a boundary.
fn counters(lens: Lens, cap: usize) -> BoxedStrategy<Case> {
    counters_of(ALL, true, true, lens, cap)
}

/// The same, of some types only, and perhaps without jobs or `update_many`.
fn counters_of(types: &'static [Alg], jobs: bool, many: bool, lens: Lens, cap: usize) -> BoxedStrategy<Case> {
    #[derive(Clone, Debug)]
    struct Start {
        bits: u8,
        mult: u8,
        below: u16,
    }
    let start = || (prop_oneof![4 => 0u8..8, 1 => 24u8..125], 1u8..5, prop_oneof![8 => 0u16..40, 1 => 0u16..600]).prop_map(|(bits, mult, below)| Start { bits, mult, below });
    fn value(s: &Start, a: Alg) -> u128 {
        // the counter of one node, in bytes
        let bits = match (a.is_b(), s.bits) {
            // anywhere, as long as the total of all leaves fits in the type of the count
            (true, b) if b >= 24 => (b as u32).min(if a.is_par() { 120 } else { 124 }),
            (false, b) if b >= 24 => 24 + (b as u32 - 24) % if a.is_par() { 34 } else { 37 },
            (true, 0..=3) => 64,
            (true, 4) => 32,
            (true, 5) => 63,
            (true, 6) => 96,
            (true, _) => 120,
            (false, 0..=4) => 32,
            (false, 5) => 31,
            (false, 6) => 48,
            (false, _) => 57,
        };
        let block = a.block() as u128;
        let v = (s.mult as u128) << bits;
        v - block * (s.below as u128).min(v / block)
    }
    let p = Profile { algs: types, lens, cap, total: 1 << 20, update: 20, write: 2, fin: 6, count: 6, clone: 2, setlast: 2, updmany: if many { 10 } else { 0 }, jobs: 0, batch_max: 20, ..NONE };
    let params = vec(rparams(types, Ps::Mixed), 1..=3);
    let objs = vec((any::<u16>(), start(), 0u8..4, rdata(Lens::Batch)), 1..14);
    let ops = vec(rop(p), 1..14);
    (params, objs, ops, any::<u16>(), 0u8..4, 0..MODES, any::<u8>())
        .prop_map(move |(params, objs, ops, sel, how, mode, keys)| {
            let mut n = Norm::new(p);
            let one = sel % 4 != 0;
            let (mut algs, mut keyed) = (vec![], vec![]);
            for q in &params {
                let mut q = q.clone();
                if one {
                    q.alg = params[0].alg;
                }
                // jobs compress their key at once: only states can have one
                if keys % 3 != 0 {
                    q.setters.retain(|s| !matches!(s, RSetter::Key(..)));
                }
                keyed.push(q.setters.iter().any(|s| matches!(s, RSetter::Key(..))));
                algs.push(q.alg);
                n.params(&q);
            }
            for (i, (s, st, kind, d)) in objs.iter().enumerate() {
                let pi = *s as usize % params.len();
                let a = algs[pi];
                // often the same start for all, so that lanes cross together or one by one
                let st = if sel % 3 == 0 { Start { below: objs[0].1.below + i as u16 % 3, ..objs[0].1 } } else { st.clone() };
                let v = value(&st, a);
                if jobs && (*kind == 0 || !many) && !a.is_par() && !keyed[pi] {
                    let j = n.jobs_len();
                    n.op(&ROp::NewJobs(vec![(n.serial_index(pi), *d)]));
                    if n.jobs_len() > j {
                        n.push(Op::AddCountJob { j, n: v });
                    }
                } else {
                    let k = n.states_len();
                    n.state(pi);
                    n.push(Op::AddCount { s: k, n: v });
                }
            }
            n.op(&ROp::RunJobs(how, vec![sel], mode));
            for o in &ops {
                n.op(o);
            }
            Case { threads: vec![n.finish()] }
        })
        .boxed()
}

/// The longest pieces a 32-bit machine can hold, and totals beyond 32 bits made of them.
fn long32(w: usize) -> BoxedStrategy<Case> {
    let len = prop_oneof![
        3 => (0usize..700).prop_map(|k| (1 << 31) - 1 - k),
        2 => (0usize..700, 1usize..4).prop_map(|(k, m)| (m << 29) + k - 350),
        1 => (1usize << 28)..(1 << 31),
    ];
    (vec(len, 4), 0usize..(1 << 20), any::<u64>(), 1usize..3000, any::<bool>(), 0usize..4)
        .prop_map(move |(lens, start, seed, head, last, kind)| {
            let w = w % 4 + kind * 4;
            let big = |start: usize, len: usize| Data { pat: PAT_BIG, seed: start as u64, len, off: 0 };
            let small = |i: u64| Data { pat: 3, seed: seed ^ i, len: (seed >> 3) as usize % 700 + i as usize, off: 1 };
            let alg = if kind < 2 { ALL[w % 4] } else { BS[w % 2] };
            let setters = if alg.is_par() { vec![] } else { vec![Setter::LastNode(last), Setter::NodeOffset(3)] };
            let mut ops = vec![Op::Params { alg, dflt: false, setters }];
            let n = 3 + (seed >> 20) as usize % 3;
            let at = (seed >> 30) as usize % n;
            let data = |i: usize| if i == at { big(start, lens[0]) } else { small(i as u64) };
            match w {
                0..=3 => ops.push(Op::Hash { p: 0, d: big(start, lens[0]) }),
                4..=7 => {
                    ops.push(Op::NewState { p: 0 });
                    let mut at = start;
                    for len in [head, lens[0], lens[1], lens[2] / 2, head] {
                        ops.push(Op::Update { s: 0, d: big(at, len) });
                        ops.push(Op::Count { s: 0 });
                        at += len;
                    }
                    ops.push(Op::CloneState { s: 0 });
                    ops.push(Op::Finalize { s: 1 });
                    ops.push(Op::Finalize { s: 0 });
                }
                8..=11 => {
                    ops.extend((0..n).map(|i| Op::NewJob { p: 0, d: data(i) }));
                    ops.push(Op::RunJobs { js: (0..n).collect(), mode: 0 });
                    ops.extend((0..n).map(|j| Op::JobHash { j }));
                }
                _ => {
                    ops.extend((0..n).map(|_| Op::NewState { p: 0 }));
                    ops.push(Op::UpdMany { pairs: (0..n).map(|i| (i, data(i))).collect(), mode: 0 });
                    for s in 0..n {
                        ops.push(Op::Count { s });
                        ops.push(Op::Finalize { s });
                    }
                }
            }
            Case { threads: vec![ops] }
        })
        .boxed()
}

/// Some kinds of the following.
fn long_of(kinds: &'static [usize], w: usize) -> BoxedStrategy<Case> {
    long(kinds[w % kinds.len()])
}

/// Real inputs of more than 4 GiB, one kind per worker.
fn long(w: usize) -> BoxedStrategy<Case> {
    let extra = prop_oneof![0usize..4096, 0usize..(1 << 27)];
    let start = 0usize..(1 << 20);
    (extra, start, any::<u64>(), 1usize..3000, any::<bool>())
        .prop_map(move |(extra, start, seed, head, last)| {
            let len = (1usize << 32) + extra;
            let big = |start: usize, len: usize| Data { pat: PAT_BIG, seed: start as u64, len, off: 0 };
            let small = |i: u64| Data { pat: 3, seed: seed ^ i, len: (seed >> 3) as usize % 700 + i as usize, off: 1 };
            let par = |alg: Alg, setters: Vec<Setter>| Op::Params { alg, dflt: false, setters };
            let ln = |alg: Alg| if alg.is_par() { vec![] } else { vec![Setter::LastNode(last), Setter::NodeOffset(3)] };
            let mut ops = vec![];
            match w % 16 {
                // as many long inputs as the SIMD loops take side by side, one of them shorter
                k @ 12..=15 => {
                    let alg = BS[k % 2];
                    let n = [2, 4, 4, 8][k - 12];
                    ops.push(par(alg, ln(alg)));
                    let short = seed as usize / 2 % n;
                    let data = |i: usize| big(start, if i == short { len } else { len + head });
                    if k < 14 {
                        ops.extend((0..n).map(|i| Op::NewJob { p: 0, d: data(i) }));
                        ops.push(Op::RunJobs { js: (0..n).collect(), mode: 0 });
                        ops.extend((0..n).map(|j| Op::JobHash { j }));
                    } else {
                        ops.extend((0..n).map(|_| Op::NewState { p: 0 }));
                        ops.push(Op::UpdMany { pairs: (0..n).map(|i| (i, data(i))).collect(), mode: 0 });
                        for s in 0..n {
                            ops.push(Op::Count { s });
                            ops.push(Op::Finalize { s });
                        }
                    }
                }
                // one call
                0 | 1 | 2 | 3 => {
                    let alg = ALL[w % 4];
                    ops.push(par(alg, ln(alg)));
                    ops.push(Op::Hash { p: 0, d: big(start, len) });
                }
                // two updates, the second one long, with the count
                4 | 5 | 6 | 7 => {
                    let alg = ALL[w % 4];
                    ops.push(par(alg, ln(alg)));
                    ops.push(Op::NewState { p: 0 });
                    ops.push(Op::Update { s: 0, d: big(start, head) });
                    ops.push(Op::Update { s: 0, d: big(start + head, len) });
                    ops.push(Op::Count { s: 0 });
                    ops.push(Op::Finalize { s: 0 });
                    ops.push(Op::Update { s: 0, d: big(start + head + len, head) });
                    ops.push(Op::Count { s: 0 });
                    ops.push(Op::CloneState { s: 0 });
                    ops.push(Op::Finalize { s: 1 });
                }
                // a batch of jobs, one of them long
                8 | 9 => {
                    let alg = BS[w % 2];
                    ops.push(par(alg, ln(alg)));
                    for i in 0..5 {
                        let d = if i == seed as usize / 2 % 5 { big(start, len) } else { small(i as u64) };
                        ops.push(Op::NewJob { p: 0, d });
                    }
                    ops.push(Op::RunJobs { js: (0..5).collect(), mode: 0 });
                    for j in 0..5 {
                        ops.push(Op::JobHash { j });
                    }
                }
                // a batch of states, one of them with long input
                _ => {
                    let alg = BS[w % 2];
                    ops.push(par(alg, ln(alg)));
                    let mut pairs = vec![];
                    for i in 0..5 {
                        ops.push(Op::NewState { p: 0 });
                        let d = if i == seed as usize / 2 % 5 { big(start, len) } else { small(i as u64) };
                        pairs.push((i, d));
                    }
                    ops.push(Op::UpdMany { pairs, mode: 0 });
                    for s in 0..5 {
                        ops.push(Op::Count { s });
                        ops.push(Op::Finalize { s });
                    }
                }
            }
            Case { threads: vec![ops] }
        })
        .boxed()
}

/// Two copies of a history that differ only in key bytes and message bytes.
fn twins(p: Profile) -> BoxedStrategy<Case> {
    (history(p, 1..=3, 0..=4, 2..30), any::<u64>()).prop_map(|(ops, x)| twin(ops, x)).boxed()
}

fn twin(ops: Vec<Op>, x: u64) -> Case {
            let x = x | 1;
            let vary = |ops: &[Op], x: u64| -> Vec<Op> {
                // now and then the second of the twins has only zeros, or only ones
                let pat = match x % 16 {
                    1 | 3 => 0,
                    5 => 1,
                    _ => 3,
                };
                let d = |d: &Data| Data { pat, seed: d.seed ^ x, ..*d };
                let setters = |v: &Vec<Setter>| -> Vec<Setter> {
                    v.iter().map(|s| if let Setter::Key(k) = s { Setter::Key(d(k)) } else { *s }).collect()
                };
                ops.iter()
                    .map(|o| match o {
                        Op::Params { alg, dflt, setters: v } => Op::Params { alg: *alg, dflt: *dflt, setters: setters(v) },
                        Op::Set { p, setters: v } => Op::Set { p: *p, setters: setters(v) },
                        Op::Update { s, d: e } => Op::Update { s: *s, d: d(e) },
                        Op::Write { s, d: e } => Op::Write { s: *s, d: d(e) },
                        Op::WriteAll { s, d: e } => Op::WriteAll { s: *s, d: d(e) },
                        Op::IoCopy { s, d: e } => Op::IoCopy { s: *s, d: d(e) },
                        Op::WriteVec { s, ds } => Op::WriteVec { s: *s, ds: ds.iter().map(d).collect() },
                        Op::NewJob { p, d: e } => Op::NewJob { p: *p, d: d(e) },
                        Op::UpdMany { pairs, mode } => {
                            Op::UpdMany { pairs: pairs.iter().map(|(s, e)| (*s, d(e))).collect(), mode: *mode }
                        }
                        o => o.clone(),
                    })
                    .collect()
            };
            let mut ops = ops;
            if x % 5 == 0 {
                // large counts, as after very long inputs
                let bits = [20, 32, 33, 40, 52][(x >> 8) as usize % 5];
                for i in (0..ops.len()).rev() {
                    if matches!(ops[i], Op::NewState { .. } | Op::DefState { .. }) && (x >> (i % 30 + 12)) % 2 == 0 {
                        let s = ops[..i].iter().filter(|o| matches!(o, Op::NewState { .. } | Op::DefState { .. } | Op::CloneState { .. })).count();
                        ops.insert(i + 1, Op::AddCount { s, n: 1 << bits });
                    }
                }
            }
            Case { threads: vec![vary(&ops, 0), vary(&ops, x)] }
}

/// The same, of a history that is already there.
fn with_twin(c: &Case) -> Case {
    let ops = c.threads[0].clone();
    let x = ops.iter().fold(7u64, |h, o| o.enc().bytes().fold(h, |h, b| mix(h ^ b as u64)));
    // raised counters are in it already, if any
    twin(ops, if x % 5 == 0 { x + 1 } else { x })
}

const SECRETS: Profile = Profile {
    algs: ALL,
    ps: Ps::Mixed,
    lens: Lens::Chunk,
    cap: 5000,
    total: 1 << 16,
    update: 8,
    write: 1,
    clone: 2,
    setlast: 2,
    newstate: 3,
    set: 3,
    updmany: 4,
    jobs: 4,
    debug: 30,
    ..NONE
};

fn threads(p: Profile, n: std::ops::RangeInclusive<usize>, ops: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    hammer(p, n, ops, 1)
}

/// Threads that do the same short things over and over, so that the time in which a race can
/// happen adds up.
fn hammer(p: Profile, n: std::ops::RangeInclusive<usize>, ops: std::ops::Range<usize>, reps: usize) -> BoxedStrategy<Case> {
    // part of the time all the threads do the same thing
    (vec(history(p, 1..=3, 1..=4, ops), n), any::<u8>())
        .prop_map(move |(mut t, same)| {
            if same % 3 == 0 {
                for i in 1..t.len() {
                    t[i] = t[0].clone();
                }
            }
            if reps > 1 {
                for h in &mut t {
                    h.insert(0, Op::Repeat { n: reps });
                }
            }
            Case { threads: t }
        })
        .boxed()
}

const TINY: Profile = Profile { lens: Lens::Tiny, cap: 1400, total: 3000, batch_max: 12, ..EVERYTHING };

pub fn find(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => Check {
            id: "C01",
            blame: Blame::Spec,
            groups: vec![
                Group { name: "one-shot, any parameters", cfgs: IMPLS, make: |_| oneshot(BS, Lens::Message, 1 << 17), quick: 300_000, thorough: 15_000_000, ..GROUP },
                Group { name: "one-shot, long messages", cfgs: IMPLS, make: |_| oneshot(BS, Lens::Long, 1 << 24), quick: 1_000, thorough: 300_000, ..GROUP },
                Group { name: "one-shot, longer messages", cfgs: IMPLS, make: |_| huge(Profile { algs: BS, hash: 1, close: false, ..NONE }), quick: 48, thorough: 10_000, limit: 200, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["std"], make: |w| long_of(&[0, 1], w), quick: 2, thorough: 16, workers: 2, limit: 500, ..GROUP },
                Group { name: "guided by coverage", cfgs: COV, make: |_| oneshot(BS, Lens::Message, 1 << 15), quick: 200000, thorough: 10000000, guided: true, ..GROUP },
            ],
            rule: "1-3 parameter sets from 0-19 legal setter calls each, then 1-4 one-shot hashes of generated messages (lengths aimed at block and lane boundaries); messages of up to 64 MiB, and over 4 GiB; every digest compared with the specification model on the AVX2, SSE4.1 and portable implementations; non-trivial: at least one non-default parameter and at least one whole block of message",
            nontrivial: |_, f| f.setters > 0 && f.blocks >= 1,
            assumptions: &["a build without std and without target features runs the portable code, with +sse4.1 the SSE4.1 code, and the default build on this machine the AVX2 code"],
        },
        "C02" => Check {
            id: "C02",
            blame: Blame::Spec,
            groups: vec![
                Group { name: "update/finalize/clone/flag histories", cfgs: IMPLS, make: |_| incremental(BS, Lens::Chunk, 1 << 16), quick: 200_000, thorough: 10_000_000, ..GROUP },
                Group { name: "long chunks", cfgs: IMPLS, make: |_| incremental(BS, Lens::Long, 1 << 22), quick: 500, thorough: 200_000, ..GROUP },
                Group { name: "very many calls", cfgs: IMPLS, make: |_| marathon(BS), quick: 100, thorough: 5_000, limit: 200, ..GROUP },
                Group { name: "longer chunks", cfgs: IMPLS, make: |_| huge(Profile { algs: BS, run: 0, ..INCR }), quick: 48, thorough: 10_000, limit: 200, ..GROUP },
                Group { name: "large counters", cfgs: IMPLS, make: |_| counters_of(BS, false, false, Lens::Chunk, 1 << 13), quick: 40000, thorough: 2000000, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["std"], make: |w| long_of(&[4, 5], w), quick: 2, thorough: 16, workers: 2, limit: 500, ..GROUP },
                Group { name: "guided by coverage", cfgs: COV, make: |_| incremental(BS, Lens::Chunk, 1 << 13), quick: 150000, thorough: 7500000, guided: true, ..GROUP },
            ],
            rule: "histories of up to 30 operations (each 'run' is up to 300 small updates) over 1-3 states and their clones, some with chunks of up to 64 MiB or over 4 GiB, tens of thousands of calls, or byte counters raised through the hook; every finalization, and a final one of every state, compared with the model's digest of all bytes fed; non-trivial: at least 2 updates, 2 finalizations and more than one block",
            nontrivial: |_, f| f.updates >= 2 && f.finals >= 2 && f.blocks >= 1,
            assumptions: &[],
        },
        "C03" => Check {
            id: "C03",
            blame: Blame::Spec,
            groups: vec![
                Group { name: "one-shot tree hashing", cfgs: IMPLS, make: |_| oneshot(PAR, Lens::Message, 1 << 17), quick: 300_000, thorough: 10_000_000, ..GROUP },
                Group { name: "long messages", cfgs: IMPLS, make: |_| oneshot(PAR, Lens::Long, 1 << 24), quick: 1_000, thorough: 300_000, ..GROUP },
                Group { name: "longer messages", cfgs: IMPLS, make: |_| huge(Profile { algs: PAR, hash: 1, close: false, ..NONE }), quick: 48, thorough: 10_000, limit: 200, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["std"], make: |w| long_of(&[2, 3], w), quick: 2, thorough: 16, workers: 2, limit: 500, ..GROUP },
                Group { name: "guided by coverage", cfgs: COV, make: |_| oneshot(PAR, Lens::Message, 1 << 15), quick: 120000, thorough: 6000000, guided: true, ..GROUP },
            ],
            rule: "1-3 parameter sets, 1-4 one-shot digests of generated messages, lengths aimed at block, stripe and double-stripe boundaries, some of up to 64 MiB or over 4 GiB; compared with a model that deals whole blocks to leaves; non-trivial: a message of more than one block",
            nontrivial: |_, f| f.blocks >= 1,
            assumptions: &[],
        },
        "C04" => Check {
            id: "C04",
            blame: Blame::Spec,
            groups: vec![
                Group { name: "update/finalize/clone histories", cfgs: IMPLS, make: |_| incremental(PAR, Lens::Chunk, 1 << 16), quick: 200_000, thorough: 8_000_000, ..GROUP },
                Group { name: "long chunks", cfgs: IMPLS, make: |_| incremental(PAR, Lens::Long, 1 << 22), quick: 500, thorough: 200_000, ..GROUP },
                Group { name: "very many calls", cfgs: IMPLS, make: |_| marathon(PAR), quick: 100, thorough: 5_000, limit: 200, ..GROUP },
                Group { name: "longer chunks", cfgs: IMPLS, make: |_| huge(Profile { algs: PAR, run: 0, ..INCR }), quick: 48, thorough: 10_000, limit: 200, ..GROUP },
                Group { name: "large counters", cfgs: IMPLS, make: |_| counters_of(PAR, false, false, Lens::Chunk, 1 << 13), quick: 40000, thorough: 2000000, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["std"], make: |w| long_of(&[6, 7], w), quick: 2, thorough: 16, workers: 2, limit: 500, ..GROUP },
                Group { name: "guided by coverage", cfgs: COV, make: |_| incremental(PAR, Lens::Chunk, 1 << 13), quick: 120000, thorough: 6000000, guided: true, ..GROUP },
            ],
            rule: "as C02 for the parallel variants, chunk lengths aimed at the distance to the next block, stripe and double stripe; non-trivial: at least 2 updates, 2 finalizations and more than one block",
            nontrivial: |_, f| f.updates >= 2 && f.finals >= 2 && f.blocks >= 1,
            assumptions: &[],
        },
        "C05" => Check {
            id: "C05",
            blame: Blame::JobsAlone,
            groups: vec![
                Group { name: "job lists", cfgs: IMPLS, make: |_| job_lists(300, Lens::Batch, 1 << 15, Ps::Legal), quick: 150_000, thorough: 8_000_000, ..GROUP },
                Group { name: "job lists, some portable", cfgs: &["std", "sse41"], make: |_| job_lists(40, Lens::Batch, 1 << 14, Ps::Mixed), quick: 100_000, thorough: 4_000_000, ..GROUP },
                Group { name: "very many jobs", cfgs: IMPLS, make: |_| crowd(false), quick: 160, thorough: 5_000, limit: 200, ..GROUP },
                Group { name: "long jobs", cfgs: IMPLS, make: |_| job_lists(24, Lens::Long, 1 << 22, Ps::Mixed), quick: 500, thorough: 200_000, ..GROUP },
                Group { name: "longer jobs", cfgs: IMPLS, make: |_| job_lists(8, Lens::Huge, 3 << 24, Ps::Mixed), quick: 48, thorough: 10_000, limit: 200, ..GROUP },
                Group { name: "large counters", cfgs: IMPLS, make: |_| counters_of(BS, true, false, Lens::Batch, 1 << 13), quick: 30000, thorough: 1500000, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["std"], make: |w| long_of(&[8, 9, 12, 13], w), quick: 4, thorough: 16, workers: 4, limit: 500, ..GROUP },
                Group {
                    name: "histories with jobs",
                    cfgs: IMPLS,
                    make: |_| hist(Profile { lens: Lens::Batch, cap: 1 << 14, total: 1 << 18, jobs: 6, hash: 3, set: 3, params: 1, ..NONE }, 1..=4, 0..=0, 1..16),
                    quick: 60_000,
                    thorough: 3_000_000,
                    ..GROUP
                },
                Group { name: "guided by coverage", cfgs: COV, make: |_| job_lists(24, Lens::Batch, 1 << 13, Ps::Mixed), quick: 120000, thorough: 6000000, guided: true, ..GROUP },
            ],
            rule: "0-300 jobs over 1-4 parameter sets with independent, equal, staircase or one-odd lengths, run in 1-4 batches (subsets, permutations, repeats, unfused, chained, owned and unsized iterators), inputs of up to 48 MiB, some over 4 GiB, some byte counters raised through the hook; every job's digest compared with the model's digest of that input alone; non-trivial: a batch of at least 2 and a message of at least one block",
            nontrivial: |_, f| f.batch >= 2 && f.blocks >= 1,
            assumptions: &[],
        },
        "C06" => Check {
            id: "C06",
            blame: Blame::OneByOne,
            groups: vec![
                Group { name: "few states, long histories", cfgs: IMPLS, make: |_| update_many(Lens::Chunk, 1 << 14, 1..=20, 1..20), quick: 100_000, thorough: 5_000_000, ..GROUP },
                Group { name: "very many states", cfgs: IMPLS, make: |_| crowd(true), quick: 160, thorough: 5_000, limit: 200, ..GROUP },
                Group { name: "long pieces", cfgs: IMPLS, make: |_| update_many(Lens::Long, 1 << 22, 1..=12, 1..12), quick: 500, thorough: 200_000, ..GROUP },
                Group { name: "longer pieces", cfgs: IMPLS, make: |_| huge(Profile { lens: Lens::Huge, ..MANY }), quick: 48, thorough: 10_000, limit: 200, ..GROUP },
                Group { name: "large counters", cfgs: IMPLS, make: |_| counters_of(BS, false, true, Lens::Chunk, 1 << 13), quick: 30000, thorough: 1500000, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["std"], make: |w| long_of(&[10, 11, 14, 15], w), quick: 4, thorough: 16, workers: 4, limit: 500, ..GROUP },
                Group { name: "many states", cfgs: IMPLS, make: |_| update_many(Lens::Batch, 1 << 12, 20..=300, 1..6), quick: 8_000, thorough: 500_000, ..GROUP },
                Group {
                    name: "some portable",
                    cfgs: &["std", "sse41"],
                    make: |_| hist(Profile { ps: Ps::Mixed, cap: 1 << 13, total: 1 << 19, ..MANY }, 2..=6, 2..=16, 1..12),
                    quick: 60_000,
                    thorough: 2_000_000,
                    ..GROUP
                },
                Group { name: "guided by coverage", cfgs: COV, make: |_| update_many(Lens::Chunk, 1 << 12, 1..=12, 1..12), quick: 120000, thorough: 6000000, guided: true, ..GROUP },
            ],
            rule: "1-300 states over 1-6 parameter sets, histories mixing update_many (all, subsets, permutations, five iterator shapes) with single updates, clones, flag changes, finalizations, some pieces of up to 64 MiB or over 4 GiB, some byte counters raised through the hook; digest and count of every state compared with the model at the end and in between; non-trivial: a batch of at least 2 and at least one block fed to some state",
            nontrivial: |_, f| f.batch >= 2 && f.blocks >= 1,
            assumptions: &[],
        },
        "C07" => Check {
            id: "C07",
            blame: Blame::Agree,
            groups: vec![
                Group {
                    name: "everything, every configuration",
                    cfgs: &["std", "nostd", "sse41", "nostd-avx2", "uninline", "native", "size", "std-checked"],
                    make: |_| hist(Profile { cap: 1 << 14, total: 1 << 17, ..EVERYTHING }, 1..=4, 1..=6, 2..30),
                    quick: 80_000,
                    thorough: 4_000_000,
                    ..GROUP
                },
                Group {
                    name: "batches, every configuration",
                    cfgs: &["std", "nostd", "sse41", "nostd-avx2", "uninline", "native", "size", "std-checked"],
                    make: |_| job_lists(60, Lens::Batch, 1 << 13, Ps::Mixed),
                    quick: 30_000,
                    thorough: 1_200_000,
                    ..GROUP
                },
                Group {
                    name: "large counters, every configuration",
                    cfgs: &["std", "nostd", "sse41", "nostd-avx2", "uninline", "native", "size", "std-checked"],
                    make: |_| counters(Lens::Chunk, 1 << 12),
                    quick: 12_000,
                    thorough: 600_000,
                    ..GROUP
                },
                Group {
                    name: "long inputs, every configuration",
                    cfgs: &["std", "nostd", "sse41", "nostd-avx2", "uninline", "native", "size", "std-checked"],
                    make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 21, total: 1 << 23, ..EVERYTHING }, 1..=3, 1..=3, 1..8),
                    quick: 1_500,
                    thorough: 60_000,
                    ..GROUP
                },
                Group { name: "longer inputs", cfgs: &["std", "nostd", "sse41", "nostd-avx2", "uninline", "native", "size", "std-checked"], make: |_| huge(Profile { run: 0, ..EVERYTHING }), quick: 24, thorough: 5_000, limit: 200, ..GROUP },
                Group { name: "guided by coverage", cfgs: COV, make: |_| hist(Profile { cap: 1 << 13, total: 1 << 15, ..EVERYTHING }, 1..=4, 1..=6, 2..30), quick: 80000, thorough: 4000000, guided: true, ..GROUP },
            ],
            rule: "histories over all types and operations (also with counters near word boundaries), with the portable implementation forced on some parameter sets so that portable and SIMD objects meet in one batch, run on every build configuration and compared with the one model; the reported degree is checked against its bounds; non-trivial: a digest of at least one block",
            nontrivial: |_, f| f.blocks >= 1 && f.finals >= 1,
            assumptions: &["x86-64 with AVX2 (degree 4 and 8); the non-x86 fallback is covered by C18"],
        },
        "C08" => Check {
            id: "C08",
            blame: Blame::Counts,
            groups: vec![
                Group {
                    name: "count histories",
                    cfgs: IMPLS,
                    make: |_| hist(Profile { algs: ALL, cap: 1 << 14, total: 1 << 18, count: 30, updmany: 4, ..INCR }, 1..=4, 1..=6, 2..30),
                    quick: 200_000,
                    thorough: 6_000_000,
                    ..GROUP
                },
                Group { name: "counts beyond 2^32 and 2^64", cfgs: IMPLS, make: |_| counters(Lens::Chunk, 1 << 13), quick: 80_000, thorough: 2_000_000, ..GROUP },
                Group { name: "very many calls", cfgs: IMPLS, make: |_| marathon(ALL), quick: 100, thorough: 5_000, limit: 200, ..GROUP },
                Group { name: "counts of long inputs", cfgs: IMPLS, make: |_| huge(Profile { algs: ALL, run: 0, count: 30, updmany: 4, ..INCR }), quick: 24, thorough: 5_000, limit: 200, ..GROUP },
                Group { name: "counts after real long inputs", cfgs: &["std"], make: |w| long(w + 4), quick: 4, thorough: 16, workers: 4, limit: 500, ..GROUP },
                Group { name: "guided by coverage", cfgs: COV, make: |w| if w % 2 == 0 { counters(Lens::Chunk, 1 << 12) } else { hist(Profile { algs: ALL, cap: 1 << 12, total: 1 << 15, count: 30, updmany: 4, ..INCR }, 1..=4, 1..=6, 2..30) }, quick: 100000, thorough: 5000000, guided: true, ..GROUP },
            ],
            rule: "histories over all four state types where the count is read after arbitrary operations, keyed or not; also with the counter preset near word boundaries through the hook; compared with the sum of the lengths fed; non-trivial: at least 2 count readings and 2 updates",
            nontrivial: |_, f| f.counts >= 2 && f.updates >= 2,
            assumptions: &["the hook's way of presetting a counter equals having hashed that many bytes, as far as the counter is concerned"],
        },
        "C09" => Check {
            id: "C09",
            blame: Blame::Spec,
            groups: vec![
                Group { name: "counter crosses a boundary", cfgs: &["std", "nostd", "sse41", "std-checked"], make: |_| counters(Lens::Chunk, 1 << 14), quick: 120_000, thorough: 5_000_000, ..GROUP },
                Group { name: "counter crosses a boundary, one-shot-like batches", cfgs: &["std", "nostd", "sse41"], make: |_| counters(Lens::Batch, 1 << 13), quick: 60_000, thorough: 2_000_000, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["std"], make: long, quick: 16, thorough: 64, workers: 16, limit: 500, ..GROUP },
                Group { name: "over 4 GiB, portable and SSE4.1", cfgs: &["nostd", "sse41"], make: long, quick: 0, thorough: 32, workers: 16, limit: 500, ..GROUP },
                Group { name: "guided by coverage", cfgs: COV, make: |_| counters(Lens::Chunk, 1 << 12), quick: 100000, thorough: 5000000, guided: true, ..GROUP },
            ],
            rule: "states and jobs of all types whose per-node byte counter is preset (hook) up to 600 blocks below a multiple of 2^31..2^124, then fed past it singly and in batches; and real inputs of more than 4 GiB through every interface; non-trivial: the case crosses or passes such a boundary with at least one digest",
            nontrivial: |_, f| (f.hook || f.big) && f.finals >= 1,
            assumptions: &["a counter preset through the hook behaves as one reached by hashing; the real long inputs check that for 2^32"],
        },
        "C10" => Check {
            id: "C10",
            blame: Blame::Canonical,
            groups: vec![
                Group {
                    name: "setter sequences",
                    cfgs: &["std", "nostd", "std-checked"],
                    make: |_| {
                        hist(
                            Profile { algs: ALL, ps: Ps::Any, lens: Lens::Batch, cap: 600, total: 1 << 15, update: 4, fin: 2, newstate: 6, params: 4, set: 10, hash: 8, jobs: 2, ..NONE },
                            1..=3,
                            0..=2,
                            1..16,
                        )
                    },
                    quick: 200_000,
                    thorough: 15_000_000,
                    ..GROUP
                },
                Group { name: "guided by coverage", cfgs: COV, make: |_| hist(
                            Profile { algs: ALL, ps: Ps::Any, lens: Lens::Batch, cap: 600, total: 1 << 15, update: 4, fin: 2, newstate: 6, params: 4, set: 10, hash: 8, jobs: 2, ..NONE },
                            1..=3,
                            0..=2,
                            1..16,
                        ), quick: 150000, thorough: 7500000, guided: true, ..GROUP },
            ],
            rule: "sequences of setter calls with legal and illegal arguments (boundaries, limit+1, values legal only when truncated to a byte), interleaved with clones and uses; which calls panic, and every later digest, compared with a model that keeps the last legal value of each parameter; non-trivial: at least 3 setter calls with at least one digest",
            nontrivial: |_, f| f.setters >= 3 && f.finals >= 1,
            assumptions: &["a panicking setter is not required to leave its object usable: the driver goes on with the object as it was"],
        },
        "C11" => Check {
            id: "C11",
            blame: Blame::Spec,
            groups: vec![Group {
                name: "hash values",
                cfgs: &["std", "nostd", "std-checked"],
                make: |_| {
                    hist(
                        Profile { algs: ALL, lens: Lens::Chunk, cap: 500, total: 1 << 13, update: 4, newstate: 4, params: 2, hashes: 12, close: false, ..NONE },
                        1..=3,
                        1..=4,
                        2..50,
                    )
                },
                quick: 250_000,
                thorough: 20_000_000,
                ..GROUP
            },
                Group { name: "guided by coverage", cfgs: COV, make: |_| hist(Profile { algs: ALL, lens: Lens::Chunk, cap: 500, total: 1 << 13, update: 4, newstate: 4, params: 2, hashes: 12, close: false, ..NONE }, 1..=3, 1..=4, 2..50), quick: 200000, thorough: 10000000, guided: true, ..GROUP },
            ],
            rule: "hash values from finalizations of every length and from arrays (random, constant, single-bit), all views of them, and comparisons with each other and with slices equal, differing in one bit, shorter, longer, zero-extended; non-trivial: at least one comparison or view",
            nontrivial: |_, f| f.compares + f.views >= 1,
            assumptions: &["as_array of a shorter hash is only read where the documentation allows it"],
        },
        "C12" => Check {
            id: "C12",
            blame: Blame::Renderings,
            groups: vec![
                Group { name: "twin histories", cfgs: &["std", "nostd", "std-checked"], make: |_| twins(SECRETS), quick: 80_000, thorough: 10_000_000, judge: judge_twins, ..GROUP },
                Group { name: "guided by coverage", cfgs: &["cov-std", "std", "nostd", "std-checked"], make: |_| hist(Profile { cap: 2000, total: 1 << 14, ..SECRETS }, 1..=3, 0..=4, 2..30), quick: 80_000, thorough: 4_000_000, judge: judge_twins, dress: Some(with_twin), guided: true, ..GROUP },
            ],
            rule: "pairs of histories that differ only in key bytes and message bytes (in some, byte counters are raised through the hook); every debug rendering ({:?}, {:#?}, {:x?}) of params, states and jobs must be the same in both; non-trivial: at least one rendering, with a key or input involved",
            nontrivial: |_, f| f.debugs >= 2 && (f.keyed || f.bytes > 0),
            assumptions: &["message content is treated as secret, as the documentation says debug output hides the input state"],
        },
        "C17" => Check {
            id: "C17",
            blame: Blame::Alone,
            groups: vec![
                Group {
                    name: "threads",
                    cfgs: &["std", "sse41", "nostd"],
                    make: |_| threads(Profile { cap: 1 << 12, total: 1 << 15, hop: 2, ..EVERYTHING }, 2..=8, 2..16),
                    quick: 25_000,
                    thorough: 1_500_000,
                    ..GROUP
                },
                Group {
                    name: "threads, repeating",
                    cfgs: &["std", "sse41", "nostd"],
                    make: |_| hammer(Profile { cap: 1 << 10, total: 1 << 12, ..EVERYTHING }, 2..=8, 1..6, 60),
                    quick: 6_000,
                    thorough: 600_000,
                    ..GROUP
                },
                Group {
                    name: "threads, long pieces",
                    cfgs: &["std", "sse41", "nostd"],
                    make: |_| threads(Profile { lens: Lens::Long, cap: 1 << 20, total: 1 << 21, run: 0, ..EVERYTHING }, 2..=8, 1..5),
                    quick: 1_200,
                    thorough: 30_000,
                    ..GROUP
                },
                Group {
                    name: "shared by threads",
                    cfgs: &["std", "sse41", "nostd"],
                    make: |_| hist(Profile { cap: 1 << 12, total: 1 << 16, fan: 8, hop: 1, ..EVERYTHING }, 1..=6, 1..=10, 2..16),
                    quick: 10_000,
                    thorough: 600_000,
                    ..GROUP
                },
                Group {
                    name: "first use racing",
                    cfgs: &["std"],
                    make: |_| threads(Profile { cap: 1 << 11, total: 1 << 13, ..EVERYTHING }, 2..=8, 1..6),
                    quick: 12_000,
                    thorough: 600_000,
                    fresh: true,
                    ..GROUP
                },
                Group {
                    name: "many objects on one thread, moved",
                    cfgs: &["std", "sse41", "nostd"],
                    make: |_| hist(Profile { cap: 1 << 12, total: 1 << 17, hop: 4, ..EVERYTHING }, 2..=6, 4..=16, 10..60),
                    quick: 30_000,
                    thorough: 1_000_000,
                    ..GROUP
                },
            ],
            rule: "several histories over all types run at once on 2-8 threads (started together, with a fresh process for the racing first use), the same short histories 60 times over on every thread, objects moved to new threads in mid-history, objects asked through shared references by 2-8 threads at once, and one-thread histories over many objects; every observation compared with the model of each history alone; non-trivial: 2+ threads, or a move, or 4+ states",
            nontrivial: |_, f| f.threads >= 2 || f.hops > 0 || f.fans > 0 || f.states >= 4,
            assumptions: &["thread schedules are those the operating system happens to choose"],
        },
        "C18" => Check {
            id: "C18",
            blame: Blame::Spec,
            groups: vec![
                Group { name: "other targets", cfgs: &["s390x"], make: |_| hist(TINY, 1..=2, 1..=3, 1..10), quick: 320, thorough: 6_000, ..GROUP },
                Group { name: "32-bit", cfgs: &["i686"], make: |_| hist(TINY, 1..=2, 1..=3, 1..10), quick: 320, thorough: 6_000, ..GROUP },
                Group { name: "counters on other targets", cfgs: &["s390x", "i686"], make: |_| counters(Lens::Tiny, 600), quick: 96, thorough: 2_000, ..GROUP },
                Group { name: "32-bit big-endian", cfgs: &["powerpc"], make: |_| hist(TINY, 1..=2, 1..=3, 1..10), quick: 0, thorough: 3_000, ..GROUP },
                Group { name: "32-bit SIMD", cfgs: &["i686-sse41", "i686-avx2"], make: |_| hist(TINY, 1..=2, 1..=3, 1..10), quick: 0, thorough: 2_000, ..GROUP },
                Group { name: "WebAssembly", cfgs: &["wasm32", "wasm32-checked"], make: |_| hist(Profile { cap: 1 << 13, total: 1 << 15, debug: 1, ..EVERYTHING }, 1..=3, 1..=5, 2..30), quick: 60_000, thorough: 3_000_000, ..GROUP },
                Group { name: "WebAssembly: batches", cfgs: &["wasm32", "wasm32-checked"], make: |_| job_lists(40, Lens::Batch, 1 << 14, Ps::Mixed), quick: 10_000, thorough: 500_000, ..GROUP },
                Group { name: "WebAssembly: counters", cfgs: &["wasm32", "wasm32-checked"], make: |_| counters(Lens::Chunk, 1 << 13), quick: 20_000, thorough: 500_000, ..GROUP },
                Group { name: "WebAssembly: long pieces", cfgs: &["wasm32", "wasm32-checked"], make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 23, total: 1 << 24, ..EVERYTHING }, 1..=2, 1..=3, 2..10), quick: 300, thorough: 20_000, limit: 200, ..GROUP },
                Group { name: "WebAssembly: as long as memory allows", cfgs: &["wasm32"], make: long32, quick: 12, thorough: 200, workers: 4, limit: 500, ..GROUP },
                Group { name: "guided by coverage", cfgs: &["cov-nostd", "wasm32", "wasm32-checked"], make: |_| hist(Profile { cap: 1 << 12, total: 1 << 14, ..EVERYTHING }, 1..=3, 1..=5, 2..30), quick: 60_000, thorough: 3_000_000, guided: true, ..GROUP },
            ],
            rule: "histories over all types, compared with the model: with little data, interpreted by Miri for s390x (big-endian, 64-bit) and i686 (little-endian, 32-bit), in the thorough tier also powerpc (big-endian, 32-bit) and i686 with SSE4.1 and AVX2; with everything from empty to 16 MiB pieces, in WebAssembly (32-bit), where pieces also come within a few bytes of the longest possible, 2^31-1, and totals exceed 2^32; non-trivial: at least one digest",
            nontrivial: |_, f| f.finals >= 1,
            assumptions: &["Miri interprets the targets faithfully"],
        },
        "C19" => Check {
            id: "C19",
            blame: Blame::Panics,
            groups: vec![
                Group {
                    name: "legal histories and documented misuse",
                    cfgs: &["std-checked", "nostd-checked", "sse41-checked", "std"],
                    make: |_| hist(Profile { cap: 1 << 13, total: 1 << 16, misuse: 4, debug: 2, ..EVERYTHING }, 1..=4, 1..=6, 2..40),
                    quick: 80_000,
                    thorough: 4_000_000,
                    ..GROUP
                },
                Group {
                    name: "unoptimized",
                    cfgs: &["std-debug"],
                    make: |_| hist(Profile { cap: 1 << 11, total: 1 << 13, misuse: 4, ..EVERYTHING }, 1..=4, 1..=6, 2..40),
                    quick: 15_000,
                    thorough: 600_000,
                    ..GROUP
                },
                Group {
                    name: "long inputs",
                    cfgs: &["std-checked", "nostd-checked", "sse41-checked"],
                    make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 22, total: 1 << 24, ..EVERYTHING }, 1..=3, 1..=3, 1..8),
                    quick: 1_500,
                    thorough: 60_000,
                    ..GROUP
                },
                Group { name: "longer inputs", cfgs: &["std-checked", "nostd-checked", "sse41-checked"], make: |_| huge(Profile { run: 0, ..EVERYTHING }), quick: 24, thorough: 5_000, limit: 200, ..GROUP },
                Group {
                    name: "empty and tiny inputs",
                    cfgs: &["std-checked", "nostd-checked", "sse41-checked"],
                    make: |_| hist(Profile { cap: 3, total: 40, misuse: 4, debug: 2, ..EVERYTHING }, 1..=4, 1..=6, 2..60),
                    quick: 60_000,
                    thorough: 1_500_000,
                    ..GROUP
                },
                Group {
                    name: "large counters",
                    cfgs: &["std-checked", "nostd-checked", "sse41-checked"],
                    make: |_| counters(Lens::Chunk, 1 << 12),
                    quick: 60_000,
                    thorough: 1_000_000,
                    ..GROUP
                },
                Group { name: "guided by coverage", cfgs: &["cov-std-checked", "cov-sse41-checked", "cov-nostd-checked"], make: |_| hist(Profile { cap: 1 << 13, total: 1 << 15, debug: 2, ..EVERYTHING }, 1..=4, 1..=6, 2..40), quick: 80000, thorough: 4000000, guided: true, ..GROUP },
            ],
            rule: "legal histories over all types, with empty inputs, empty batches and repeated jobs, in builds with debug assertions and overflow checks; any panic is a failure, except that the two documented misuses must panic there; non-trivial: at least 5 operations",
            nontrivial: |_, f| f.ops >= 5,
            assumptions: &[],
        },
        "C13" => Check {
            id: "C13",
            blame: Blame::Machine,
            groups: vec![
                Group { name: "AddressSanitizer, everything", cfgs: &["asan", "asan-sse41", "asan-nostd"], make: |_| hist(Profile { cap: 1 << 12, total: 1 << 15, ..EVERYTHING }, 1..=4, 1..=6, 2..40), quick: 8_000, thorough: 2_500_000, ..GROUP },
                Group { name: "AddressSanitizer, batches", cfgs: &["asan", "asan-sse41", "asan-nostd"], make: |_| job_lists(80, Lens::Batch, 1 << 12, Ps::Mixed), quick: 3_000, thorough: 1_000_000, ..GROUP },
                Group { name: "AddressSanitizer, long inputs", cfgs: &["asan", "asan-sse41", "asan-nostd"], make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 20, total: 1 << 22, ..EVERYTHING }, 1..=2, 1..=3, 1..6), quick: 500, thorough: 100_000, ..GROUP },
                Group { name: "AddressSanitizer, large counters", cfgs: &["asan", "asan-sse41", "asan-nostd"], make: |_| counters(Lens::Chunk, 1 << 12), quick: 1_000, thorough: 300_000, ..GROUP },
                Group { name: "guard pages, everything", cfgs: &["guard-std", "guard-sse41", "guard-nostd"], make: |_| hist(Profile { cap: 1 << 13, total: 1 << 16, ..EVERYTHING }, 1..=4, 1..=6, 2..40), quick: 30_000, thorough: 2_500_000, ..GROUP },
                Group { name: "guard pages, batches", cfgs: &["guard-std", "guard-sse41", "guard-nostd"], make: |_| job_lists(80, Lens::Batch, 1 << 13, Ps::Mixed), quick: 5_000, thorough: 1_000_000, ..GROUP },
                Group { name: "guard pages, long inputs", cfgs: &["guard-std", "guard-sse41", "guard-nostd"], make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 20, total: 1 << 22, ..EVERYTHING }, 1..=2, 1..=3, 1..6), quick: 2_000, thorough: 300_000, ..GROUP },
                Group { name: "memcheck, everything", cfgs: &["mc-std", "mc-sse41", "mc-nostd"], make: |_| hist(Profile { cap: 3000, total: 12_000, ..EVERYTHING }, 1..=3, 1..=4, 2..20), quick: 1_000, thorough: 100_000, ..GROUP },
                Group { name: "memcheck, batches", cfgs: &["mc-std", "mc-sse41", "mc-nostd"], make: |_| job_lists(20, Lens::Batch, 1 << 10, Ps::Mixed), quick: 300, thorough: 30_000, ..GROUP },
                Group { name: "Miri, AVX2", cfgs: &["miri-avx2"], make: |_| hist(TINY, 1..=2, 1..=3, 1..8), quick: 96, thorough: 2_000, ..GROUP },
                Group { name: "Miri, SSE4.1", cfgs: &["miri-sse41"], make: |_| hist(TINY, 1..=2, 1..=3, 1..8), quick: 96, thorough: 2_000, ..GROUP },
                Group { name: "Miri, portable", cfgs: &["miri-nostd"], make: |_| hist(TINY, 1..=2, 1..=3, 1..8), quick: 96, thorough: 2_000, ..GROUP },
                Group { name: "Miri, other CPUs", cfgs: &["miri-avx", "miri-avx-nostd", "miri-ssse3", "miri-ssse3-nostd"], make: |_| hist(Profile { hash: 6, updmany: 6, jobs: 6, ..TINY }, 1..=2, 1..=2, 1..6), quick: 24, thorough: 400, ..GROUP },
                Group { name: "Miri, threads", cfgs: &["miri-std"], make: |_| threads(Profile { total: 1200, cap: 600, ..TINY }, 2..=3, 1..5), quick: 48, thorough: 1_000, fresh: true, ..GROUP },
                Group { name: "guided by coverage", cfgs: &["cov-std", "cov-sse41", "cov-nostd", "asan", "asan-sse41", "asan-nostd", "guard-std", "guard-sse41", "guard-nostd"], make: |_| hist(Profile { cap: 1 << 12, total: 1 << 14, ..EVERYTHING }, 1..=4, 1..=6, 2..30), quick: 40000, thorough: 2000000, guided: true, ..GROUP },
            ],
            rule: "histories over all types with every input in its own exact-size allocation at a generated alignment, under AddressSanitizer (AVX2, SSE4.1, portable); in read-only pages between inaccessible ones; under memcheck (uninitialized bytes in native code), and, smaller, under Miri (same three, with pointer-provenance, alignment, initialization and data-race checks, in a new process for each racing case; and as on CPUs with only AVX or SSSE3); only such reports count; non-trivial: at least one update, digest or batch over input",
            nontrivial: |_, f| f.bytes > 0 && f.finals + f.updates >= 1,
            assumptions: &["AddressSanitizer and Miri detect what they claim to; Miri's model of the SSE4.1 and AVX2 intrinsics is right"],
        },
        "C21" => Check {
            id: "C21",
            blame: Blame::Machine,
            groups: vec![
                Group { name: "everything", cfgs: ALLOC, make: |_| hist(Profile { debug: 2, hashes: 2, misuse: 1, cap: 1 << 13, total: 1 << 16, ..EVERYTHING }, 1..=4, 1..=6, 2..40), quick: 40_000, thorough: 6_000_000, ..GROUP },
                Group { name: "batches", cfgs: ALLOC, make: |_| job_lists(80, Lens::Batch, 1 << 13, Ps::Mixed), quick: 10_000, thorough: 1_000_000, ..GROUP },
                Group { name: "long inputs", cfgs: ALLOC, make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 22, total: 1 << 24, ..EVERYTHING }, 1..=3, 1..=3, 1..8), quick: 400, thorough: 60_000, ..GROUP },
                Group { name: "longer inputs", cfgs: ALLOC, make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 24, total: 1 << 26, ..EVERYTHING }, 1..=2, 1..=2, 1..5), quick: 160, thorough: 10_000, ..GROUP },
                Group { name: "thousands of jobs", cfgs: ALLOC, make: |_| crowd(false), quick: 60, thorough: 3_000, ..GROUP },
                Group { name: "thousands of states", cfgs: ALLOC, make: |_| crowd(true), quick: 60, thorough: 3_000, ..GROUP },
                Group { name: "large counters", cfgs: ALLOC, make: |_| counters(Lens::Chunk, 1 << 12), quick: 6_000, thorough: 500_000, ..GROUP },
                Group { name: "unoptimized", cfgs: &["alloc-dev"], make: |_| hist(Profile { debug: 2, hashes: 2, cap: 1 << 11, total: 1 << 13, ..EVERYTHING }, 1..=4, 1..=6, 2..40), quick: 8_000, thorough: 400_000, ..GROUP },
                Group { name: "guided by coverage", cfgs: GUIDED_ALLOC, make: |_| hist(Profile { debug: 2, hashes: 2, misuse: 1, cap: 1 << 12, total: 1 << 14, ..EVERYTHING }, 1..=4, 1..=6, 2..30), quick: 60000, thorough: 3000000, guided: true, ..GROUP },
            ],
            rule: "histories over all types, batches of up to 70,000 jobs or states and inputs of up to 16 MiB, on a stack of 128 KiB (4 MiB unoptimized) and with every allocation made inside a call of the library counted; there must be none, and the stack must suffice; non-trivial: at least one update, digest or batch over input",
            nontrivial: |_, f| f.bytes > 0 && f.finals + f.updates >= 1,
            assumptions: &["allocations go through the global allocator", "recursion deeper than 128 KiB of stack shows unboundedness, and a bounded need stays below that"],
        },
        "C20" => {
            const VG: Profile = Profile { debug: 0, hashes: 0, misuse: 0, fan: 0, hop: 0, lens: Lens::Chunk, cap: 2000, total: 12_000, batch_max: 12, ..EVERYTHING };
            Check {
                id: "C20",
                blame: Blame::Machine,
                groups: vec![
                    Group { name: "everything", cfgs: &["vg-std", "vg-sse41", "vg-nostd"], make: |_| hist(VG, 1..=3, 1..=4, 2..20), quick: 2_000, thorough: 200_000, ..GROUP },
                    Group { name: "batches", cfgs: &["vg-std", "vg-sse41", "vg-nostd"], make: |_| job_lists(20, Lens::Batch, 1 << 10, Ps::Mixed), quick: 500, thorough: 50_000, ..GROUP },
                    Group { name: "long inputs", cfgs: &["vg-std", "vg-sse41", "vg-nostd"], make: |_| hist(Profile { lens: Lens::Long, cap: 1 << 20, total: 1 << 21, ..VG }, 1..=2, 1..=3, 1..6), quick: 200, thorough: 5_000, ..GROUP },
                    Group { name: "large counters", cfgs: &["vg-std", "vg-sse41", "vg-nostd"], make: |_| counters(Lens::Tiny, 1000), quick: 200, thorough: 20_000, ..GROUP },
                    Group { name: "unoptimized", cfgs: &["vg-dev", "vg-dev-nostd"], make: |_| hist(Profile { total: 4_000, ..VG }, 1..=3, 1..=4, 2..20), quick: 500, thorough: 50_000, ..GROUP },
                    Group { name: "guided by coverage", cfgs: &["cov-std", "cov-sse41", "cov-nostd", "vg-std", "vg-sse41", "vg-nostd"], make: |_| hist(VG, 1..=3, 1..=4, 2..20), quick: 40000, thorough: 2000000, guided: true, ..GROUP },
                ],
                rule: "histories over all types with every key and message byte marked as secret, some long or with raised byte counters, run under memcheck on the AVX2, SSE4.1 and portable implementations, optimized and not; the number of branches and memory addresses that depended on a secret byte must be zero after every operation, and the results those of the model; non-trivial: a key or message bytes, and a digest or update over them",
                nontrivial: |_, f| (f.keyed || f.bytes > 0) && f.finals + f.updates >= 1,
                assumptions: &[
                    "memcheck's tracking of undefined bytes sees every branch and address that depends on them (a probe is checked whenever a driver starts)",
                    "instructions whose own duration depends on their operands are not seen",
                ],
            }
        }
        "C23" => Check {
            id: "C23",
            blame: Blame::Spec,
            groups: vec![
                Group { name: "between inaccessible pages", cfgs: &["c-guard"], make: |_| plain(Lens::Message, 1 << 17), quick: 150_000, thorough: 10_000_000, ..GROUP },
                Group { name: "undefined behaviour trapped", cfgs: &["c-trap"], make: |_| plain(Lens::Message, 1 << 17), quick: 150_000, thorough: 10_000_000, ..GROUP },
                Group { name: "memcheck", cfgs: &["c-mc"], make: |_| plain(Lens::Batch, 1 << 13), quick: 1_000, thorough: 100_000, ..GROUP },
                Group { name: "long inputs", cfgs: &["c-guard", "c-trap"], make: |_| plain(Lens::Long, 1 << 24), quick: 1_000, thorough: 200_000, ..GROUP },
                Group { name: "guided by coverage", cfgs: &["cov-c", "c-guard", "c-trap"], make: |_| plain(Lens::Message, 1 << 15), quick: 100000, thorough: 5000000, guided: true, ..GROUP },
                Group { name: "over 4 GiB", cfgs: &["c-trap"], make: plain_long, quick: 3, thorough: 12, workers: 3, limit: 500, ..GROUP },
            ],
            rule: "1-5 generated inputs (lengths aimed at block, stripe and double-stripe boundaries, up to 16 MiB, and past 4 GiB) to the C functions, each in read-only memory that ends at an inaccessible page, built with traps for undefined behaviour, and under memcheck; every digest compared with the model; non-trivial: a message of more than one block",
            nontrivial: |_, f| f.blocks >= 1,
            assumptions: &["clang's undefined-behaviour traps and memcheck detect what they claim to"],
        },
        _ => return None,
    })
}
