//! The search: generate cases, run them on every configuration of the driver, compare with the
//! oracle, shrink what fails, write the replay file and the evidence.

use crate::case::*;
use crate::cfgs::*;
use crate::guide::{self, CaseTree, Dressed, News, Pool};
use crate::model;
use crate::refer::{decide, Blame, Court};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;

pub type Judge = fn(&Case, &[Vec<String>], &[Vec<String>]) -> Option<String>;

/// One generator driven against some configurations.
pub struct Group {
    pub name: &'static str,
    pub cfgs: &'static [&'static str],
    /// the strategy, given the number of the worker
    pub make: fn(usize) -> BoxedStrategy<Case>,
    /// number of cases per run
    pub quick: usize,
    pub thorough: usize,
    pub judge: Judge,
    /// a new driver process for every case
    pub fresh: bool,
    /// workers used (memory-hungry or short groups use fewer)
    pub workers: usize,
    /// limit on one answer, in seconds
    pub limit: u64,
    /// of every four cases three are changed from earlier ones that reached something new (with
    /// configurations that report what they reach)
    pub guided: bool,
    /// what the configurations that do not guide are given in place of the case
    pub dress: Option<fn(&Case) -> Case>,
}

pub const GROUP: Group = Group {
    name: "",
    cfgs: &[],
    make: |_| unreachable!(),
    quick: 0,
    thorough: 0,
    judge: judge_model,
    fresh: false,
    workers: WORKERS,
    limit: 60,
    guided: false,
    dress: None,
};

pub struct Check {
    pub id: &'static str,
    /// which differences from the model break the property
    pub blame: Blame,
    pub groups: Vec<Group>,
    pub rule: &'static str,
    pub nontrivial: fn(&Case, &Feat) -> bool,
    pub assumptions: &'static [&'static str],
}

/// Facts about a case, for the evidence.
#[derive(Default, Clone, Debug)]
pub struct Feat {
    pub ops: usize,
    pub bytes: usize,
    pub longest: usize,
    /// longest message in blocks of its algorithm
    pub blocks: usize,
    pub setters: usize,
    pub illegal: usize,
    pub keyed: bool,
    pub updates: usize,
    pub finals: usize,
    pub clones: usize,
    pub counts: usize,
    pub batch: usize,
    pub batches: usize,
    pub jobs: usize,
    pub debugs: usize,
    pub compares: usize,
    pub views: usize,
    pub setlast: usize,
    pub misuse: usize,
    pub states: usize,
    pub threads: usize,
    pub hops: usize,
    pub hook: bool,
    pub repeats: usize,
    pub fans: usize,
    pub big: bool,
    pub unaligned: bool,
    pub portable: bool,
    pub algs: [bool; 4],
}

pub fn feat(c: &Case) -> Feat {
    let mut f = Feat { threads: c.threads.len(), ..Feat::default() };
    for t in &c.threads {
        let mut ps: Vec<Alg> = vec![];
        let mut ss: Vec<(Alg, usize)> = vec![];
        let data = |f: &mut Feat, a: Alg, d: &Data| {
            f.bytes = f.bytes.saturating_add(d.len);
            f.longest = f.longest.max(d.len);
            f.blocks = f.blocks.max(d.len / a.block());
            f.unaligned |= d.off % 8 != 0;
            f.big |= d.pat == PAT_BIG;
        };
        let note = |f: &mut Feat, a: Alg| f.algs[Alg::ALL.iter().position(|x| *x == a).unwrap()] = true;
        fn sets(f: &mut Feat, a: Alg, v: &[Setter]) {
            f.setters += v.len();
            for s in v {
                if !s.legal(a) {
                    f.illegal += 1;
                } else if let Setter::Key(d) = s {
                    f.keyed |= d.len > 0;
                }
                f.portable |= *s == Setter::Portable;
            }
        }
        for op in t {
            f.ops += 1;
            match op {
                Op::Params { alg, setters, .. } => {
                    ps.push(*alg);
                    note(&mut f, *alg);
                    sets(&mut f, *alg, setters);
                }
                Op::Set { p, setters } => sets(&mut f, ps[*p], setters),
                Op::Hash { p, d } => {
                    data(&mut f, ps[*p], d);
                    f.finals += 1;
                }
                Op::Free { alg, d } => {
                    note(&mut f, *alg);
                    data(&mut f, *alg, d);
                    f.finals += 1;
                }
                Op::NewState { p } => ss.push((ps[*p], 0)),
                Op::DefState { alg, .. } => {
                    note(&mut f, *alg);
                    ss.push((*alg, 0));
                }
                Op::Update { s, d } | Op::Write { s, d } | Op::WriteAll { s, d } | Op::IoCopy { s, d } => {
                    data(&mut f, ss[*s].0, d);
                    ss[*s].1 = ss[*s].1.saturating_add(d.len);
                    f.blocks = f.blocks.max(ss[*s].1 / ss[*s].0.block());
                    f.updates += 1;
                }
                Op::WriteVec { s, ds } => {
                    for d in ds {
                        data(&mut f, ss[*s].0, d);
                    }
                    f.updates += 1;
                }
                Op::WriteFmt { .. } => f.updates += 1,
                Op::Flush { .. } => {}
                Op::Finalize { .. } => f.finals += 1,
                Op::Count { .. } => f.counts += 1,
                Op::CloneState { s } => {
                    ss.push(ss[*s]);
                    f.clones += 1;
                }
                Op::CloneFrom { s, from } => {
                    ss[*s] = ss[*from];
                    f.clones += 1;
                }
                Op::SetLast { .. } => f.setlast += 1,
                Op::UpdMany { pairs, .. } => {
                    for (s, d) in pairs {
                        data(&mut f, ss[*s].0, d);
                    }
                    f.batch = f.batch.max(pairs.len());
                    f.batches += 1;
                    f.updates += pairs.len();
                }
                Op::NewJob { p, d } => {
                    data(&mut f, ps[*p], d);
                    f.jobs += 1;
                }
                Op::CloneJob { .. } => f.jobs += 1,
                Op::RunJobs { js, .. } => {
                    f.batch = f.batch.max(js.len());
                    f.batches += 1;
                }
                Op::JobHash { .. } => f.finals += 1,
                Op::AddCount { .. } | Op::AddCountJob { .. } => f.hook = true,
                Op::DbgParams { .. } | Op::DbgState { .. } | Op::DbgJob { .. } => f.debugs += 1,
                Op::HashOf { .. } | Op::HashFrom { .. } | Op::HashFlip { .. } => {}
                Op::HashView { .. } => f.views += 1,
                Op::HashEq { .. } | Op::HashEqSlice { .. } => f.compares += 1,
                Op::Misuse { .. } => f.misuse += 1,
                Op::Degree { .. } => {}
                Op::Hop => f.hops += 1,
                Op::Repeat { .. } => f.repeats += 1,
                Op::Fan { .. } => {
                    f.fans += 1;
                    f.finals += 1;
                }
            }
        }
        f.states += ss.len();
    }
    f
}

fn labels(f: &Feat) -> Vec<&'static str> {
    let mut v = vec![];
    let mut add = |b: bool, s: &'static str| {
        if b {
            v.push(s)
        }
    };
    add(f.algs[0], "blake2b");
    add(f.algs[1], "blake2s");
    add(f.algs[2], "blake2bp");
    add(f.algs[3], "blake2sp");
    add(f.keyed, "keyed");
    add(f.setters >= 4, "4+ setter calls");
    add(f.illegal > 0, "illegal setter argument");
    add(f.blocks == 0, "under one block");
    add(f.blocks >= 1, "1+ blocks");
    add(f.blocks >= 8, "8+ blocks");
    add(f.blocks >= 64, "64+ blocks");
    add(f.longest >= 1 << 16, "64+ KiB at once");
    add(f.big, "over 4 GiB");
    add(f.unaligned, "unaligned input");
    add(f.updates >= 2, "2+ updates");
    add(f.updates >= 8, "8+ updates");
    add(f.finals >= 2, "2+ digests");
    add(f.clones > 0, "clones");
    add(f.setlast > 0, "last-node changes");
    add(f.batch >= 2, "batch of 2+");
    add(f.batch >= 5, "batch of 5+");
    add(f.batch >= 9, "batch of 9+");
    add(f.batch >= 32, "batch of 32+");
    add(f.batches >= 2, "2+ batches");
    add(f.portable, "forced portable");
    add(f.threads >= 2, "2+ threads");
    add(f.hops > 0, "moved between threads");
    add(f.repeats > 0, "repeated on every thread");
    add(f.fans > 0, "objects shared by threads");
    add(f.hook, "counter preset");
    add(f.debugs > 0, "debug rendering");
    add(f.compares > 0, "comparison");
    add(f.misuse > 0, "documented misuse");
    v
}

pub fn line_matches(exp: &str, got: &str) -> bool {
    match exp {
        "d *" => got.starts_with("d "),
        // anything but the digest (short ones may be equal by chance)
        x if x.starts_with("m !") => got == "m panic" || (got.starts_with("m h ") && (x.len() < 3 + 16 || got[4..] != x[3..])),
        "g *" => {
            let t: Vec<usize> = got.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
            got.starts_with("g ") && t.len() == 2 && t[0] >= 1 && t[0] <= t[1]
        }
        _ => exp == got,
    }
}

pub fn judge_model(c: &Case, exp: &[Vec<String>], got: &[Vec<String>]) -> Option<String> {
    for (t, (e, g)) in exp.iter().zip(got).enumerate() {
        for (i, x) in e.iter().enumerate() {
            let y = g.get(i).map(|s| s.as_str()).unwrap_or("(nothing)");
            if !line_matches(x, y) {
                return Some(format!(
                    "thread {t} operation {i} ({}): expected {x}, got {y}",
                    c.threads[t][i].enc()
                ));
            }
        }
        if g.len() > e.len() {
            return Some(format!("thread {t}: more output than operations"));
        }
    }
    if exp.len() != got.len() {
        return Some("wrong number of threads".into());
    }
    None
}

/// The Debug renderings of the threads of the case are the same.
pub fn judge_twins(c: &Case, exp: &[Vec<String>], got: &[Vec<String>]) -> Option<String> {
    let text = |s: &str| -> String {
        if !s.starts_with("d ") {
            return s.to_string();
        }
        let h = &s[2..];
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        String::from_utf8_lossy(&b).into_owned()
    };
    for i in 0..got.iter().map(|g| g.len()).min().unwrap_or(0) {
        for g in &got[1..] {
            if exp[0][i] == "d *" && got[0][i] != g[i] {
                return Some(format!(
                    "operation {i} ({}): renderings of objects that differ only in secrets differ: {} and {}",
                    c.threads[0][i].enc(),
                    text(&got[0][i]),
                    text(&g[i])
                ));
            }
        }
    }
    None
}

pub fn split(out: &str) -> Vec<Vec<String>> {
    let mut v = vec![vec![]];
    for l in out.lines() {
        if l == "thread" {
            v.push(vec![]);
        } else if !l.starts_with("cov ") {
            v.last_mut().unwrap().push(l.to_string());
        }
    }
    v
}

/// Configurations in which the code under test does what the interpreter cannot do
static UNSUPPORTED: Mutex<Vec<&'static str>> = Mutex::new(vec![]);

fn unsupported(b: &Built, text: &str) {
    let mut u = UNSUPPORTED.lock().unwrap();
    if !u.contains(&b.cfg.name) {
        eprintln!("note: {} cannot run this code and is left out: {}", b.cfg.name, text.lines().next().unwrap_or(""));
        u.push(b.cfg.name);
    }
}

/// Can this configuration run the case?
fn runnable(b: &Built, c: &Case) -> bool {
    if b.slow() && UNSUPPORTED.lock().unwrap().contains(&b.cfg.name) {
        return false;
    }
    b.hook
        || !c.threads.iter().flatten().any(|o| matches!(o, Op::AddCount { .. } | Op::AddCountJob { .. }))
}

pub enum Verdict {
    Ok,
    Bad(String),
    Hang,
    Infra(String),
}

fn ask(d: &mut Driver, b: &Built, text: &str, c: &Case, exp: &[Vec<String>], court: &Court) -> Verdict {
    let r = d.send(text).and_then(|_| d.recv(limit_for(b, court.limit)));
    match r {
        Ok(out) => match decide(b, court, c, exp, &split(&out)) {
            None => Verdict::Ok,
            Some(e) => Verdict::Bad(e),
        },
        Err(Dead::Crash(e)) => Verdict::Bad(e),
        Err(Dead::Hang) => Verdict::Hang,
        Err(Dead::Infra(e)) => Verdict::Infra(e),
        Err(Dead::Unsupported(_)) => Verdict::Ok,
    }
}

fn limit_for(b: &Built, limit: u64) -> u64 {
    if b.slow() {
        700
    } else {
        limit
    }
}

/// Run the cases one after another in a new driver; the verdict of the first that fails.
pub fn run_fresh(b: &Built, cases: &[Case], court: &Court) -> Verdict {
    let mut d = match Driver::start(b) {
        Ok(d) => d,
        Err(Dead::Crash(e)) => return Verdict::Infra(format!("driver does not start: {e}")),
        Err(Dead::Hang) => return Verdict::Infra("driver does not start".into()),
        Err(Dead::Infra(e)) => return Verdict::Infra(e),
        Err(Dead::Unsupported(_)) => return Verdict::Ok,
    };
    for (i, c) in cases.iter().enumerate() {
        let exp = model::expect(c);
        match ask(&mut d, b, &c.enc(), c, &exp, court) {
            Verdict::Ok => {}
            Verdict::Bad(e) if cases.len() > 1 => return Verdict::Bad(format!("case {i}: {e}")),
            v => return v,
        }
    }
    Verdict::Ok
}

struct Failure {
    cfg: &'static str,
    group: &'static str,
    cases: Vec<Case>,
    what: String,
}

struct Stats {
    evaluations: usize,
    runs: usize,
    distinct: HashSet<u64>,
    nontrivial: usize,
    labels: BTreeMap<&'static str, usize>,
    groups: BTreeMap<&'static str, usize>,
    samples: Vec<String>,
    skipped_hook: usize,
    elsewhere: usize,
    bytes: u64,
    ops: u64,
    finals: u64,
    /// cases that reached something new to their worker, and by worker, features and constants
    reached: usize,
    edges: usize,
    features: usize,
    consts: usize,
}

struct Shared<'a> {
    check: &'a Check,
    built: &'a [Built],
    /// in the code of those that tell what they reach
    constants: Arc<Vec<u64>>,
    stats: Mutex<Stats>,
    stop: AtomicBool,
    failure: Mutex<Option<Failure>>,
    deadline: Instant,
}

pub fn rng_for(seed: u64, id: &str, group: &str, worker: usize) -> TestRng {
    let mut key = [0u8; 32];
    for i in 0..4 {
        let mut h = DefaultHasher::new();
        (seed, id, group, worker, i).hash(&mut h);
        key[i * 8..i * 8 + 8].copy_from_slice(&h.finish().to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &key)
}

fn worker(sh: &Shared, g: &Group, w: usize, total: usize, seed: u64) {
    let config = Config { failure_persistence: None, max_shrink_iters: 100_000, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(config, rng_for(seed, sh.check.id, g.name, w));
    let strat = (g.make)(w);
    let built: Vec<&Built> = g.cfgs.iter().map(|n| sh.built.iter().find(|b| b.cfg.name == *n).unwrap()).collect();
    let court = Court { blame: sh.check.blame, judge: g.judge, others: &built, limit: g.limit };
    let mut drivers: Vec<Option<Driver>> = built.iter().map(|_| None).collect();
    let mut logs: Vec<Vec<Case>> = built.iter().map(|_| vec![]).collect();
    // a fixed share per worker, so that a run depends on the seed only
    let share = total / g.workers + usize::from(w < total % g.workers);
    let mut pool = Pool::new(sh.constants.clone());
    let mut rng = guide::Rng::new(seed ^ (w as u64) << 32);
    for turn in 0..share {
        if sh.stop.load(Ordering::Relaxed) || Instant::now() > sh.deadline {
            return;
        }
        let changed = if g.guided && turn > share / 20 && turn % 4 > 0 { pool.mutate(&mut rng) } else { None };
        let tree: Box<dyn ValueTree<Value = Case>> = match changed {
            Some(c) => Box::new(CaseTree::new(c)),
            None => match strat.new_tree(&mut runner) {
                Ok(t) => Box::new(t),
                Err(e) => infra(&format!("generator: {e}")),
            },
        };
        let (mut reached, mut pairs) = (News::None, vec![]);
        let mut bad: Option<(usize, Verdict)> = None;
        let mut runs = 0;
        let mut case = tree.current();
        let mut text = case.enc();
        // those that guide come first; the others are given what was worth it
        for guiding in [true, false] {
            if bad.is_some() || (!guiding && g.guided && reached == News::None) {
                break;
            }
            if let (false, Some(dress)) = (guiding, g.dress) {
                case = dress(&case);
                text = case.enc();
            }
            let mine = |b: &Built| (b.cfg.kind == Kind::Cov) == guiding || (!g.guided && guiding);
            let turn: Vec<usize> = (0..built.len()).filter(|i| mine(built[*i]) && (g.guided || guiding)).collect();
            let turn: Vec<usize> = turn.into_iter().filter(|i| !(g.guided && built[*i].slow()) || reached == News::Edge).collect();
            if turn.is_empty() {
                continue;
            }
            let exp = model::expect(&case);
            // send to all the configurations, then collect
            let mut active = vec![];
            for i in turn {
                let b = built[i];
                if !runnable(b, &case) {
                    sh.stats.lock().unwrap().skipped_hook += 1;
                    continue;
                }
                if g.fresh || logs[i].len() >= if g.guided { 1000 } else { 200 } {
                    drivers[i] = None;
                }
                if drivers[i].is_none() {
                    logs[i].clear();
                    match Driver::start(b) {
                        Ok(d) => drivers[i] = Some(d),
                        Err(Dead::Unsupported(e)) => {
                            unsupported(b, &e);
                            continue;
                        }
                        Err(e) => infra(&format!("driver {} does not start: {e:?}", b.cfg.name)),
                    }
                }
                logs[i].push(case.clone());
                match drivers[i].as_mut().unwrap().send(&text) {
                    Ok(()) => active.push(i),
                    Err(Dead::Crash(e)) => bad = Some((i, Verdict::Bad(e))),
                    Err(Dead::Unsupported(e)) => {
                        unsupported(b, &e);
                        drivers[i] = None;
                    }
                    Err(e) => infra(&format!("{e:?}")),
                }
            }
            runs += active.len();
            for i in active {
                let d = drivers[i].as_mut().unwrap();
                let v = match d.recv(limit_for(built[i], g.limit)) {
                    Ok(out) => {
                        if let Some(r) = out.lines().last().and_then(|l| l.strip_prefix("cov ")) {
                            reached = reached.max(pool.learn(i, r, &mut pairs));
                        }
                        let got = split(&out);
                        match decide(built[i], &court, &case, &exp, &got) {
                            None => {
                                if (g.judge)(&case, &exp, &got).is_some() {
                                    sh.stats.lock().unwrap().elsewhere += 1;
                                }
                                continue;
                            }
                            Some(e) => Verdict::Bad(e),
                        }
                    }
                    Err(Dead::Crash(e)) => Verdict::Bad(e),
                    Err(Dead::Hang) => Verdict::Hang,
                    Err(Dead::Unsupported(e)) => {
                        unsupported(built[i], &e);
                        drivers[i] = None;
                        continue;
                    }
                    Err(Dead::Infra(e)) => infra(&e),
                };
                drivers[i] = None;
                bad = Some((i, v));
            }
        }
        if g.guided && reached != News::None {
            pool.keep(&mut rng, &tree.current(), pairs);
        }
        {
            let f = feat(&case);
            let mut st = sh.stats.lock().unwrap();
            st.evaluations += 1;
            st.reached += (g.guided && reached != News::None) as usize;
            st.edges += (g.guided && reached == News::Edge) as usize;
            st.runs += runs;
            st.bytes += f.bytes as u64;
            st.ops += f.ops as u64;
            st.finals += f.finals as u64;
            *st.groups.entry(g.name).or_default() += 1;
            for l in labels(&f) {
                *st.labels.entry(l).or_default() += 1;
            }
            let mut h = DefaultHasher::new();
            text.hash(&mut h);
            if st.distinct.insert(h.finish()) && (sh.check.nontrivial)(&case, &f) {
                st.nontrivial += 1;
                if st.samples.len() < 4 && st.nontrivial % 7 == 1 {
                    let mut s = text.clone();
                    if s.len() > 1500 {
                        s.truncate(1500);
                        s.push_str(" ...");
                    }
                    st.samples.push(s);
                }
            }
        }
        if let Some((i, v)) = bad {
            // first to arrive reports
            if sh.stop.swap(true, Ordering::SeqCst) {
                return;
            }
            let tree = match g.dress {
                Some(dress) if built[i].cfg.kind != Kind::Cov => Box::new(Dressed(tree, dress)),
                _ => tree,
            };
            let f = shrink(built[i], g, &court, tree, v, &logs[i]);
            *sh.failure.lock().unwrap() = f;
            return;
        }
    }
    if g.guided {
        if std::env::var("VERIF_DUMP").is_ok() && w == 0 {
            eprintln!("{}", pool.dump());
        }
        let (features, _, consts) = pool.sizes();
        let mut st = sh.stats.lock().unwrap();
        st.features = st.features.max(features);
        st.consts = st.consts.max(consts);
    }
}

fn shrink(
    b: &Built,
    g: &Group,
    court: &Court,
    mut tree: Box<dyn ValueTree<Value = Case>>,
    first: Verdict,
    log: &[Case],
) -> Option<Failure> {
    let case = tree.current();
    eprintln!("candidate failure on {}", b.cfg.name);
    let fail = |cases: Vec<Case>, what: String| Some(Failure { cfg: b.cfg.name, group: g.name, cases, what });
    // Does it fail by itself? Races may need several attempts.
    let tries = if case.threads.len() > 1 { 20 } else { 1 };
    let attempt = |c: &Case| -> Option<String> {
        for _ in 0..tries {
            match run_fresh(b, std::slice::from_ref(c), court) {
                Verdict::Ok => {}
                Verdict::Bad(e) => return Some(e),
                // a hang counts if it repeats with more time
                Verdict::Hang => match run_fresh(b, std::slice::from_ref(c), &Court { limit: 2 * g.limit, ..*court }) {
                    Verdict::Hang if b.slow() => infra("no answer from the interpreter"),
                    Verdict::Hang => return Some(format!("no answer in {} s", 2 * g.limit)),
                    Verdict::Bad(e) => return Some(e),
                    Verdict::Ok => {}
                    Verdict::Infra(e) => infra(&e),
                },
                Verdict::Infra(e) => infra(&e),
            }
        }
        None
    };
    let what = match attempt(&case) {
        Some(w) => w,
        None => {
            // Only after the cases before it, then?
            let what = match first {
                Verdict::Bad(e) => e,
                Verdict::Hang => {
                    eprintln!("note: a slow answer did not repeat");
                    infra("a driver did not answer in time once");
                }
                _ => unreachable!(),
            };
            let mut cases = log.to_vec();
            let fails = |cs: &[Case]| (0..if b.slow() { 1 } else { 3 }).any(|_| matches!(run_fresh(b, cs, court), Verdict::Bad(_)));
            if fails(&cases) {
                // remove what is not needed, in halves, then one by one
                let t = Instant::now();
                let mut step = cases.len() / 2;
                while step >= 1 && t.elapsed() < Duration::from_secs(60) {
                    let mut i = 0;
                    while i + step < cases.len() && t.elapsed() < Duration::from_secs(60) {
                        let mut cand = cases.clone();
                        cand.drain(i..i + step);
                        if fails(&cand) {
                            cases = cand;
                        } else {
                            i += step;
                        }
                    }
                    step /= 2;
                }
            }
            // A wrong observation was made; report it even if it does not repeat.
            return fail(cases, format!("(depends on what the process did before) {what}"));
        }
    };
    let slow = b.slow();
    let (mut budget, time) = if slow { (60, 90) } else { (1500, 100) };
    let t = Instant::now();
    let mut best = (case, what);
    let mut seen: HashSet<String> = HashSet::new();
    let mut more = tree.simplify();
    while more && budget > 0 && t.elapsed() < Duration::from_secs(time) {
        let c = tree.current();
        let text = c.enc();
        let bad = if text == best.0.enc() {
            // simplification without effect on the concrete case
            Some(best.1.clone())
        } else if !seen.insert(text) {
            None
        } else {
            budget -= 1;
            attempt(&c)
        };
        more = match bad {
            Some(e) => {
                best = (c, e);
                tree.simplify()
            }
            None => tree.complicate(),
        };
    }
    // Finally drop single operations that no later slot refers to.
    let mut i = 0;
    while i < best.0.threads[0].len() && best.0.threads.len() == 1 && t.elapsed() < Duration::from_secs(time + 20) {
        let creates = matches!(
            best.0.threads[0][i],
            Op::Params { .. }
                | Op::NewState { .. }
                | Op::DefState { .. }
                | Op::CloneState { .. }
                | Op::NewJob { .. }
                | Op::CloneJob { .. }
                | Op::HashOf { .. }
                | Op::HashFrom { .. }
                | Op::HashFlip { .. }
                | Op::RunJobs { .. }
        );
        if !creates {
            let mut c = best.0.clone();
            c.threads[0].remove(i);
            if let Some(e) = attempt(&c) {
                best = (c, e);
                continue;
            }
        }
        i += 1;
    }
    fail(vec![best.0], best.1)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

/// Seconds the search itself may take
pub fn budget() -> u64 {
    std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 600 } else { 240 })
}

/// Lines `finding property=<id> ...` of the known-findings file
pub fn known_findings(id: &str) -> Vec<String> {
    let f = verif_dir().join("known-findings.txt");
    let text = std::fs::read_to_string(f).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.starts_with(&format!("property={id} ")))
        .map(|l| l.to_string())
        .collect()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Evidence, common to all kinds of checks
pub struct Evidence {
    pub id: &'static str,
    pub evaluations: usize,
    pub nontrivial: usize,
    pub rule: String,
    pub samples: Vec<String>,
    pub extra: Vec<(String, String)>,
    pub assumptions: Vec<String>,
    pub wall: f64,
    pub violations: usize,
}

impl Evidence {
    pub fn write(&self) {
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
        let mut s = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {}",
            json_str(self.id),
            if thorough() { "thorough" } else { "quick" },
            seed() as i64,
            self.evaluations,
            self.nontrivial,
            json_str(&self.rule),
            list(&self.samples)
        );
        for (k, v) in &self.extra {
            s.push_str(&format!(",\n  {}: {}", json_str(k), v));
        }
        s.push_str(&format!(
            "\n }},\n \"assumptions\": {},\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
            list(&self.assumptions),
            self.wall,
            self.violations
        ));
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), s) {
            infra(&format!("cannot write evidence: {e}"));
        }
    }
}

pub fn counts_json<K: AsRef<str>>(m: impl IntoIterator<Item = (K, usize)>) -> String {
    let v: Vec<String> = m.into_iter().map(|(k, n)| format!("{}: {n}", json_str(k.as_ref()))).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn replay_path(id: &str, ext: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{id}-{}-{}.{ext}", seed(), std::process::id()))
}

pub fn violation(id: &str, path: &std::path::Path, what: &str) {
    println!("{id} is violated: {what}");
    println!("VIOLATION property={id} replay={}", path.display());
}

/// Run a check; the exit code.
pub fn run(check: &Check) -> i32 {
    let t0 = Instant::now();
    let oracle = match model::self_check() {
        Ok(n) => n,
        Err(e) => infra(&format!("the oracle fails its own vectors: {e}")),
    };
    for k in known_findings(check.id) {
        println!("KNOWN-FINDING: {k}");
    }
    let mut names: Vec<&str> = vec![];
    for g in &check.groups {
        for c in g.cfgs {
            if !names.contains(c) {
                names.push(c);
            }
        }
    }
    let built = build(&names);
    start_watchdog();
    let mut constants = Default::default();
    for b in built.iter().filter(|b| b.cfg.kind == Kind::Cov) {
        guide::constants(b.command().get_program(), &mut constants);
    }
    let sh = Shared {
        check,
        built: &built,
        constants: Arc::new(constants.into_iter().collect()),
        stats: Mutex::new(Stats {
            evaluations: 0,
            runs: 0,
            distinct: HashSet::new(),
            nontrivial: 0,
            labels: BTreeMap::new(),
            groups: BTreeMap::new(),
            samples: vec![],
            skipped_hook: 0,
            elsewhere: 0,
            bytes: 0,
            ops: 0,
            finals: 0,
            reached: 0,
            edges: 0,
            features: 0,
            consts: 0,
        }),
        stop: AtomicBool::new(false),
        failure: Mutex::new(None),
        deadline: Instant::now(),
    };
    let mut sh = sh;
    let seed = seed();
    let total_time = Duration::from_secs(budget());
    let search = Instant::now();
    // for working on the checks: only the groups whose names contain this
    let part = std::env::var("VERIF_ONLY").unwrap_or_default();
    let only = |g: &Group| g.name.contains(&part);
    let weight = |g: &Group| if thorough() { g.thorough } else { g.quick };
    let groups: Vec<&Group> = check.groups.iter().filter(|g| weight(g) > 0 && only(g)).collect();
    for (k, g) in groups.iter().enumerate() {
        // each group gets an equal share of the time that is left
        let left = total_time.saturating_sub(search.elapsed());
        sh.deadline = Instant::now() + left / (groups.len() - k) as u32;
        let t = Instant::now();
        std::thread::scope(|s| {
            for w in 0..g.workers {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(sh, g, w, weight(g), seed))
                    .unwrap();
            }
        });
        eprintln!(
            "{} {}: {} of {} cases in {:.1}s",
            check.id,
            g.name,
            sh.stats.lock().unwrap().groups.get(g.name).copied().unwrap_or(0),
            weight(g),
            t.elapsed().as_secs_f64()
        );
        if sh.stop.load(Ordering::SeqCst) {
            break;
        }
    }
    let failure = sh.failure.into_inner().unwrap();
    let st = sh.stats.into_inner().unwrap();
    let mut extra = vec![
        ("executions".to_string(), st.runs.to_string()),
        ("distinct_cases".to_string(), st.distinct.len().to_string()),
        ("operations".to_string(), st.ops.to_string()),
        ("digests_compared_per_configuration".to_string(), st.finals.to_string()),
        ("message_bytes".to_string(), st.bytes.to_string()),
        ("cases_by_generator".to_string(), counts_json(st.groups.iter().map(|(k, v)| (*k, *v)))),
        ("cases_with".to_string(), counts_json(st.labels.iter().map(|(k, v)| (*k, *v)))),
        (
            "configurations".to_string(),
            format!("[{}]", built.iter().map(|b| json_str(b.cfg.name)).collect::<Vec<_>>().join(", ")),
        ),
        ("oracle_vectors_checked".to_string(), oracle.to_string()),
    ];
    if st.features > 0 {
        extra.push(("guided_cases_that_reached_something_new".into(), st.reached.to_string()));
        extra.push(("guided_cases_that_reached_a_new_edge_count_or_equality".into(), st.edges.to_string()));
        extra.push(("coverage_features_of_a_worker".into(), st.features.to_string()));
        extra.push(("constants_taken_from_comparisons".into(), st.consts.to_string()));
    }
    let left_out = UNSUPPORTED.lock().unwrap().clone();
    if failure.is_none() && names.iter().all(|n| left_out.contains(n)) {
        infra("no configuration can run this code");
    }
    if !left_out.is_empty() {
        let v: Vec<String> = left_out.iter().map(|n| json_str(n)).collect();
        extra.push(("configurations_left_out_as_unsupported_by_the_interpreter".into(), format!("[{}]", v.join(", "))));
    }
    if st.skipped_hook > 0 {
        extra.push(("executions_skipped_without_hook".into(), st.skipped_hook.to_string()));
    }
    if st.elsewhere > 0 {
        eprintln!("note: {} results differ from the model in ways this property does not speak of", st.elsewhere);
        extra.push(("differences_that_are_not_of_this_property".into(), st.elsewhere.to_string()));
    }
    let mut ev = Evidence {
        id: check.id,
        evaluations: st.evaluations,
        nontrivial: st.nontrivial,
        rule: if check.groups.iter().any(|g| g.guided) {
            format!("{}; in the group guided by coverage, three of four histories are legal changes of kept ones towards what the instrumented library compares", check.rule)
        } else {
            check.rule.to_string()
        },
        samples: st.samples,
        extra,
        assumptions: check.assumptions.iter().map(|s| s.to_string()).collect(),
        wall: t0.elapsed().as_secs_f64(),
        violations: failure.is_some() as usize,
    };
    ev.assumptions.push("the specification model in pbt/src/model.rs is right (checked at every run against hashlib and official vectors)".into());
    ev.write();
    cleanup();
    match failure {
        None => 0,
        Some(f) => {
            let path = replay_path(check.id, "case");
            let mut s = format!(
                "# property {}\n# configuration {}\n# generator {}\n# seed {}\n# {}\n# replay with: ./check replay THIS_FILE\n",
                check.id,
                f.cfg,
                f.group,
                seed,
                f.what.replace('\n', "\n# ")
            );
            for (i, c) in f.cases.iter().enumerate() {
                if i > 0 {
                    s.push_str("case\n");
                }
                s.push_str(&c.enc());
            }
            if let Err(e) = std::fs::write(&path, s) {
                infra(&format!("cannot write replay: {e}"));
            }
            violation(check.id, &path, &format!("on configuration {}: {}", f.cfg, f.what));
            1
        }
    }
}

/// Replay a case file.
pub fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => infra(&format!("{path}: {e}")),
    };
    let head = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(&format!("# {k} "))).unwrap_or("").to_string()
    };
    let id = head("property");
    if path.ends_with(".cli") {
        return crate::cli::replay(path, &text);
    }
    if path.ends_with(".mem") {
        return crate::mem::replay(path, &text);
    }
    if path.ends_with(".ct") {
        return crate::ct::replay(path, &text, &head("configuration"));
    }
    let check = match crate::checks::find(&id) {
        Some(c) => c,
        None => infra(&format!("{path}: no property {id}")),
    };
    let cfg = head("configuration");
    let generator = head("generator");
    let mut names = vec![cfg.as_str()];
    if check.blame == Blame::Agree {
        let g = check.groups.iter().find(|g| g.name == generator);
        names.extend(g.iter().flat_map(|g| g.cfgs).filter(|n| **n != cfg));
    }
    let built = build(&names);
    let others: Vec<&Built> = built.iter().collect();
    start_watchdog();
    let cases: Vec<Case> = text.split("case\n").map(Case::parse).collect();
    let judge: Judge = if id == "C12" { judge_twins } else { judge_model };
    let court = Court { blame: check.blame, judge, others: &others, limit: 600 };
    let tries = if cases.iter().any(|c| c.threads.len() > 1) { 50 } else { 1 };
    for _ in 0..tries {
        match run_fresh(&built[0], &cases, &court) {
            Verdict::Ok => {}
            Verdict::Bad(e) => {
                println!("{id} fails on {}: {e}", built[0].cfg.name);
                cleanup();
                return 1;
            }
            Verdict::Hang => {
                println!("{id} fails on {}: no answer", built[0].cfg.name);
                cleanup();
                return 1;
            }
            Verdict::Infra(e) => infra(&e),
        }
    }
    println!("the property holds on this replay");
    cleanup();
    0
}
