//! C22: the command-line tool needs a bounded amount of memory and of open files, however much
//! it hashes. The same command is run with and without limits, and must do the same.

use crate::case::*;
use crate::cfgs::*;
use crate::cli::{build_tools, flags, Tools};
use crate::model;
use crate::runner::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Private writable memory, and open files
const DATA: u64 = 24 << 20;
const FILES: u64 = 24;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Mem {
    profile: u8,
    flags: Vec<String>,
    /// standard input is 0 unused, 1 a pipe, 2 a file
    stdin: u8,
    /// lengths and seeds of the files; the first is standard input if that is used
    files: Vec<Data>,
    /// the files named as arguments, in order
    order: Vec<usize>,
}

impl Mem {
    fn enc(&self) -> String {
        let mut s = format!("profile {}\nstdin {}\n", self.profile, self.stdin);
        for f in &self.flags {
            s.push_str(&format!("flag {f}\n"));
        }
        for f in &self.files {
            s.push_str(&format!("file {}\n", f.enc()));
        }
        // runs of the same file
        let mut i = 0;
        while i < self.order.len() {
            let n = self.order[i..].iter().take_while(|x| **x == self.order[i]).count();
            s.push_str(&format!("name {} {}\n", self.order[i], n));
            i += n;
        }
        s
    }

    fn parse(text: &str) -> Mem {
        let mut m = Mem { profile: 0, flags: vec![], stdin: 0, files: vec![], order: vec![] };
        for l in text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
            let (k, v) = l.split_once(' ').unwrap();
            match k {
                "profile" => m.profile = v.parse().unwrap(),
                "stdin" => m.stdin = v.parse().unwrap(),
                "flag" => m.flags.push(v.to_string()),
                "file" => m.files.push(Data::parse(v)),
                "name" => {
                    let (i, n) = v.split_once(' ').unwrap();
                    let n: usize = n.parse().unwrap();
                    m.order.extend(vec![i.parse::<usize>().unwrap(); n]);
                }
                _ => panic!("bad line {l}"),
            }
        }
        m
    }

    fn total(&self) -> usize {
        if self.stdin != 0 {
            self.files[0].len
        } else {
            self.order.iter().map(|i| self.files[*i].len).sum()
        }
    }
}

fn mem() -> BoxedStrategy<Mem> {
    let long = prop_oneof![4 => (40usize << 20)..(80 << 20), 1 => (80usize << 20)..(400 << 20)];
    let data = |len: usize, seed: u64| Data { pat: PAT_SPARSE, seed, len, off: 0 };
    let one = (long, any::<u64>(), 0u8..3).prop_map(move |(n, seed, stdin)| Mem {
        profile: 0,
        flags: vec![],
        stdin,
        files: vec![data(n, seed)],
        order: if stdin == 0 { vec![0] } else { vec![] },
    });
    // several of some size, which together are too much, and some small ones between them
    let some = (prop::collection::vec((1usize << 20)..(20 << 20), 2..8), any::<u64>(), 1usize..8).prop_map(move |(lens, seed, more)| {
        let mut files: Vec<Data> = lens.iter().enumerate().map(|(i, n)| data(*n, seed ^ i as u64)).collect();
        files.push(data(seed as usize % 5000, seed));
        let mut order = vec![];
        let mut total = 0;
        let mut k = seed;
        while total < (more << 20) + 2 * DATA as usize {
            k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let i = (k >> 40) as usize % files.len();
            order.push(i);
            total += files[i].len + 1000;
        }
        Mem { profile: 0, flags: vec![], stdin: 0, files, order }
    });
    // more files than may be open
    let times = prop_oneof![FILES as usize..300, 300usize..3000, 3000usize..12_000];
    let many = (2usize..6, times, any::<u64>()).prop_map(move |(n, times, seed)| {
        let most = if times < 3000 { 40_000 } else { 4000 };
        let files: Vec<Data> = (0..n).map(|i| data((seed >> (8 * i)) as usize % most, seed ^ i as u64)).collect();
        let order = (0..times).map(|i| (i / (1 + seed as usize % 3) + (seed >> 50) as usize) % n).collect();
        Mem { profile: (seed >> 20) as u8 & 1, flags: vec![], stdin: 0, files, order }
    });
    (prop_oneof![4 => one, 3 => some, 3 => many], flags())
        .prop_map(|(mut m, flags)| {
            m.flags = flags;
            m
        })
        .boxed()
}

extern "C" {
    fn setrlimit(what: i32, to: *const u64) -> i32;
}

fn limit(cmd: &mut Command) {
    unsafe {
        cmd.pre_exec(|| {
            for (what, n) in [(2, DATA), (7, FILES)] {
                if setrlimit(what, [n, n].as_ptr()) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
}

/// Does the limit work at all? This program must not be able to exceed it.
fn probe() {
    let exe = std::env::current_exe().unwrap_or_else(|e| infra(&format!("{e}")));
    for (limited, n) in [(true, 2 * DATA), (true, DATA / 2), (false, 2 * DATA)] {
        let mut c = Command::new(&exe);
        c.args(["hog", &n.to_string()]).stdout(Stdio::null()).stderr(Stdio::null());
        if limited {
            limit(&mut c);
        }
        match c.status() {
            Ok(s) if s.success() == (!limited || n < DATA) => {}
            x => infra(&format!("limits on memory do not work here: {limited} {n} {x:?}")),
        }
    }
}

pub fn hog(n: &str) -> i32 {
    let n: usize = n.parse().unwrap();
    let mut v = vec![0u8; n];
    for i in (0..n).step_by(4096) {
        v[i] = 1;
    }
    std::hint::black_box(&v);
    0
}

type Answer = (Option<i32>, Vec<u8>, Vec<u8>);

fn run_once(t: &Tools, m: &Mem, dir: &Path, limited: bool) -> std::io::Result<Answer> {
    let mut cmd = Command::new(t.bin(m.profile));
    cmd.args(&m.flags).current_dir(dir).env_clear().stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
    for i in &m.order {
        cmd.arg(format!("./f{i}"));
    }
    match m.stdin {
        0 => cmd.stdin(Stdio::null()),
        1 => cmd.stdin(Stdio::piped()),
        _ => {
            let mut f = std::fs::File::open(dir.join("f0"))?;
            f.seek(std::io::SeekFrom::Start(0))?;
            cmd.stdin(f)
        }
    };
    if limited {
        limit(&mut cmd);
    }
    let mut child = cmd.spawn()?;
    drop(cmd);
    let watch = Watch::new(child.id() as i32, 120);
    let stdin = child.stdin.take();
    let out = std::thread::scope(|s| {
        s.spawn(|| {
            let Some(mut w) = stdin else { return };
            let d = &m.files[0];
            let tail = d.sparse_tail().to_vec();
            let zeros = vec![0u8; 1 << 16];
            let mut left = d.len - tail.len();
            while left > 0 {
                let n = left.min(zeros.len());
                if w.write_all(&zeros[..n]).is_err() {
                    return;
                }
                left -= n;
            }
            let _ = w.write_all(&tail);
        });
        child.wait_with_output()
    })?;
    if watch.expired() {
        return Err(std::io::Error::other("the tool did not end within 120 s"));
    }
    Ok((out.status.code(), out.stdout, out.stderr))
}

enum Out {
    Ok,
    Bad(String),
}

fn run_case(t: &Tools, m: &Mem, dir: &Path) -> std::io::Result<Out> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir)?;
    for (i, d) in m.files.iter().enumerate() {
        let f = std::fs::File::create(dir.join(format!("f{i}")))?;
        f.set_len(d.len as u64)?;
        let tail = d.sparse_tail().to_vec();
        f.write_all_at(&tail, (d.len - tail.len()) as u64)?;
    }
    let free = run_once(t, m, dir, false)?;
    let bound = run_once(t, m, dir, true)?;
    let _ = std::fs::remove_dir_all(dir);
    if (free.0, &free.1) == (bound.0, &bound.1) {
        return Ok(Out::Ok);
    }
    let text = |b: &[u8]| String::from_utf8_lossy(b).chars().take(400).collect::<String>();
    Ok(Out::Bad(format!(
        "{} bytes in {} inputs, with {} MiB of memory and {} open files allowed: status {:?}, stdout {:?}, stderr {:?}; without limits: status {:?}, stdout {:?}",
        m.total(),
        m.order.len().max(1),
        DATA >> 20,
        FILES,
        bound.0,
        text(&bound.1),
        text(&bound.2),
        free.0,
        text(&free.1)
    )))
}

pub fn run() -> i32 {
    let id = "C22";
    let t0 = Instant::now();
    for k in known_findings(id) {
        println!("KNOWN-FINDING: {k}");
    }
    probe();
    let tools = build_tools();
    start_watchdog();
    let per_worker = if thorough() { 3000 } else { 14 };
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<(Mem, String)>> = Mutex::new(None);
    #[derive(Default)]
    struct St {
        evaluations: usize,
        distinct: HashSet<Mem>,
        nontrivial: usize,
        samples: Vec<String>,
        with: BTreeMap<&'static str, usize>,
        bytes: u64,
    }
    let st = Mutex::new(St::default());
    let deadline = Instant::now() + Duration::from_secs(budget());
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (tools, stop, failure, st) = (&tools, &stop, &failure, &st);
            s.spawn(move || {
                let config = Config { failure_persistence: None, ..Config::default() };
                let mut runner = TestRunner::new_with_rng(config, rng_for(seed(), id, "cli", w));
                let dir = run_dir().join(format!("w{w}"));
                let strat = mem();
                for _ in 0..per_worker {
                    if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                        return;
                    }
                    let mut tree = match strat.new_tree(&mut runner) {
                        Ok(t) => t,
                        Err(e) => infra(&format!("generator: {e}")),
                    };
                    let go = |m: &Mem| run_case(tools, m, &dir).unwrap_or_else(|e| infra(&format!("{e}")));
                    let m = tree.current();
                    if let Out::Bad(e) = go(&m) {
                        if stop.swap(true, Ordering::SeqCst) {
                            return;
                        }
                        let mut best = (m, e);
                        let t = Instant::now();
                        let mut more = tree.simplify();
                        while more && t.elapsed() < Duration::from_secs(45) {
                            let m = tree.current();
                            more = match go(&m) {
                                Out::Bad(e) => {
                                    best = (m, e);
                                    tree.simplify()
                                }
                                Out::Ok => tree.complicate(),
                            };
                        }
                        *failure.lock().unwrap() = Some(best);
                        return;
                    }
                    let mut st = st.lock().unwrap();
                    st.evaluations += 1;
                    st.bytes += m.total() as u64;
                    let mut add = |b: bool, k: &'static str| {
                        if b {
                            *st.with.entry(k).or_default() += 1;
                        }
                    };
                    let largest = m.files.iter().map(|f| f.len).max().unwrap_or(0);
                    add(m.stdin == 1, "standard input from a pipe");
                    add(m.stdin == 2, "standard input from a file");
                    add(largest > DATA as usize, "an input larger than the memory allowed");
                    add(largest <= DATA as usize && m.total() > DATA as usize, "inputs that are too large together");
                    add(m.order.len() > FILES as usize, "more inputs than files may be open");
                    let nontrivial = m.total() > DATA as usize || m.order.len() > FILES as usize;
                    if st.distinct.insert(m.clone()) && nontrivial {
                        st.nontrivial += 1;
                        if st.samples.len() < 4 && st.nontrivial % 7 == 1 {
                            st.samples.push(m.enc().chars().take(500).collect());
                        }
                    }
                }
            });
        }
    });
    let failure = failure.into_inner().unwrap();
    let st = st.into_inner().unwrap();
    eprintln!("{id}: {} commands run in {:.1}s", st.evaluations, t0.elapsed().as_secs_f64());
    Evidence {
        id,
        evaluations: st.evaluations,
        nontrivial: st.nontrivial,
        rule: format!(
            "commands with generated legal flags and sparse inputs (one from standard input or a file of 40-400 MiB, several of up to 20 MiB, or up to 12,000 small ones), run with and without a limit of {} MiB of private memory and {FILES} open files; output and status must be the same; non-trivial: more input than memory, or more inputs than files may be open",
            DATA >> 20
        ),
        samples: st.samples,
        extra: vec![
            ("runs_with".into(), counts_json(st.with.iter().map(|(k, v)| (*k, *v)))),
            ("bytes_hashed".into(), st.bytes.to_string()),
            ("oracle_vectors_checked".into(), model::self_check().unwrap_or(0).to_string()),
        ],
        assumptions: vec![
            "private writable memory, which RLIMIT_DATA bounds, is the memory that grows (a probe shows that the limit works)".into(),
            "a tool that needs less than the limit for these inputs needs no more for longer ones".into(),
        ],
        wall: t0.elapsed().as_secs_f64(),
        violations: failure.is_some() as usize,
    }
    .write();
    cleanup();
    match failure {
        None => 0,
        Some((m, what)) => {
            let path = replay_path(id, "mem");
            let s = format!("# property {id}\n# seed {}\n# {}\n# replay with: ./check replay THIS_FILE\n{}", seed(), what.replace('\n', "\n# "), m.enc());
            if let Err(e) = std::fs::write(&path, s) {
                infra(&format!("cannot write replay: {e}"));
            }
            violation(id, &path, &what);
            1
        }
    }
}

pub fn replay(path: &str, text: &str) -> i32 {
    probe();
    let tools = build_tools();
    start_watchdog();
    let r = run_case(&tools, &Mem::parse(text), &run_dir().join("replay"));
    cleanup();
    match r {
        Ok(Out::Ok) => {
            println!("the property holds on {path}");
            0
        }
        Ok(Out::Bad(e)) => {
            println!("fails: {e}");
            1
        }
        Err(e) => infra(&format!("{e}")),
    }
}
