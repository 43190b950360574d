//! C16: comparing hash values must not branch on, or address memory by, the bytes compared.
//! Memcheck tracks how undefined (here: secret) bytes flow; the program in ct/ marks the bytes and
//! counts the branches and addresses that depend on them.

use crate::case::hex;
use crate::cfgs::*;
use crate::runner::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
struct Ct {
    b: bool,
    hh: bool,
    which: u8,
    off: u8,
    x: Vec<u8>,
    y: Vec<u8>,
}

impl Ct {
    fn enc(&self) -> String {
        format!(
            "{} {} {} {} {} {}",
            if self.b { "b" } else { "s" },
            if self.hh { "hh" } else { "hs" },
            self.which,
            self.off,
            hex(&self.x),
            hex(&self.y)
        )
    }
}

fn strat() -> BoxedStrategy<Ct> {
    let len = prop_oneof![3 => Just(usize::MAX), 2 => 1usize..=64, 1 => (0u32..7).prop_map(|k| 1usize << k)];
    let byte = prop_oneof![8 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8)];
    (
        any::<bool>(),
        any::<bool>(),
        1u8..4,
        prop_oneof![1 => Just(0u8), 1 => 0u8..40],
        len,
        proptest::collection::vec(byte, 64..=64),
        // equal, one bit, everything different, a common prefix only
        (0u8..4, any::<u32>()),
    )
        .prop_map(|(b, hh, which, off, len, bytes, (how, r))| {
            let out = if b { 64 } else { 32 };
            let len = if len == usize::MAX { out } else { (len - 1) % out + 1 };
            let x = bytes[..len].to_vec();
            let mut y = x.clone();
            let r = r as usize;
            match how {
                0 => {}
                1 => y[r / 8 % len] ^= 1 << (r % 8),
                2 => y.iter_mut().for_each(|v| *v = !*v),
                _ => y[r % len..].iter_mut().for_each(|v| *v = v.wrapping_mul(5).wrapping_add(1)),
            }
            Ct { b, hh, which, off, x, y }
        })
        .boxed()
}

const PROFILES: [(&str, &str, &str); 4] = [
    // name, cargo arguments, directory
    ("release", "--profile release", "release"),
    ("small", "--profile small", "small"),
    ("release-nostd", "--profile release --no-default-features", "release"),
    ("debug", "--profile dev", "debug"),
];

fn build_ct(names: &[&str]) -> Vec<(&'static str, PathBuf)> {
    let t = Instant::now();
    let mut v = vec![];
    for (name, args, sub) in PROFILES.iter().filter(|p| names.contains(&p.0)) {
        let dir = target_dir().join(format!("ct-{name}"));
        refresh(&dir);
        let mut c = cargo(STABLE);
        c.args(["build", "--offline", "--manifest-path"]).arg(verif_dir().join("ct/Cargo.toml"));
        c.args(args.split(' ')).env("CARGO_TARGET_DIR", &dir).stdin(Stdio::null());
        match c.output() {
            Ok(o) if o.status.success() => {}
            Ok(o) => infra(&format!("ct does not build: {}", String::from_utf8_lossy(&o.stderr))),
            Err(e) => infra(&format!("cargo: {e}")),
        }
        v.push((*name, dir.join(sub).join("ct")));
    }
    eprintln!("built ct in {:.1}s", t.elapsed().as_secs_f64());
    v
}

/// For each case: what is wrong, if anything.
fn run_cases(bin: &PathBuf, cases: &[Ct]) -> Vec<Option<String>> {
    let mut child = match Command::new("valgrind")
        .args(["-q", "--error-limit=no", "--num-callers=12"])
        .arg(bin)
        .env_clear()
        .env("PATH", std::env::var("PATH").unwrap_or_default())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => infra(&format!("valgrind: {e}")),
    };
    let mut text: String = cases.iter().map(|c| c.enc() + "\n").collect();
    text.push('\n');
    text.pop();
    let mut stdin = child.stdin.take().unwrap();
    let out = std::thread::scope(|s| {
        s.spawn(move || {
            let _ = stdin.write_all(text.as_bytes());
        });
        child.wait_with_output()
    });
    let out = match out {
        Ok(o) => o,
        Err(e) => infra(&format!("valgrind: {e}")),
    };
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut lines = stdout.lines();
    if lines.next() != Some("probe 1") || !out.status.success() {
        infra(&format!("memcheck does not work here: {stdout} {}", String::from_utf8_lossy(&out.stderr)));
    }
    let got: Vec<&str> = lines.collect();
    if got.len() != cases.len() {
        infra("memcheck run ended early");
    }
    got.iter()
        .map(|g| {
            // whether the comparison is right is not asked here
            let (n, _) = g.split_once(' ').unwrap();
            if n != "0" {
                return Some(format!("{n} branches or addresses depend on the bytes compared"));
            }
            None
        })
        .collect()
}

pub fn run() -> i32 {
    let id = "C16";
    let t0 = Instant::now();
    for k in known_findings(id) {
        println!("KNOWN-FINDING: {k}");
    }
    let bins = build_ct(&["release", "small", "release-nostd", "debug"]);
    let rounds = if thorough() { 400 } else { 12 };
    const BATCH: usize = 400;
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<(Ct, &'static str, String)>> = Mutex::new(None);
    struct St {
        evaluations: usize,
        runs: usize,
        distinct: HashSet<String>,
        samples: Vec<String>,
        with: BTreeMap<&'static str, usize>,
        lengths: HashSet<(bool, usize)>,
    }
    let st = Mutex::new(St {
        evaluations: 0,
        runs: 0,
        distinct: HashSet::new(),
        samples: vec![],
        with: BTreeMap::new(),
        lengths: HashSet::new(),
    });
    let deadline = Instant::now() + Duration::from_secs(budget());
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (bins, stop, failure, st) = (&bins, &stop, &failure, &st);
            s.spawn(move || {
                let config = Config { failure_persistence: None, ..Config::default() };
                let mut runner = TestRunner::new_with_rng(config, rng_for(seed(), id, "ct", w));
                let strat = strat();
                for round in 0..(rounds / WORKERS).max(1) {
                    if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                        return;
                    }
                    let mut trees: Vec<_> = (0..BATCH).map(|_| strat.new_tree(&mut runner).unwrap()).collect();
                    let cases: Vec<Ct> = trees.iter().map(|t| t.current()).collect();
                    for k in 0..bins.len() {
                        let (name, bin) = &bins[(k + w + round) % bins.len()];
                        let res = run_cases(bin, &cases);
                        st.lock().unwrap().runs += cases.len();
                        if let Some(i) = res.iter().position(|r| r.is_some()) {
                            if stop.swap(true, Ordering::SeqCst) {
                                return;
                            }
                            let mut best = (cases[i].clone(), *name, res[i].clone().unwrap());
                            let tree = &mut trees[i];
                            let t = Instant::now();
                            let mut more = tree.simplify();
                            while more && t.elapsed() < Duration::from_secs(60) {
                                let c = tree.current();
                                more = match run_cases(bin, std::slice::from_ref(&c)).remove(0) {
                                    Some(e) => {
                                        best = (c, *name, e);
                                        tree.simplify()
                                    }
                                    None => tree.complicate(),
                                };
                            }
                            *failure.lock().unwrap() = Some(best);
                            return;
                        }
                    }
                    let mut st = st.lock().unwrap();
                    for c in &cases {
                        st.evaluations += 1;
                        st.lengths.insert((c.b, c.x.len()));
                        let mut add = |b: bool, k: &'static str| {
                            if b {
                                *st.with.entry(k).or_default() += 1;
                            }
                        };
                        add(c.x == c.y, "equal bytes");
                        add(c.x != c.y, "different bytes");
                        add(c.hh, "hash with hash");
                        add(!c.hh, "hash with slice");
                        add(c.x.len() == if c.b { 64 } else { 32 }, "full length");
                        let e = c.enc();
                        if st.samples.len() < 4 && c.x.len() < 20 {
                            st.samples.push(e.clone());
                        }
                        st.distinct.insert(e);
                    }
                }
            });
        }
    });
    let failure = failure.into_inner().unwrap();
    let st = st.into_inner().unwrap();
    eprintln!("C16: {} comparisons in {:.1}s", st.runs, t0.elapsed().as_secs_f64());
    Evidence {
        id,
        evaluations: st.evaluations,
        nontrivial: st.distinct.len(),
        rule: "pairs of byte strings of one generated length 1..64 (1..32), equal, differing in one bit, with a common prefix, or all different; compared as two hash values or hash value and slice at a generated offset, under memcheck with the bytes of one or both sides marked as secret; the number of branches and addresses that depend on them must be zero; every distinct case is non-trivial, as at least one secret byte on at least one side is compared".into(),
        samples: st.samples,
        extra: vec![
            ("executions".into(), st.runs.to_string()),
            ("cases_with".into(), counts_json(st.with.iter().map(|(k, v)| (*k, *v)))),
            ("distinct_lengths".into(), st.lengths.len().to_string()),
            ("builds".into(), format!("[{}]", bins.iter().map(|b| json_str(b.0)).collect::<Vec<_>>().join(", "))),
        ],
        assumptions: vec![
            "memcheck's tracking of undefined bytes is exact enough to see every branch and address that depends on them (a probe is checked at every run)".into(),
            "instructions whose own duration depends on data are not seen".into(),
        ],
        wall: t0.elapsed().as_secs_f64(),
        violations: failure.is_some() as usize,
    }
    .write();
    cleanup();
    match failure {
        None => 0,
        Some((c, name, what)) => {
            let path = replay_path(id, "ct");
            let s = format!("# property {id}\n# configuration {name}\n# seed {}\n# {what}\n# replay with: ./check replay THIS_FILE\n{}\n", seed(), c.enc());
            if let Err(e) = std::fs::write(&path, s) {
                infra(&format!("cannot write replay: {e}"));
            }
            violation(id, &path, &format!("build {name}: {what}"));
            1
        }
    }
}

pub fn replay(path: &str, text: &str, cfg: &str) -> i32 {
    let bins = build_ct(&[cfg]);
    let unhex = |t: &str| -> Vec<u8> {
        (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let cases: Vec<Ct> = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.is_empty())
        .map(|l| {
            let t: Vec<&str> = l.split(' ').collect();
            Ct {
                b: t[0] == "b",
                hh: t[1] == "hh",
                which: t[2].parse().unwrap(),
                off: t[3].parse().unwrap(),
                x: unhex(t[4]),
                y: unhex(t[5]),
            }
        })
        .collect();
    let r = run_cases(&bins[0].1, &cases);
    match r.into_iter().flatten().next() {
        Some(e) => {
            println!("fails: {e}");
            1
        }
        None => {
            println!("the property holds on {path}");
            0
        }
    }
}
