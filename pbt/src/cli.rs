//! Checks of the command-line tool: generated argument lists, input files, standard input and
//! injected faults, against the specification model.

use crate::case::*;
use crate::cfgs::*;
use crate::gen::{self, Lens};
use crate::model::{self, MP};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FileKind {
    Regular,
    Symlink,
    Fifo,
    Missing,
    Dir,
    DanglingLink,
    /// another name of the first input's file
    HardLink,
}

const KINDS: [(FileKind, &str); 7] = [
    (FileKind::HardLink, "hardlink"),
    (FileKind::Regular, "regular"),
    (FileKind::Symlink, "symlink"),
    (FileKind::Fifo, "fifo"),
    (FileKind::Missing, "missing"),
    (FileKind::Dir, "dir"),
    (FileKind::DanglingLink, "dangling"),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    Short(u32),
    Eintr,
    Err(u8),
    Pass,
}

impl Act {
    fn enc(&self) -> String {
        match self {
            Act::Short(n) => format!("s{n}"),
            Act::Eintr => "i".into(),
            Act::Err(e) => format!("e{e}"),
            Act::Pass => "k".into(),
        }
    }
    fn parse(s: &str) -> Act {
        match s.as_bytes()[0] {
            b's' => Act::Short(s[1..].parse().unwrap()),
            b'i' => Act::Eintr,
            b'e' => Act::Err(s[1..].parse().unwrap()),
            _ => Act::Pass,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Input {
    pub name: Vec<u8>,
    pub kind: FileKind,
    pub data: Data,
    /// 0 ./name, 1 absolute, 2 name, 3 sub/../name, 4 name in a directory of its own
    pub path: u8,
    pub open_errno: u8,
    pub mmap_errno: u8,
    pub acts: Vec<Act>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Arg {
    Tok(String),
    /// the path of an input
    In(usize),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Cli {
    /// 0 release, 1 debug build
    pub profile: u8,
    pub args: Vec<Arg>,
    /// the parameters the arguments mean; None if they are illegal
    pub params: Option<(Alg, Vec<Setter>)>,
    pub mmap: bool,
    pub inputs: Vec<Input>,
    /// standard input, and the sizes of the pieces in which it is written
    pub stdin: Data,
    pub pieces: Vec<u32>,
    pub stdin_acts: Vec<Act>,
    /// where standard output goes: 0 a pipe that is read, 1 a full device, 2 a pipe nobody reads
    pub sink: u8,
    /// standard input is 0 a pipe, n+1 a regular file, of which n bytes have been read already
    pub stdin_file: u32,
    /// at most 1024 open files
    pub limited: bool,
}

fn acts_enc(v: &[Act]) -> String {
    if v.is_empty() {
        "-".into()
    } else {
        v.iter().map(|a| a.enc()).collect::<Vec<_>>().join(",")
    }
}

fn acts_parse(s: &str) -> Vec<Act> {
    if s == "-" {
        vec![]
    } else {
        s.split(',').map(Act::parse).collect()
    }
}

impl Cli {
    pub fn enc(&self) -> String {
        let mut s = format!("profile {}\nmmap {}\n", self.profile, self.mmap as u8);
        s.push_str(&format!("io {} {} {}\n", self.sink, self.stdin_file, self.limited as u8));
        match &self.params {
            None => s.push_str("meaning illegal\n"),
            Some((a, v)) => {
                let v: Vec<String> = v.iter().map(|x| x.enc()).collect();
                s.push_str(&format!("meaning {} {}\n", a.tag(), if v.is_empty() { "-".into() } else { v.join(",") }));
            }
        }
        for a in &self.args {
            match a {
                Arg::Tok(t) => s.push_str(&format!("arg {t}\n")),
                Arg::In(i) => s.push_str(&format!("input {i}\n")),
            }
        }
        for f in &self.inputs {
            let k = KINDS.iter().find(|k| k.0 == f.kind).unwrap().1;
            s.push_str(&format!(
                "file {} {k} {} {} {} {} {}\n",
                hex(&f.name),
                f.data.enc(),
                f.path,
                f.open_errno,
                f.mmap_errno,
                acts_enc(&f.acts)
            ));
        }
        let p: Vec<String> = self.pieces.iter().map(|n| n.to_string()).collect();
        s.push_str(&format!(
            "stdin {} {} {}\n",
            self.stdin.enc(),
            if p.is_empty() { "-".into() } else { p.join(",") },
            acts_enc(&self.stdin_acts)
        ));
        s
    }

    pub fn parse(text: &str) -> Cli {
        let mut c = Cli {
            profile: 0,
            args: vec![],
            params: None,
            mmap: false,
            inputs: vec![],
            stdin: Data::EMPTY,
            pieces: vec![],
            stdin_acts: vec![],
            sink: 0,
            stdin_file: 0,
            limited: false,
        };
        for l in text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
            let (k, v) = l.split_once(' ').unwrap();
            let t: Vec<&str> = v.split(' ').collect();
            match k {
                "profile" => c.profile = v.parse().unwrap(),
                "mmap" => c.mmap = v == "1",
                "io" => {
                    c.sink = t[0].parse().unwrap();
                    c.stdin_file = t[1].parse().unwrap();
                    c.limited = t[2] == "1";
                }
                "meaning" => {
                    if v != "illegal" {
                        let sets = if t[1] == "-" { vec![] } else { t[1].split(',').map(Setter::parse).collect() };
                        c.params = Some((Alg::parse(t[0]), sets));
                    }
                }
                "arg" => c.args.push(Arg::Tok(v.to_string())),
                "input" => c.args.push(Arg::In(v.parse().unwrap())),
                "file" => c.inputs.push(Input {
                    name: (0..t[0].len() / 2).map(|i| u8::from_str_radix(&t[0][2 * i..2 * i + 2], 16).unwrap()).collect(),
                    kind: KINDS.iter().find(|k| k.1 == t[1]).unwrap().0,
                    data: Data::parse(t[2]),
                    path: t[3].parse().unwrap(),
                    open_errno: t[4].parse().unwrap(),
                    mmap_errno: t[5].parse().unwrap(),
                    acts: acts_parse(t[6]),
                }),
                "stdin" => {
                    c.stdin = Data::parse(t[0]);
                    c.pieces = if t[1] == "-" { vec![] } else { t[1].split(',').map(|x| x.parse().unwrap()).collect() };
                    c.stdin_acts = acts_parse(t[2]);
                }
                _ => panic!("bad line {l}"),
            }
        }
        c
    }

    fn uses_shim(&self) -> bool {
        !self.stdin_acts.is_empty()
            || self.inputs.iter().any(|f| !f.acts.is_empty() || f.open_errno != 0 || f.mmap_errno != 0)
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Debug)]
struct RInput {
    name: u16,
    kind: u8,
    data: gen::RData,
    path: u8,
    open: u8,
    map: u8,
    acts: Vec<Act>,
    /// similar to the first input: bit 0 same name in another directory, bit 1 same length
    alike: u8,
}

#[derive(Clone, Debug)]
struct Raw {
    alg: Alg,
    spelling: u16,
    setters: Vec<(gen::RSetter, u8)>,
    mmap: bool,
    inputs: Vec<RInput>,
    /// repeat an earlier input
    again: Vec<u16>,
    order: Vec<u16>,
    stdin: gen::RData,
    pieces: Vec<u32>,
    stdin_acts: Vec<Act>,
    illegal: Option<(u8, u64)>,
    profile: u8,
    dashdash: bool,
    sink: u8,
    stdin_file: u32,
}

const ERRNOS: [u8; 18] = [
    5 /*EIO*/, 13 /*EACCES*/, 12 /*ENOMEM*/, 21 /*EISDIR*/, 116 /*ESTALE*/, 75 /*EOVERFLOW*/, 11 /*EAGAIN*/, 1 /*EPERM*/,
    2 /*ENOENT*/, 6 /*ENXIO*/, 121 /*EREMOTEIO; not EBADF, which the standard library takes for a closed, empty standard input*/, 14 /*EFAULT*/, 16 /*EBUSY*/, 19 /*ENODEV*/, 22 /*EINVAL*/, 32 /*EPIPE*/,
    104 /*ECONNRESET*/, 110, /*ETIMEDOUT*/
];

/// Names that a tool may be tempted to treat in some way.
const SPECIAL: [&[u8]; 22] = [
    b"-", b"-", b"--", b"--mmap", b"stdin", b"-s", b"*", b"~", b"#", b"%s", b".hidden", b"back\\slash", b" ", b" lead", b"trail ", b"tab\there",
    b"cr\r", b"f.b2sum", b"'quoted'", b"\"q\"", b"$HOME", b"{}",
];

fn name_of(n: u16, i: usize) -> Vec<u8> {
    let base = format!("f{i}");
    match n % 13 {
        0..=4 => format!("{base}.bin").into_bytes(),
        5 => format!("{base} with  spaces").into_bytes(),
        6 => format!("-{base}").into_bytes(),
        7 => format!("{base}-ünï→").into_bytes(),
        8 => [base.as_bytes(), b"\xff\xfe\x80"].concat(),
        9 => format!("{base}\nline").into_bytes(),
        10 => format!("--length={i}").into_bytes(),
        // in a directory of its own
        11 => SPECIAL[(n / 13) as usize % SPECIAL.len()].to_vec(),
        _ => format!("{base}{}", "x".repeat(n as usize % 180)).into_bytes(),
    }
}

fn hexcase(b: &[u8], upper: bool) -> String {
    let h = hex(b);
    if upper {
        h.to_uppercase()
    } else {
        h
    }
}

/// The flag of a setter
fn flag(s: &Setter, upper: bool) -> (&'static str, Option<String>) {
    let n = |x: u64| Some(x.to_string());
    match s {
        Setter::HashLength(v) => ("--length", n(*v as u64)),
        Setter::Key(d) => ("--key", Some(hexcase(&d.to_vec(), upper))),
        Setter::Salt(d) => ("--salt", Some(hexcase(&d.to_vec(), upper))),
        Setter::Personal(d) => ("--personal", Some(hexcase(&d.to_vec(), upper))),
        Setter::Fanout(v) => ("--fanout", n(*v as u64)),
        Setter::MaxDepth(v) => ("--max-depth", n(*v as u64)),
        Setter::MaxLeaf(v) => ("--max-leaf-length", n(*v as u64)),
        Setter::NodeOffset(v) => ("--node-offset", n(*v)),
        Setter::NodeDepth(v) => ("--node-depth", n(*v as u64)),
        Setter::InnerLen(v) => ("--inner-hash-length", n(*v as u64)),
        Setter::LastNode(_) => ("--last-node", None),
        _ => unreachable!(),
    }
}

/// A number too wide for its field whose low bits are a legal value.
fn beyond(widths: &[u32], r: u64, legal: u64) -> String {
    let w = widths[(r % widths.len() as u64) as usize];
    (legal as u128 + ((1 + (r >> 2) as u128 % 3) << w)).to_string()
}

/// Bytes in hexadecimal, not more than allowed, with something wrong: a character that is no
/// digit (among them those that lenient number parsers take or skip) or an odd number of them.
fn badhex(r: u64, most: u64) -> String {
    let r = crate::case::mix(r);
    let len = 1 + r % most.min(if r & 1 << 40 == 0 { 4 } else { most });
    let mut s: Vec<char> = (0..2 * len).map(|i| b"0123456789abcdefABCDEF"[(crate::case::mix(r ^ i) % 22) as usize] as char).collect();
    let at = ((r >> 8) % s.len() as u64) as usize;
    const BAD: [char; 20] = ['+', '-', ' ', '_', 'x', 'g', 'G', 'z', 'é', '/', ':', '@', '`', '.', ',', '\t', '\n', 'o', 'ａ', '\u{0663}'];
    let c = BAD[(r >> 20) as usize % BAD.len()];
    match (r >> 30) % 8 {
        0 => {
            s.remove(at);
        }
        1 => s.insert(at, c),
        2 => s.insert(0, c),
        3 => s.push(c),
        4 => {
            s[0] = '0';
            s[1] = 'x';
        }
        5 => s[at & !1] = c,
        _ => s[at] = c,
    }
    s.into_iter().collect()
}

/// An illegal argument for the algorithm, by kind: the flag to replace, and the tokens.
fn illegal(kind: u8, r: u64, alg: Alg) -> (&'static str, Vec<String>) {
    let out = alg.out() as u64;
    let one = |f: &'static str, v: String| (f, vec![format!("{f}={v}")]);
    let hexes = |n: u64| "5a".repeat(n as usize);
    let serial_only = [
        ("--salt", "00".to_string()),
        ("--personal", "0102".into()),
        ("--fanout", "1".into()),
        ("--max-depth", "1".into()),
        ("--max-leaf-length", "0".into()),
        ("--node-offset", "0".into()),
        ("--node-depth", "0".into()),
        ("--inner-hash-length", "0".into()),
    ];
    match kind {
        0 => one("--length", "0".into()),
        1 => one("--length", (out + 1 + r % 3).to_string()),
        2 => one("--length", beyond(&[8, 16, 32, 64], r, 1 + (r >> 8) % out)),
        3 => one("--length", ["-1", "x", "", "1.0", " 5", "0x10", "99999999999999999999999"][r as usize % 7].into()),
        4 => one("--key", hexes(out + 1 + r % 4)),
        5 => one("--key", hexes(256 + r % (out + 1))),
        6 => one("--key", format!("{}5", hexes(r % 8))),
        7 => one("--key", badhex(r, out)),
        8 if !alg.is_par() => one(if r % 2 == 0 { "--salt" } else { "--personal" }, hexes(alg.salt() as u64 + 1 + (r >> 1) % 4)),
        9 if !alg.is_par() => {
            let f = ["--salt", "--personal"][r as usize % 2];
            one(f, badhex(r >> 1, alg.salt() as u64))
        }
        10 if !alg.is_par() => {
            let f = ["--fanout", "--max-depth", "--node-depth"][r as usize % 3];
            match (r >> 2) % 8 {
                k @ 0..=5 => one(f, ["256", "-1", "257", "1000", "x", ""][k as usize].into()),
                _ => one(f, beyond(&[8, 16, 32, 64], r >> 5, (r >> 16) % 256)),
            }
        }
        11 if !alg.is_par() => match r % 8 {
            k @ 0..=3 => one("--max-leaf-length", ["4294967296", "-1", "4294967297", "y"][k as usize].into()),
            _ => one("--max-leaf-length", beyond(&[32, 48, 64], r >> 3, (r >> 16) & 0xffff_ffff)),
        },
        12 if !alg.is_par() => one("--node-offset", if alg == Alg::S { ["281474976710656", "281474976710657", "18446744073709551615"][r as usize % 3].into() } else { ["18446744073709551616".into(), "-1".into(), "z".into(), beyond(&[64], r >> 2, r >> 16)][r as usize % 4].clone() }),
        13 if !alg.is_par() => match r % 6 {
            k @ 0..=3 => one("--inner-hash-length", [out + 1, 256, 256 + out, 1000][k as usize].to_string()),
            _ => one("--inner-hash-length", beyond(&[8, 16, 32, 64], r >> 3, (r >> 8) % (out + 1))),
        },
        8..=14 if alg.is_par() => {
            if r % 9 == 8 {
                ("--last-node", vec!["--last-node".into()])
            } else {
                let (f, v) = &serial_only[r as usize % 9 % 8];
                one(f, v.clone())
            }
        }
        15 => ("-b -s", if alg.is_b() { vec!["-s".into()] } else { vec!["-b".into()] }),
        16 => ("", vec![["--no-such-flag", "-x", "--lengthy=4", "-q", "--key-file=x"][r as usize % 5].into()]),
        17 => ("--mmap", vec!["--mmap".into()]),
        _ => one("--length", "65".into()),
    }
}

fn resolve(r: &Raw, faults: bool) -> Cli {
    let alg = r.alg;
    let mut c = Cli {
        profile: r.profile % 4 / 3,
        args: vec![],
        params: None,
        mmap: r.mmap && !r.inputs.is_empty(),
        inputs: vec![],
        stdin: Data::EMPTY,
        pieces: vec![],
        stdin_acts: vec![],
        sink: if faults { r.sink } else { 0 },
        stdin_file: 0,
        limited: r.again.len() > 100,
    };
    // groups of tokens that belong together
    let mut toks: Vec<Vec<Arg>> = vec![];
    let tok = |s: &str| vec![Arg::Tok(s.to_string())];
    let sp = r.spelling;
    // -b, with the default spelled out when the illegal part needs a conflict
    let conflict = matches!(r.illegal, Some((15, _)));
    let explicit_b = sp & 1 == 1 || conflict;
    match (alg, sp >> 1 & 3) {
        (Alg::B, _) => {
            if explicit_b {
                toks.push(tok("-b"));
            }
        }
        (Alg::S, _) => toks.push(tok("-s")),
        (Alg::Bp, k) => match (explicit_b, k) {
            (false, _) => toks.push(tok("-p")),
            (true, 0) => toks.push(tok("-bp")),
            (true, 1) => toks.push(tok("-pb")),
            _ => {
                toks.push(tok("-b"));
                toks.push(tok("-p"));
            }
        },
        (Alg::Sp, 0) => toks.push(tok("-sp")),
        (Alg::Sp, 1) => toks.push(tok("-ps")),
        (Alg::Sp, _) => {
            toks.push(tok("-s"));
            toks.push(tok("-p"));
        }
    }
    let mut setters: BTreeMap<&'static str, (Setter, u8)> = BTreeMap::new();
    for (s, how) in &r.setters {
        for s in gen::resolve_setters(std::slice::from_ref(s), alg) {
            if matches!(s, Setter::Portable | Setter::CloneSelf | Setter::Use | Setter::LastNode(false)) {
                continue;
            }
            setters.insert(flag(&s, false).0, (s, *how));
        }
    }
    if let Some((k, x)) = r.illegal {
        let (f, t) = illegal(k, x, alg);
        setters.remove(f);
        toks.push(t.into_iter().map(Arg::Tok).collect());
        if f == "--mmap" {
            c.mmap = false;
        }
    }
    for (f, (s, how)) in &setters {
        match flag(s, how & 1 == 1).1 {
            None => toks.push(tok(f)),
            // an empty value only with an equals sign
            Some(v) if how & 2 == 0 || v.is_empty() => toks.push(tok(&format!("{f}={v}"))),
            Some(v) => toks.push(vec![Arg::Tok(f.to_string()), Arg::Tok(v)]),
        }
    }
    if c.mmap {
        toks.push(tok("--mmap"));
    }
    if r.illegal.is_none() {
        c.params = Some((alg, setters.values().map(|x| x.0).collect()));
    }
    // inputs; the illegal use of --mmap needs none
    let no_inputs = matches!(r.illegal, Some((17, _)));
    let mut paths: Vec<usize> = vec![];
    if !no_inputs {
        for (i, f) in r.inputs.iter().enumerate() {
            let kind = match f.kind {
                0..=5 => FileKind::Regular,
                6 => FileKind::Symlink,
                7 if !c.mmap => FileKind::Fifo,
                8 if faults => FileKind::Missing,
                11 if i > 0 && c.inputs[0].kind == FileKind::Regular => FileKind::HardLink,
                9 if faults => FileKind::Dir,
                10 if faults => FileKind::DanglingLink,
                _ => FileKind::Regular,
            };
            let mut data = f.data.resolve(alg, 0, 1 << 21);
            if c.limited {
                data.len = data.len.min(5000);
            }
            if c.mmap && data.len == 0 && !faults {
                // mapping an empty file fails, as documented in the source
                data.len = 1;
            }
            let fault = faults && matches!(kind, FileKind::Regular | FileKind::Symlink);
            let mut name = name_of(f.name, i);
            let mut path = if SPECIAL.contains(&&name[..]) { 4 } else { f.path };
            if i > 0 && f.alike & 1 == 1 {
                name = c.inputs[0].name.clone();
                path = 4;
            }
            if i > 0 && f.alike & 2 == 2 {
                data.len = c.inputs[0].data.len;
            }
            if kind == FileKind::HardLink {
                data = c.inputs[0].data;
            }
            c.inputs.push(Input {
                // a leading dash needs a directory before it, or --
                path: if name[0] == b'-' && !r.dashdash && path == 2 { 0 } else { path },
                name,
                kind,
                data,
                open_errno: if fault && f.open < 18 { ERRNOS[f.open as usize] } else { 0 },
                mmap_errno: if fault && c.mmap && f.map < 18 { ERRNOS[f.map as usize] } else { 0 },
                acts: f
                    .acts
                    .iter()
                    .filter(|a| faults || matches!(a, Act::Short(_) | Act::Pass))
                    .copied()
                    .collect(),
            });
            paths.push(i);
        }
        for a in &r.again {
            if !c.inputs.is_empty() {
                let i = *a as usize % c.inputs.len();
                let f = &c.inputs[i];
                // The same path again. A fifo would have nothing to say the second time, and
                // faults are per path.
                if f.kind != FileKind::Fifo && f.acts.is_empty() {
                    paths.push(i);
                }
            }
        }
    }
    // order: flags and inputs mixed, keeping the order of the inputs
    let mut slots: Vec<(u16, usize, Option<Vec<Arg>>)> = vec![];
    for (i, t) in toks.into_iter().enumerate() {
        slots.push((r.order.get(i).copied().unwrap_or(0), i, Some(t)));
    }
    for (i, _) in paths.iter().enumerate() {
        let k = if r.dashdash { u16::MAX } else { r.order.get(20 + i).copied().unwrap_or(0) };
        slots.push((k, 1000 + i, None));
    }
    slots.sort_by_key(|s| (s.0, s.1));
    let mut rest = paths.iter();
    let mut dashed = false;
    for (_, _, t) in slots {
        match t {
            Some(t) => c.args.extend(t),
            None => {
                if r.dashdash && !dashed {
                    c.args.push(Arg::Tok("--".into()));
                    dashed = true;
                }
                c.args.push(Arg::In(*rest.next().unwrap()));
            }
        }
    }
    // with "--" flags after inputs would be inputs
    if r.dashdash {
        if let Some(p) = c.args.iter().position(|a| *a == Arg::Tok("--".into())) {
            let tail = c.args.split_off(p);
            let (flags, ins): (Vec<Arg>, Vec<Arg>) =
                tail.into_iter().skip(1).partition(|a| matches!(a, Arg::Tok(_)));
            c.args.extend(flags);
            c.args.push(Arg::Tok("--".into()));
            c.args.extend(ins);
        }
    }
    if c.inputs.is_empty() {
        c.stdin = r.stdin.resolve(alg, 0, 1 << 21);
        c.pieces = r.pieces.clone();
        c.stdin_file = r.stdin_file;
        c.stdin_acts =
            r.stdin_acts.iter().filter(|a| faults || matches!(a, Act::Short(_) | Act::Pass)).copied().collect();
    } else if r.stdin_file != 0 {
        // something to read on standard input although files are named: not to be touched
        c.stdin = r.stdin.resolve(alg, 0, 3000);
        c.stdin_file = r.stdin_file;
    }
    c
}

fn acts(faults: bool) -> BoxedStrategy<Vec<Act>> {
    let short = prop_oneof![
        3 => (1u32..10).prop_map(Act::Short),
        3 => (1u32..300).prop_map(Act::Short),
        3 => (1u32..40_000).prop_map(Act::Short),
        2 => (0u32..9).prop_map(|k| Act::Short(32768 >> k)),
    ];
    let one = if faults {
        prop_oneof![10 => short, 8 => Just(Act::Eintr), 3 => (0usize..18).prop_map(|i| Act::Err(ERRNOS[i])), 3 => Just(Act::Pass)].boxed()
    } else {
        prop_oneof![10 => short, 2 => Just(Act::Pass)].boxed()
    };
    prop_oneof![4 => Just(vec![]), 5 => vec(one.clone(), 1..8), 1 => vec(one, 1..60)].boxed()
}

fn raw(faults: bool) -> BoxedStrategy<Raw> {
    let len_data = prop_oneof![
        12 => gen::rdata(Lens::Message),
        // around the read buffer
        5 => (gen::rdata(Lens::Message), 0u32..6, -3i8..=3).prop_map(|(mut d, k, delta)| {
            d.len = gen::Len { kind: 13, k, delta };
            d
        }),
    ]
    .boxed();
    let input = (any::<u16>(), 0u8..12, len_data.clone(), 0u8..5, 0u8..90, 0u8..42, acts(faults), prop_oneof![5 => Just(0u8), 3 => 0u8..4])
        .prop_map(|(name, kind, data, path, open, map, acts, alike)| RInput { name, kind, data, path, open, map, acts, alike });
    let inputs = prop_oneof![3 => vec(input.clone(), 0..1), 3 => vec(input.clone(), 1..2), 5 => vec(input, 2..7)];
    let setters = prop_oneof![
        2 => vec((gen::rsetter(gen::Ps::Legal), any::<u8>()), 0..1),
        5 => vec((gen::rsetter(gen::Ps::Legal), any::<u8>()), 1..12)
    ];
    let ill = if faults {
        prop_oneof![1 => Just(None), 1 => (0u8..18, any::<u64>()).prop_map(Some)].boxed()
    } else {
        Just(None).boxed()
    };
    // rarely more inputs than files may be open at a time
    let again = prop_oneof![80 => vec(any::<u16>(), 0..2), 1 => vec(any::<u16>(), 1030..1200)];
    let sink = prop_oneof![30 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)];
    let stdin_file = prop_oneof![5 => Just(0u32), 2 => Just(1u32), 2 => 1u32..3000, 1 => 1u32..100_000];
    let pieces = prop_oneof![2 => Just(vec![]), 3 => vec(prop_oneof![1u32..50, 1u32..70_000], 1..12)];
    (
        (gen::algs(&Alg::ALL), any::<u16>(), setters, prop::bool::weighted(0.3), inputs, again),
        (vec(any::<u16>(), 40..=40), len_data, pieces, acts(faults), ill, any::<u8>(), prop::bool::weighted(0.2), sink, stdin_file),
    )
        .prop_map(
            |(
                (alg, spelling, setters, mmap, inputs, again),
                (order, stdin, pieces, stdin_acts, illegal, profile, dashdash, sink, stdin_file),
            )| Raw {
                alg,
                spelling,
                setters,
                mmap,
                inputs,
                again,
                order,
                stdin,
                pieces,
                stdin_acts,
                illegal,
                profile,
                dashdash,
                sink,
                stdin_file,
            },
        )
        .boxed()
}

/// Inputs of more than 4 GiB, mapped, read and from standard input.
fn big(w: usize) -> BoxedStrategy<Cli> {
    let extra = prop_oneof![0usize..70_000, 0usize..(1 << 27)];
    (extra, any::<u64>(), vec((gen::rsetter(gen::Ps::Legal), any::<u8>()), 0..4))
        .prop_map(move |(extra, seed, setters)| {
            let alg = [Alg::B, Alg::Sp, Alg::S, Alg::Bp][w / 3 % 4];
            let data = Data { pat: PAT_SPARSE, seed, len: (1 << 32) + extra, off: 0 };
            let raw = Raw {
                alg,
                spelling: seed as u16,
                setters,
                mmap: w % 3 == 0,
                inputs: vec![],
                again: vec![],
                order: vec![],
                stdin: gen::RData { pat: 0, seed: 0, len: gen::Len { kind: 9, k: 0, delta: 0 }, off: 0 },
                pieces: vec![],
                stdin_acts: vec![],
                illegal: None,
                profile: 0,
                dashdash: false,
                sink: 0,
                stdin_file: 0,
            };
            let mut c = resolve(&raw, false);
            if w % 3 == 2 {
                c.stdin = data;
            } else {
                c.mmap = w % 3 == 0;
                if c.mmap {
                    c.args.push(Arg::Tok("--mmap".into()));
                }
                c.args.push(Arg::In(0));
                c.inputs.push(Input { name: b"big".to_vec(), kind: FileKind::Regular, data, path: 0, open_errno: 0, mmap_errno: 0, acts: vec![] });
            }
            c
        })
        .boxed()
}

/// Legal flags
pub fn flags() -> BoxedStrategy<Vec<String>> {
    raw(false)
        .prop_map(|mut r| {
            r.inputs.clear();
            resolve(&r, false)
                .args
                .into_iter()
                .map(|a| match a {
                    Arg::Tok(t) => t,
                    Arg::In(_) => unreachable!(),
                })
                .collect()
        })
        .boxed()
}

// ---------------------------------------------------------------- running

pub struct Tools {
    /// release and debug binaries
    bins: [PathBuf; 2],
    shim: PathBuf,
}

pub fn build_tools() -> Tools {
    let dir = target_dir().join("bin");
    refresh(&dir);
    let t = Instant::now();
    let shim = dir.join("faults.so");
    let out = Command::new("gcc")
        .args(["-O1", "-fPIC", "-shared", "-o"])
        .arg(&shim)
        .arg(verif_dir().join("shim/faults.c"))
        .arg("-ldl")
        .output();
    if !out.as_ref().map_or(false, |o| o.status.success()) {
        infra(&format!("the fault shim does not build: {out:?}"));
    }
    let mut bins = vec![];
    for (prof, sub) in [(Some("--release"), "release"), (None, "debug")] {
        let mut c = cargo(STABLE);
        c.args(["build", "--offline"]).args(prof).current_dir("/repo/blake2_bin").env("CARGO_TARGET_DIR", &dir);
        match c.stdin(Stdio::null()).output() {
            Ok(o) if o.status.success() => {}
            Ok(o) => infra(&format!("the tool does not build: {}", String::from_utf8_lossy(&o.stderr))),
            Err(e) => infra(&format!("cargo: {e}")),
        }
        bins.push(dir.join(sub).join("blake2"));
    }
    eprintln!("built the tool in {:.1}s", t.elapsed().as_secs_f64());
    Tools { bins: [bins[0].clone(), bins[1].clone()], shim }
}

impl Tools {
    pub fn bin(&self, profile: u8) -> &Path {
        &self.bins[profile as usize & 1]
    }
}

fn own_dir(i: usize) -> String {
    format!("d{i}")
}

/// Where the file is
fn place(f: &Input, i: usize, dir: &Path) -> PathBuf {
    let d = if f.path == 4 { dir.join(own_dir(i)) } else { dir.to_path_buf() };
    d.join(OsString::from_vec(f.name.clone()))
}

/// How the tool is told about it
fn path_of(f: &Input, i: usize, dir: &Path) -> OsString {
    let name = OsString::from_vec(f.name.clone());
    match f.path {
        0 => Path::new(".").join(&name).into_os_string(),
        1 => dir.join(&name).into_os_string(),
        2 => name,
        4 => Path::new(&own_dir(i)).join(&name).into_os_string(),
        _ => Path::new("sub").join("..").join(&name).into_os_string(),
    }
}

extern "C" {
    fn mkfifo(path: *const u8, mode: u32) -> i32;
    fn setrlimit(what: i32, to: *const u64) -> i32;
}

pub enum Out {
    Ok { fired: usize, failed: usize },
    Bad(String),
    Infra(String),
}

fn run_case(t: &Tools, c: &Cli, dir: &Path) -> Out {
    match run_case_io(t, c, dir) {
        Ok(o) => o,
        Err(e) => Out::Infra(format!("{e}")),
    }
}

fn run_case_io(t: &Tools, c: &Cli, dir: &Path) -> std::io::Result<Out> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("sub"))?;
    let side = dir.join("sub/side");
    std::fs::create_dir_all(&side)?;
    let mut rules = String::new();
    let contents: Vec<Vec<u8>> = c.inputs.iter().map(|f| f.data.to_vec()).collect();
    for (i, (f, bytes)) in c.inputs.iter().zip(&contents).enumerate() {
        let p = place(f, i, dir);
        if f.path == 4 {
            std::fs::create_dir_all(p.parent().unwrap())?;
        }
        match f.kind {
            FileKind::Regular if f.data.pat == PAT_SPARSE => {
                use std::os::unix::fs::FileExt;
                let n = f.data.sparse_tail().len;
                let file = std::fs::File::create(&p)?;
                file.set_len(bytes.len() as u64)?;
                file.write_all_at(&bytes[bytes.len() - n..], (bytes.len() - n) as u64)?;
            }
            FileKind::Regular => std::fs::write(&p, bytes)?,
            FileKind::HardLink => std::fs::hard_link(place(&c.inputs[0], 0, dir), &p)?,
            FileKind::Symlink => {
                let q = side.join(format!("target{i}"));
                std::fs::write(&q, bytes)?;
                std::os::unix::fs::symlink(&q, &p)?;
            }
            FileKind::Fifo => {
                let z = [p.as_os_str().as_bytes(), b"\0"].concat();
                if unsafe { mkfifo(z.as_ptr(), 0o600) } != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            FileKind::Missing => {}
            FileKind::Dir => std::fs::create_dir(&p)?,
            FileKind::DanglingLink => std::os::unix::fs::symlink(side.join("nothing"), &p)?,
        }
        if matches!(f.kind, FileKind::Regular | FileKind::Symlink | FileKind::HardLink) {
            // files cannot be told apart by their age
            let old = std::time::SystemTime::UNIX_EPOCH + Duration::from_secs(1_600_000_000);
            let _ = std::fs::File::options().write(true).open(&p)?.set_times(std::fs::FileTimes::new().set_modified(old).set_accessed(old));
        }
        let mut key = f.name.clone();
        if f.path == 4 {
            key = [own_dir(i).as_bytes(), b"/", &f.name].concat();
        }
        rules.push_str(&format!("{} {} {} {}\n", hex(&key), f.open_errno, f.mmap_errno, acts_enc(&f.acts)));
    }
    let stdin_rule = c.inputs.len();
    if c.inputs.is_empty() {
        rules.push_str(&format!("stdin 0 0 {}\n", acts_enc(&c.stdin_acts)));
    }
    let mut cmd = Command::new(&t.bins[c.profile as usize & 1]);
    let stdin_data = c.stdin.to_vec();
    if c.stdin_file == 0 {
        cmd.stdin(Stdio::piped());
    } else {
        use std::io::Seek;
        let p = side.join("stdin");
        let n = c.stdin_file as usize - 1;
        let skipped: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8).collect();
        std::fs::write(&p, [&skipped[..], &stdin_data].concat())?;
        let mut file = std::fs::File::open(&p)?;
        file.seek(std::io::SeekFrom::Start(n as u64))?;
        cmd.stdin(file);
    }
    match c.sink {
        1 => cmd.stdout(std::fs::File::options().write(true).open("/dev/full")?),
        2 => {
            let (r, w) = std::io::pipe()?;
            drop(r);
            cmd.stdout(w)
        }
        _ => cmd.stdout(Stdio::piped()),
    };
    if c.limited {
        unsafe {
            cmd.pre_exec(|| {
                let r = [1024u64, 1024];
                if setrlimit(7, r.as_ptr()) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    cmd.current_dir(dir).env_clear().stderr(Stdio::piped()).process_group(0);
    let log = side.join("log");
    if c.uses_shim() {
        let rf = side.join("rules");
        std::fs::write(&rf, &rules)?;
        cmd.env("LD_PRELOAD", &t.shim).env("FAULT_RULES", &rf).env("FAULT_LOG", &log);
    }
    let mut order = vec![];
    for a in &c.args {
        match a {
            Arg::Tok(s) => cmd.arg(s),
            Arg::In(i) => {
                order.push(*i);
                cmd.arg(path_of(&c.inputs[*i], *i, dir))
            }
        };
    }
    let mut child = cmd.spawn()?;
    // the command holds the other end of the pipe
    drop(cmd);
    let watch = Watch::new(child.id() as i32, 120);
    // feed standard input and fifos
    let stdin = child.stdin.take();
    let data = stdin_data;
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let (out, stdin_ok) = std::thread::scope(|s| {
        let h = s.spawn(|| {
            let Some(mut stdin) = stdin else { return true };
            let mut rest = &data[..];
            for p in &c.pieces {
                let n = (*p as usize).min(rest.len());
                if stdin.write_all(&rest[..n]).is_err() {
                    return false;
                }
                rest = &rest[n..];
                std::thread::sleep(Duration::from_micros(150));
            }
            let ok = stdin.write_all(rest).is_ok();
            drop(stdin);
            ok
        });
        let mut feeders = vec![];
        for (i, (f, bytes)) in c.inputs.iter().zip(&contents).enumerate() {
            if f.kind == FileKind::Fifo {
                let p = place(f, i, dir);
                let done = done.clone();
                feeders.push(s.spawn(move || {
                    use std::os::unix::fs::OpenOptionsExt;
                    // wait for the reader without blocking for good if it never comes
                    loop {
                        if done.load(Ordering::SeqCst) {
                            return;
                        }
                        match std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&p) {
                            Ok(file) => {
                                drop_nonblock(&file);
                                let mut file = file;
                                let mut rest = &bytes[..];
                                for i in 0..4 {
                                    let n = (rest.len() / 3 * i / 2 + 1).min(rest.len());
                                    if file.write_all(&rest[..n]).is_err() {
                                        return;
                                    }
                                    rest = &rest[n..];
                                }
                                let _ = file.write_all(rest);
                                return;
                            }
                            Err(_) => std::thread::sleep(Duration::from_micros(200)),
                        }
                    }
                }));
            }
        }
        let out = child.wait_with_output();
        done.store(true, Ordering::SeqCst);
        for f in feeders {
            let _ = f.join();
        }
        (out, h.join().unwrap_or(false))
    });
    let _ = stdin_ok;
    let out = out?;
    if watch.expired() {
        return Ok(Out::Bad("the tool did not end within 120 s".into()));
    }
    if out.status.code() == Some(77) {
        return Ok(Out::Infra("the fault shim failed".into()));
    }
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    let describe = |what: String| {
        let cut = |s: &str| s.chars().take(1500).collect::<String>();
        Ok(Out::Bad(format!(
            "{what}; status {:?}, stdout {:?}, stderr {:?}",
            out.status.code(),
            cut(&stdout),
            cut(&stderr)
        )))
    };
    let mut fired: HashSet<usize> = HashSet::new();
    let mut soft = 0;
    if c.uses_shim() {
        let text = match std::fs::read_to_string(&log) {
            Ok(t) => t,
            Err(e) => return Ok(Out::Infra(format!("the fault shim left no log: {e}"))),
        };
        for l in text.lines() {
            let (i, k) = l.split_once(' ').unwrap();
            match k {
                "o" | "m" | "e" => {
                    fired.insert(i.parse().unwrap());
                }
                _ => soft += 1,
            }
        }
    }
    let (alg, setters) = match &c.params {
        None => {
            // illegal flags: no digest, nonzero
            if out.status.success() {
                return describe("illegal flags, but success".into());
            }
            if !out.stdout.is_empty() {
                return describe("illegal flags, but something was printed".into());
            }
            return Ok(Out::Ok { fired: soft, failed: 1 });
        }
        Some(x) => x,
    };
    let mut mp = MP::new(*alg);
    for s in setters {
        assert!(mp.set(s));
    }
    if c.sink != 0 {
        // no line could be written
        if out.status.success() {
            return describe("standard output could not be written, but success".into());
        }
        return Ok(Out::Ok { fired: soft + fired.len() + 1, failed: 1 });
    }
    let digest = |d: &[u8]| hex(&mp.digest(d, 0, mp.last_node));
    let mut want = vec![];
    let mut failed = 0;
    let mut optional = false;
    if c.inputs.is_empty() {
        if fired.contains(&stdin_rule) {
            failed += 1;
            if stderr.is_empty() {
                return describe("reading standard input failed, but no error was reported".into());
            }
        } else {
            want.push((format!("{}\n", digest(&data)).into_bytes(), false));
        }
    } else {
        let mut cache: BTreeMap<usize, String> = BTreeMap::new();
        for i in &order {
            let f = &c.inputs[*i];
            let bad = fired.contains(i)
                || matches!(f.kind, FileKind::Missing | FileKind::Dir | FileKind::DanglingLink);
            if bad {
                failed += 1;
                let plain = f.name.iter().all(|b| b.is_ascii_alphanumeric() || b"-.= ".contains(b));
                if stderr.is_empty() || (plain && !stderr.contains(std::str::from_utf8(&f.name).unwrap())) {
                    return describe(format!("input {i} failed, but was not reported"));
                }
                continue;
            }
            let d = cache.entry(*i).or_insert_with(|| digest(&contents[*i])).clone();
            let may_fail = c.mmap && contents[*i].is_empty();
            optional |= may_fail;
            let mut line = d.into_bytes();
            if order.len() > 1 {
                line.extend_from_slice(b"  ");
                line.extend_from_slice(path_of(f, *i, dir).to_string_lossy().as_bytes());
            }
            line.push(b'\n');
            want.push((line, may_fail));
        }
    }
    let all: Vec<u8> = want.iter().flat_map(|w| w.0.clone()).collect();
    let some: Vec<u8> = want.iter().filter(|w| !w.1).flat_map(|w| w.0.clone()).collect();
    // paths that are not UTF-8 may also be printed as they are
    let mut raw_all = vec![];
    if all != out.stdout {
        for i in &order {
            let f = &c.inputs[*i];
            if fired.contains(i) || matches!(f.kind, FileKind::Missing | FileKind::Dir | FileKind::DanglingLink) {
                continue;
            }
            raw_all.extend(digest(&contents[*i]).into_bytes());
            if order.len() > 1 {
                raw_all.extend_from_slice(b"  ");
                raw_all.extend_from_slice(path_of(f, *i, dir).as_bytes());
            }
            raw_all.push(b'\n');
        }
    }
    let ok_all = out.stdout == all || (!order.is_empty() && out.stdout == raw_all);
    if ok_all && out.status.success() == (failed == 0) {
        return Ok(Out::Ok { fired: soft + fired.len(), failed });
    }
    if optional && out.stdout == some && !out.status.success() && !stderr.is_empty() {
        return Ok(Out::Ok { fired: soft + fired.len(), failed: failed + 1 });
    }
    describe(format!("expected stdout {:?} and {}", String::from_utf8_lossy(&all), if failed == 0 { "success" } else { "a nonzero status" }))
}

fn drop_nonblock(f: &std::fs::File) {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    }
    unsafe {
        fcntl(f.as_raw_fd(), 4, 0);
    }
}

// ---------------------------------------------------------------- the checks

struct St {
    evaluations: usize,
    distinct: HashSet<u64>,
    nontrivial: usize,
    samples: Vec<String>,
    with: BTreeMap<&'static str, usize>,
    fired: usize,
}

pub fn run(id: &'static str) -> i32 {
    let faults = id == "C15";
    let t0 = Instant::now();
    let oracle = model::self_check().unwrap_or_else(|e| infra(&format!("the oracle fails its own vectors: {e}")));
    for k in known_findings(id) {
        println!("KNOWN-FINDING: {k}");
    }
    let tools = build_tools();
    start_watchdog();
    let total: usize = if thorough() { 1_000_000 } else { 30_000 };
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<(Cli, String)>> = Mutex::new(None);
    let st = Mutex::new(St {
        evaluations: 0,
        distinct: HashSet::new(),
        nontrivial: 0,
        samples: vec![],
        with: BTreeMap::new(),
        fired: 0,
    });
    let deadline = Instant::now() + Duration::from_secs(budget());
    std::thread::scope(|s| {
        // C14 has extra workers for long inputs
        let bigs = match (id, thorough()) {
            ("C14", false) => 2,
            ("C14", true) => 3,
            _ => 0,
        };
        for w in 0..WORKERS + bigs {
            let (tools, stop, failure, st) = (&tools, &stop, &failure, &st);
            let is_big = w >= WORKERS;
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    let config = Config { failure_persistence: None, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(config, rng_for(seed(), id, "cli", w));
                    let small = raw(faults).prop_map(move |r| resolve(&r, faults)).boxed();
                    let dir = run_dir().join(format!("w{w}"));
                    let n = if !is_big { total / WORKERS } else if thorough() { 8 } else { 1 };
                    for i in 0..n {
                        // in the quick tier, one mapped and one read
                        let strat = if is_big { big(w - WORKERS + 3 * (i + seed() as usize)) } else { small.clone() };
                        if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                            return;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => infra(&format!("generator: {e}")),
                        };
                        let c = tree.current();
                        let (fired, failed) = match run_case(tools, &c, &dir) {
                            Out::Ok { fired, failed } => (fired, failed),
                            Out::Infra(e) => infra(&e),
                            Out::Bad(e) => {
                                if stop.swap(true, Ordering::SeqCst) {
                                    return;
                                }
                                let mut best = (c, e);
                                let t = Instant::now();
                                let mut n = 0;
                                let mut more = tree.simplify();
                                while more && !is_big && n < 2000 && t.elapsed() < Duration::from_secs(60) {
                                    n += 1;
                                    let c = tree.current();
                                    more = match run_case(tools, &c, &dir) {
                                        Out::Bad(e) => {
                                            best = (c, e);
                                            tree.simplify()
                                        }
                                        Out::Infra(e) => infra(&e),
                                        Out::Ok { .. } => tree.complicate(),
                                    };
                                }
                                *failure.lock().unwrap() = Some(best);
                                return;
                            }
                        };
                        let text = c.enc();
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        text.hash(&mut h);
                        let mut st = st.lock().unwrap();
                        st.evaluations += 1;
                        st.fired += fired;
                        let mut add = |b: bool, k: &'static str| {
                            if b {
                                *st.with.entry(k).or_default() += 1;
                            }
                        };
                        add(c.params.is_none(), "illegal flags");
                        add(c.inputs.is_empty(), "standard input");
                        add(c.inputs.len() == 1, "one input");
                        add(c.inputs.len() > 1, "several inputs");
                        add(c.mmap, "--mmap");
                        add(is_big, "over 4 GiB");
                        add(c.inputs.iter().any(|f| f.kind == FileKind::HardLink), "two names of one file");
                        add(c.inputs.iter().any(|f| f.path == 4), "same name in several directories");
                        add(fired > 0, "a fault or short read fired");
                        add(failed > 0 && c.params.is_some(), "a failing input");
                        add(c.inputs.iter().any(|f| f.kind == FileKind::Fifo), "a fifo");
                        add(c.params.as_ref().map_or(false, |p| !p.1.is_empty()), "parameters");
                        add(c.profile == 1, "debug build");
                        add(c.sink != 0, "standard output that cannot be written");
                        add(c.stdin_file != 0, "standard input from a file");
                        add(c.stdin_file > 1, "standard input from the middle of a file");
                        add(c.limited, "more inputs than files may be open");
                        let nontrivial = if faults {
                            c.params.is_none() || fired > 0 || failed > 0
                        } else {
                            let longest = c.inputs.iter().map(|f| f.data.len).max().unwrap_or(c.stdin.len);
                            longest >= 64 && !c.args.is_empty()
                        };
                        if st.distinct.insert(h.finish()) && nontrivial {
                            st.nontrivial += 1;
                            if st.samples.len() < 4 && st.nontrivial % 11 == 1 {
                                st.samples.push(text.chars().take(1500).collect());
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let failure = failure.into_inner().unwrap();
    let st = st.into_inner().unwrap();
    eprintln!("{id}: {} runs of the tool in {:.1}s", st.evaluations, t0.elapsed().as_secs_f64());
    Evidence {
        id,
        evaluations: st.evaluations,
        nontrivial: st.nontrivial,
        rule: if faults {
            "runs of the tool with an illegal flag added to generated legal ones, or with missing, unreadable or faulty inputs (open, read and map errors, interrupted and short reads injected by a preloaded library); expected: every input that failed has no digest and is reported, all others have the model's, and the status says whether any failed; non-trivial: illegal flags, or at least one fault or failing input took effect"
        } else {
            "runs of the tool with generated flags (all spellings and orders), 0-7 inputs of any kind and name or standard input in pieces, some with reads cut short by a preloaded library; stdout and status compared with the model; non-trivial: at least one argument and an input of 64 bytes or more"
        }
        .into(),
        samples: st.samples,
        extra: vec![
            ("runs_with".into(), counts_json(st.with.iter().map(|(k, v)| (*k, *v)))),
            ("faults_fired".into(), st.fired.to_string()),
            ("distinct_runs".into(), st.distinct.len().to_string()),
            ("oracle_vectors_checked".into(), oracle.to_string()),
        ],
        assumptions: vec![
            "the tool reads through the C library's open, read, readv, pread and mmap (faults that do not fire are not counted)".into(),
            "an empty file with --mmap may fail, as the source documents".into(),
            "names with invalid UTF-8 may be printed with replacement characters".into(),
        ],
        wall: t0.elapsed().as_secs_f64(),
        violations: failure.is_some() as usize,
    }
    .write();
    cleanup();
    match failure {
        None => 0,
        Some((c, what)) => {
            let path = replay_path(id, "cli");
            let s = format!("# property {id}\n# seed {}\n# {}\n# replay with: ./check replay THIS_FILE\n{}", seed(), what.replace('\n', "\n# "), c.enc());
            if let Err(e) = std::fs::write(&path, s) {
                infra(&format!("cannot write replay: {e}"));
            }
            violation(id, &path, &what);
            1
        }
    }
}

pub fn replay(path: &str, text: &str) -> i32 {
    let tools = build_tools();
    start_watchdog();
    let c = Cli::parse(text);
    let dir = run_dir().join("replay");
    let r = run_case(&tools, &c, &dir);
    cleanup();
    match r {
        Out::Ok { .. } => {
            println!("the property holds on {path}");
            0
        }
        Out::Bad(e) => {
            println!("fails: {e}");
            1
        }
        Out::Infra(e) => infra(&e),
    }
}
