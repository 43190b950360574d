//! The language of generated cases, shared by the generator/oracle process (pbt) and by the
//! driver that runs a case against the real crates. A case is a list of lines; each line is one
//! operation. The text form is at the same time the wire format and the replay file.
#![allow(dead_code)]

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg {
    B,
    S,
    Bp,
    Sp,
}

impl Alg {
    pub const ALL: [Alg; 4] = [Alg::B, Alg::S, Alg::Bp, Alg::Sp];
    pub fn is_b(self) -> bool {
        matches!(self, Alg::B | Alg::Bp)
    }
    pub fn is_par(self) -> bool {
        matches!(self, Alg::Bp | Alg::Sp)
    }
    /// OUTBYTES = KEYBYTES
    pub fn out(self) -> usize {
        if self.is_b() {
            64
        } else {
            32
        }
    }
    pub fn block(self) -> usize {
        if self.is_b() {
            128
        } else {
            64
        }
    }
    /// SALTBYTES = PERSONALBYTES
    pub fn salt(self) -> usize {
        if self.is_b() {
            16
        } else {
            8
        }
    }
    pub fn lanes(self) -> usize {
        match self {
            Alg::B | Alg::S => 1,
            Alg::Bp => 4,
            Alg::Sp => 8,
        }
    }
    pub fn tag(self) -> &'static str {
        match self {
            Alg::B => "B",
            Alg::S => "S",
            Alg::Bp => "BP",
            Alg::Sp => "SP",
        }
    }
    pub fn parse(s: &str) -> Alg {
        match s {
            "B" => Alg::B,
            "S" => Alg::S,
            "BP" => Alg::Bp,
            "SP" => Alg::Sp,
            _ => panic!("bad alg {s}"),
        }
    }
}

/// A described byte string: pattern, seed, length, and the offset from an aligned allocation at
/// which the driver places it. `pat` 9 is the huge shared mapping (see bigbuf), 8 is a literal
/// whose bytes are the little-endian bytes of `seed`, repeated.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Data {
    pub pat: u8,
    pub seed: u64,
    pub len: usize,
    pub off: u8,
}

pub const PAT_BIG: u8 = 9;
/// Zeros and a short random tail (command-line tool only)
pub const PAT_SPARSE: u8 = 10;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Data {
    pub const EMPTY: Data = Data { pat: 0, seed: 0, len: 0, off: 0 };

    pub fn fill(&self, out: &mut [u8]) {
        assert_eq!(out.len(), self.len);
        let seed = self.seed;
        match self.pat {
            0 => out.fill(0),
            1 => out.fill(0xFF),
            2 => {
                for (i, b) in out.iter_mut().enumerate() {
                    *b = (i % 251) as u8;
                }
            }
            4 => out.fill(0x80),
            6 => out.fill(seed as u8),
            _ => {
                let m = mix(seed ^ 0xB1A4E2);
                for (i, chunk) in out.chunks_mut(8).enumerate() {
                    let i = i as u64;
                    let w = match self.pat {
                        // words that are all zero or all one, and single-bit words
                        5 => {
                            let r = mix(m ^ i);
                            match r & 3 {
                                0 => 0,
                                1 => !0,
                                2 => 1u64 << (r >> 58),
                                _ => !(1u64 << (r >> 58)),
                            }
                        }
                        // a position-revealing counter
                        7 => (i.wrapping_mul(0x0101_0001) ^ (i << 40)).wrapping_add(seed),
                        8 => seed,
                        _ => mix(m.wrapping_add(i.wrapping_mul(0xD1342543DE82EF95))),
                    };
                    let bytes = w.to_le_bytes();
                    let n = chunk.len();
                    chunk.copy_from_slice(&bytes[..n]);
                }
            }
        }
    }

    pub fn to_vec(&self) -> Vec<u8> {
        assert!(self.pat != PAT_BIG);
        let mut v = vec![0u8; self.len];
        if self.pat == PAT_SPARSE {
            // zeros, which cost no memory, before a short tail
            let tail = self.sparse_tail();
            let at = self.len - tail.len;
            tail.fill(&mut v[at..]);
        } else {
            self.fill(&mut v);
        }
        v
    }

    /// The end of a sparse string
    pub fn sparse_tail(&self) -> Data {
        Data { pat: 3, len: self.len.min(5000), ..*self }
    }

    pub fn enc(&self) -> String {
        format!("{}:{:x}:{}:{}", self.pat, self.seed, self.len, self.off)
    }

    pub fn parse(s: &str) -> Data {
        let mut it = s.split(':');
        let pat = it.next().unwrap().parse().unwrap();
        let seed = u64::from_str_radix(it.next().unwrap(), 16).unwrap();
        let len = it.next().unwrap().parse().unwrap();
        let off = it.next().unwrap().parse().unwrap();
        Data { pat, seed, len, off }
    }
}

/// One call of a parameter setter. Values may be illegal.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Setter {
    HashLength(usize),
    Key(Data),
    Salt(Data),
    Personal(Data),
    Fanout(u8),
    MaxDepth(u8),
    MaxLeaf(u32),
    NodeOffset(u64),
    NodeDepth(u8),
    InnerLen(usize),
    LastNode(bool),
    /// benchmarks::force_portable*
    Portable,
    /// replace the object by a clone of itself
    CloneSelf,
    /// build a state and hash a byte, discarding both
    Use,
}

impl Setter {
    pub fn enc(&self) -> String {
        match self {
            Setter::HashLength(n) => format!("hl={n}"),
            Setter::Key(d) => format!("key={}", d.enc()),
            Setter::Salt(d) => format!("salt={}", d.enc()),
            Setter::Personal(d) => format!("pers={}", d.enc()),
            Setter::Fanout(n) => format!("fan={n}"),
            Setter::MaxDepth(n) => format!("md={n}"),
            Setter::MaxLeaf(n) => format!("ml={n}"),
            Setter::NodeOffset(n) => format!("no={n}"),
            Setter::NodeDepth(n) => format!("nd={n}"),
            Setter::InnerLen(n) => format!("il={n}"),
            Setter::LastNode(b) => format!("ln={}", *b as u8),
            Setter::Portable => "portable=1".into(),
            Setter::CloneSelf => "clone=1".into(),
            Setter::Use => "use=1".into(),
        }
    }
    pub fn parse(s: &str) -> Setter {
        let (k, v) = s.split_once('=').unwrap();
        let num = || v.parse::<u64>().unwrap();
        match k {
            "hl" => Setter::HashLength(num() as usize),
            "key" => Setter::Key(Data::parse(v)),
            "salt" => Setter::Salt(Data::parse(v)),
            "pers" => Setter::Personal(Data::parse(v)),
            "fan" => Setter::Fanout(num() as u8),
            "md" => Setter::MaxDepth(num() as u8),
            "ml" => Setter::MaxLeaf(num() as u32),
            "no" => Setter::NodeOffset(num()),
            "nd" => Setter::NodeDepth(num() as u8),
            "il" => Setter::InnerLen(num() as usize),
            "ln" => Setter::LastNode(num() != 0),
            "portable" => Setter::Portable,
            "clone" => Setter::CloneSelf,
            "use" => Setter::Use,
            _ => panic!("bad setter {s}"),
        }
    }
    /// Is this setter call legal for the algorithm, by the documentation? Setters that a type
    /// does not have (tree parameters of the parallel variants) are removed by normalization.
    pub fn legal(&self, a: Alg) -> bool {
        match self {
            Setter::HashLength(n) => (1..=a.out()).contains(n),
            Setter::Key(d) => d.len <= a.out(),
            Setter::Salt(d) | Setter::Personal(d) => d.len <= a.salt(),
            Setter::InnerLen(n) => *n <= a.out(),
            Setter::NodeOffset(n) => a.is_b() || *n < (1 << 48),
            _ => true,
        }
    }
    pub fn exists_for(&self, a: Alg) -> bool {
        !a.is_par()
            || matches!(
                self,
                Setter::HashLength(_) | Setter::Key(_) | Setter::Portable | Setter::CloneSelf | Setter::Use
            )
    }
}

/// How a batch is handed to update_many / hash_many.
/// 0 plain iterator, 1 not fused and yields again after its first None, 2 a chain,
/// 3 inputs given as Vec<u8>, 4 an iterator with a wrong size hint of (0, None),
/// 5 objects boxed one by one and in reverse, 6 an iterator that itself uses the library,
/// 7 a `&mut` to an iterator, 8 plain, after an iterator that panicked, 9 plain, after one that
/// lied about its length (8 and 9: on clones that are thrown away)
pub type Mode = u8;
pub const MODES: u8 = 10;

/// One concrete operation. Slots are numbered in order of creation, separately for parameter
/// sets, states, jobs and hashes.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    /// New parameter set from Params::new() (or default()) and a list of setter calls.
    Params { alg: Alg, dflt: bool, setters: Vec<Setter> },
    /// More setter calls on an existing parameter set
    Set { p: usize, setters: Vec<Setter> },
    /// Params::hash
    Hash { p: usize, d: Data },
    /// blake2b(), blake2s(), blake2bp(), blake2sp()
    Free { alg: Alg, d: Data },
    /// Params::to_state
    NewState { p: usize },
    /// State::new (0) or State::default (1)
    DefState { alg: Alg, how: u8 },
    Update { s: usize, d: Data },
    /// io::Write::write until all is consumed
    Write { s: usize, d: Data },
    WriteAll { s: usize, d: Data },
    /// io::Write::write_vectored until all is consumed
    WriteVec { s: usize, ds: Vec<Data> },
    /// std::io::copy from a reader
    IoCopy { s: usize, d: Data },
    /// write!(state, "{}", ..) with `n` pieces of text
    WriteFmt { s: usize, n: u16 },
    Flush { s: usize },
    Finalize { s: usize },
    Count { s: usize },
    CloneState { s: usize },
    /// state s is overwritten with a clone of state from (clone_from)
    CloneFrom { s: usize, from: usize },
    SetLast { s: usize, b: bool },
    UpdMany { pairs: Vec<(usize, Data)>, mode: Mode },
    NewJob { p: usize, d: Data },
    CloneJob { j: usize },
    RunJobs { js: Vec<usize>, mode: Mode },
    JobHash { j: usize },
    /// hooks
    AddCount { s: usize, n: u128 },
    AddCountJob { j: usize, n: u128 },
    /// Debug renderings
    DbgParams { p: usize, fmt: u8 },
    DbgState { s: usize, fmt: u8 },
    DbgJob { j: usize, fmt: u8 },
    /// Make a hash value: from finalize of state s
    HashOf { s: usize },
    /// from a full-length array filled with data
    HashFrom { alg: Alg, d: Data, byref: bool },
    /// all views of a hash value
    HashView { h: usize },
    /// compare two hash values
    HashEq { h: usize, g: usize },
    /// compare a hash value with a slice derived from its own bytes: resize to len (zero
    /// extension), then make the changes (see `change`)
    HashEqSlice { h: usize, len: usize, bits: Vec<u32> },
    /// as above but changes the bytes of h (full-length only) to build another hash value
    HashFlip { h: usize, bits: Vec<u32> },
    /// Misuse: 0 to_hash before the job ran; 1 as_array of a short hash (only in debug builds);
    /// 2 to_hash of a job that a batch did not yield, to see that it did not run.
    Misuse { kind: u8, slot: usize },
    /// many::degree(), MAX_DEGREE
    Degree { alg: Alg },
    /// Move the rest of the case to a freshly spawned thread
    Hop,
    /// first in a history: do what follows this many times
    Repeat { n: usize },
    /// hash with every parameter set and finalize every state through shared references, several
    /// times on each of several threads at once
    Fan { n: usize, d: Data },
}

fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(f).collect::<Vec<_>>().join(",")
}

fn unlist<'a>(s: &'a str) -> Vec<&'a str> {
    if s == "-" {
        vec![]
    } else {
        s.split(',').collect()
    }
}

impl Op {
    pub fn enc(&self) -> String {
        match self {
            Op::Params { alg, dflt, setters } => {
                format!("params {} {} {}", alg.tag(), *dflt as u8, list(setters, |s| s.enc()))
            }
            Op::Set { p, setters } => format!("set {p} {}", list(setters, |s| s.enc())),
            Op::Hash { p, d } => format!("hash {p} {}", d.enc()),
            Op::Free { alg, d } => format!("free {} {}", alg.tag(), d.enc()),
            Op::NewState { p } => format!("state {p}"),
            Op::DefState { alg, how } => format!("defstate {} {how}", alg.tag()),
            Op::Update { s, d } => format!("update {s} {}", d.enc()),
            Op::Write { s, d } => format!("write {s} {}", d.enc()),
            Op::WriteAll { s, d } => format!("writeall {s} {}", d.enc()),
            Op::WriteVec { s, ds } => format!("writevec {s} {}", list(ds, |d| d.enc())),
            Op::IoCopy { s, d } => format!("iocopy {s} {}", d.enc()),
            Op::WriteFmt { s, n } => format!("writefmt {s} {n}"),
            Op::Flush { s } => format!("flush {s}"),
            Op::Finalize { s } => format!("fin {s}"),
            Op::Count { s } => format!("count {s}"),
            Op::CloneState { s } => format!("clone {s}"),
            Op::CloneFrom { s, from } => format!("clonefrom {s} {from}"),
            Op::SetLast { s, b } => format!("setlast {s} {}", *b as u8),
            Op::UpdMany { pairs, mode } => {
                format!("updmany {mode} {}", list(pairs, |(s, d)| format!("{s}@{}", d.enc())))
            }
            Op::NewJob { p, d } => format!("job {p} {}", d.enc()),
            Op::CloneJob { j } => format!("clonejob {j}"),
            Op::RunJobs { js, mode } => format!("runjobs {mode} {}", list(js, |j| j.to_string())),
            Op::JobHash { j } => format!("jobhash {j}"),
            Op::AddCount { s, n } => format!("addcount {s} {n}"),
            Op::AddCountJob { j, n } => format!("addcountjob {j} {n}"),
            Op::DbgParams { p, fmt } => format!("dbgparams {p} {fmt}"),
            Op::DbgState { s, fmt } => format!("dbgstate {s} {fmt}"),
            Op::DbgJob { j, fmt } => format!("dbgjob {j} {fmt}"),
            Op::HashOf { s } => format!("hashof {s}"),
            Op::HashFrom { alg, d, byref } => format!("hashfrom {} {} {}", alg.tag(), d.enc(), *byref as u8),
            Op::HashView { h } => format!("hashview {h}"),
            Op::HashEq { h, g } => format!("hasheq {h} {g}"),
            Op::HashEqSlice { h, len, bits } => format!("hasheqslice {h} {len} {}", list(bits, |x| x.to_string())),
            Op::HashFlip { h, bits } => format!("hashflip {h} {}", list(bits, |x| x.to_string())),
            Op::Misuse { kind, slot } => format!("misuse {kind} {slot}"),
            Op::Degree { alg } => format!("degree {}", alg.tag()),
            Op::Hop => "hop".into(),
            Op::Repeat { n } => format!("repeat {n}"),
            Op::Fan { n, d } => format!("fan {n} {}", d.enc()),
        }
    }

    pub fn parse(line: &str) -> Op {
        let t: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| t[i].parse::<usize>().unwrap();
        let d = |i: usize| Data::parse(t[i]);
        match t[0] {
            "params" => Op::Params {
                alg: Alg::parse(t[1]),
                dflt: t[2] == "1",
                setters: unlist(t[3]).into_iter().map(Setter::parse).collect(),
            },
            "set" => Op::Set { p: n(1), setters: unlist(t[2]).into_iter().map(Setter::parse).collect() },
            "hash" => Op::Hash { p: n(1), d: d(2) },
            "free" => Op::Free { alg: Alg::parse(t[1]), d: d(2) },
            "state" => Op::NewState { p: n(1) },
            "defstate" => Op::DefState { alg: Alg::parse(t[1]), how: n(2) as u8 },
            "update" => Op::Update { s: n(1), d: d(2) },
            "write" => Op::Write { s: n(1), d: d(2) },
            "writeall" => Op::WriteAll { s: n(1), d: d(2) },
            "writevec" => Op::WriteVec { s: n(1), ds: unlist(t[2]).into_iter().map(Data::parse).collect() },
            "iocopy" => Op::IoCopy { s: n(1), d: d(2) },
            "writefmt" => Op::WriteFmt { s: n(1), n: n(2) as u16 },
            "flush" => Op::Flush { s: n(1) },
            "fin" => Op::Finalize { s: n(1) },
            "count" => Op::Count { s: n(1) },
            "clone" => Op::CloneState { s: n(1) },
            "clonefrom" => Op::CloneFrom { s: n(1), from: n(2) },
            "setlast" => Op::SetLast { s: n(1), b: t[2] == "1" },
            "updmany" => Op::UpdMany {
                mode: n(1) as u8,
                pairs: unlist(t[2])
                    .into_iter()
                    .map(|x| {
                        let (a, b) = x.split_once('@').unwrap();
                        (a.parse().unwrap(), Data::parse(b))
                    })
                    .collect(),
            },
            "job" => Op::NewJob { p: n(1), d: d(2) },
            "clonejob" => Op::CloneJob { j: n(1) },
            "runjobs" => Op::RunJobs {
                mode: n(1) as u8,
                js: unlist(t[2]).into_iter().map(|x| x.parse().unwrap()).collect(),
            },
            "jobhash" => Op::JobHash { j: n(1) },
            "addcount" => Op::AddCount { s: n(1), n: t[2].parse().unwrap() },
            "addcountjob" => Op::AddCountJob { j: n(1), n: t[2].parse().unwrap() },
            "dbgparams" => Op::DbgParams { p: n(1), fmt: n(2) as u8 },
            "dbgstate" => Op::DbgState { s: n(1), fmt: n(2) as u8 },
            "dbgjob" => Op::DbgJob { j: n(1), fmt: n(2) as u8 },
            "hashof" => Op::HashOf { s: n(1) },
            "hashfrom" => Op::HashFrom { alg: Alg::parse(t[1]), d: d(2), byref: t[3] == "1" },
            "hashview" => Op::HashView { h: n(1) },
            "hasheq" => Op::HashEq { h: n(1), g: n(2) },
            "hasheqslice" => Op::HashEqSlice { h: n(1), len: n(2), bits: unlist(t[3]).into_iter().map(|x| x.parse().unwrap()).collect() },
            "hashflip" => Op::HashFlip { h: n(1), bits: unlist(t[2]).into_iter().map(|x| x.parse().unwrap()).collect() },
            "misuse" => Op::Misuse { kind: n(1) as u8, slot: n(2) },
            "degree" => Op::Degree { alg: Alg::parse(t[1]) },
            "hop" => Op::Hop,
            "repeat" => Op::Repeat { n: n(1) },
            "fan" => Op::Fan { n: n(1), d: Data::parse(t[2]) },
            _ => panic!("bad op {line}"),
        }
    }
}

/// A case: one or more histories. One history runs on the driver's main thread; several run
/// concurrently, one thread each.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Case {
    pub threads: Vec<Vec<Op>>,
}

impl Case {
    pub fn enc(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if i > 0 {
                s.push_str("thread\n");
            }
            for op in t {
                s.push_str(&op.enc());
                s.push('\n');
            }
        }
        s
    }
    pub fn parse(s: &str) -> Case {
        let mut threads = vec![vec![]];
        for line in s.lines() {
            let line = line.trim_end();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            if line == "thread" {
                threads.push(vec![]);
            } else {
                threads.last_mut().unwrap().push(Op::parse(line));
            }
        }
        Case { threads }
    }
    pub fn ops(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
}

pub fn hex(b: &[u8]) -> String {
    const T: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(T[(x >> 4) as usize] as char);
        s.push(T[(x & 15) as usize] as char);
    }
    s
}

/// The text written by WriteFmt.
pub fn fmt_piece(i: u16) -> String {
    "abcdefghij".repeat((i as usize * 7) % 23 + 1)
}

/// Changes the bytes: below 2^24 flip a bit, otherwise swap the bytes at the two places it holds.
pub fn change(v: &mut [u8], bits: &[u32]) {
    for b in bits {
        let (x, y) = ((b >> 12 & 0xfff) as usize, (b & 0xfff) as usize);
        if *b >= 1 << 24 {
            if x < v.len() && y < v.len() {
                v.swap(x, y);
            }
        } else if (*b as usize) < 8 * v.len() {
            v[*b as usize / 8] ^= 1 << (b % 8);
        }
    }
}
