//! The oracle: BLAKE2b, BLAKE2s, BLAKE2bp and BLAKE2sp written from RFC 7693 and the BLAKE2
//! paper, with the whole message at hand, no buffering, no SIMD and no shared code with the
//! crates under test; and a model of the object histories of case.rs on top of it.

use crate::bigbuf;
use crate::case::*;
use std::collections::HashMap;
use std::sync::Mutex;

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

macro_rules! blake2 {
    ($name:ident, $W:ty, $bytes:expr, $rounds:expr, $rot:expr, $iv:expr) => {
        pub mod $name {
            use super::SIGMA;
            pub const BLOCK: usize = 16 * $bytes;
            pub const OUT: usize = 8 * $bytes;
            const IV: [$W; 8] = $iv;
            const R: [u32; 4] = $rot;

            /// RFC 7693 section 3.2, the compression function F, plus the last-node flag.
            fn f(h: &mut [$W; 8], block: &[u8; BLOCK], t: u128, last: bool, last_node: bool) {
                let mut m = [0 as $W; 16];
                for i in 0..16 {
                    let mut b = [0u8; $bytes];
                    b.copy_from_slice(&block[i * $bytes..(i + 1) * $bytes]);
                    m[i] = <$W>::from_le_bytes(b);
                }
                let mut v = [0 as $W; 16];
                v[..8].copy_from_slice(&h[..]);
                v[8..].copy_from_slice(&IV);
                v[12] ^= t as $W;
                v[13] ^= (t >> (8 * $bytes)) as $W;
                if last {
                    v[14] = !v[14];
                    if last_node {
                        v[15] = !v[15];
                    }
                }
                macro_rules! g {
                    ($a:expr, $b:expr, $c:expr, $d:expr, $x:expr, $y:expr) => {
                        v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($x);
                        v[$d] = (v[$d] ^ v[$a]).rotate_right(R[0]);
                        v[$c] = v[$c].wrapping_add(v[$d]);
                        v[$b] = (v[$b] ^ v[$c]).rotate_right(R[1]);
                        v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($y);
                        v[$d] = (v[$d] ^ v[$a]).rotate_right(R[2]);
                        v[$c] = v[$c].wrapping_add(v[$d]);
                        v[$b] = (v[$b] ^ v[$c]).rotate_right(R[3]);
                    };
                }
                for r in 0..$rounds {
                    let s = &SIGMA[r % 10];
                    g!(0, 4, 8, 12, m[s[0]], m[s[1]]);
                    g!(1, 5, 9, 13, m[s[2]], m[s[3]]);
                    g!(2, 6, 10, 14, m[s[4]], m[s[5]]);
                    g!(3, 7, 11, 15, m[s[6]], m[s[7]]);
                    g!(0, 5, 10, 15, m[s[8]], m[s[9]]);
                    g!(1, 6, 11, 12, m[s[10]], m[s[11]]);
                    g!(2, 7, 8, 13, m[s[12]], m[s[13]]);
                    g!(3, 4, 9, 14, m[s[14]], m[s[15]]);
                }
                for i in 0..8 {
                    h[i] ^= v[i] ^ v[i + 8];
                }
            }

            /// Hash a sequence of blocks, all full except possibly the last, starting from a
            /// parameter block and a byte count of `t0`. No blocks at all means one empty block.
            /// Returns the untruncated digest.
            pub fn hash<'a>(
                param: &[u8; OUT],
                blocks: impl Iterator<Item = &'a [u8]>,
                t0: u128,
                last_node: bool,
            ) -> Vec<u8> {
                let mut h = IV;
                for i in 0..8 {
                    let mut b = [0u8; $bytes];
                    b.copy_from_slice(&param[i * $bytes..(i + 1) * $bytes]);
                    h[i] ^= <$W>::from_le_bytes(b);
                }
                let mut t = t0;
                let mut it = blocks.peekable();
                let mut first = true;
                while first || it.peek().is_some() {
                    first = false;
                    let part = it.next().unwrap_or(&[]);
                    let last = it.peek().is_none();
                    assert!(part.len() == BLOCK || last);
                    t = t.wrapping_add(part.len() as u128);
                    if part.len() == BLOCK {
                        f(&mut h, part.try_into().unwrap(), t, last, last_node);
                    } else {
                        let mut block = [0u8; BLOCK];
                        block[..part.len()].copy_from_slice(part);
                        f(&mut h, &block, t, last, last_node);
                    }
                }
                h.iter().flat_map(|w| w.to_le_bytes()).collect()
            }
        }
    };
}

blake2!(b, u64, 8, 12, [32, 24, 16, 63], [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
]);
blake2!(s, u32, 4, 10, [16, 12, 8, 7], [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
]);

/// A parameter set, as the specification sees it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MP {
    pub alg: Alg,
    pub hash_length: usize,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub max_depth: u8,
    pub max_leaf: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_len: usize,
    pub last_node: bool,
}

impl MP {
    pub fn new(alg: Alg) -> MP {
        MP {
            alg,
            hash_length: alg.out(),
            key: vec![],
            salt: vec![],
            personal: vec![],
            fanout: 1,
            max_depth: 1,
            max_leaf: 0,
            node_offset: 0,
            node_depth: 0,
            inner_len: 0,
            last_node: false,
        }
    }

    pub fn set(&mut self, s: &Setter) -> bool {
        if !s.legal(self.alg) {
            return false;
        }
        match s {
            Setter::HashLength(n) => self.hash_length = *n,
            Setter::Key(d) => self.key = d.to_vec(),
            Setter::Salt(d) => self.salt = d.to_vec(),
            Setter::Personal(d) => self.personal = d.to_vec(),
            Setter::Fanout(n) => self.fanout = *n,
            Setter::MaxDepth(n) => self.max_depth = *n,
            Setter::MaxLeaf(n) => self.max_leaf = *n,
            Setter::NodeOffset(n) => self.node_offset = *n,
            Setter::NodeDepth(n) => self.node_depth = *n,
            Setter::InnerLen(n) => self.inner_len = *n,
            Setter::LastNode(b) => self.last_node = *b,
            Setter::Portable | Setter::CloneSelf | Setter::Use => {}
        }
        true
    }

    fn param_block(&self) -> Vec<u8> {
        let mut p = vec![self.hash_length as u8, self.key.len() as u8, self.fanout, self.max_depth];
        p.extend_from_slice(&self.max_leaf.to_le_bytes());
        let padded = |x: &[u8], n: usize| {
            let mut v = x.to_vec();
            v.resize(n, 0);
            v
        };
        if self.alg.is_b() {
            p.extend_from_slice(&self.node_offset.to_le_bytes());
            p.push(self.node_depth);
            p.push(self.inner_len as u8);
            p.extend_from_slice(&[0; 14]);
            p.extend(padded(&self.salt, 16));
            p.extend(padded(&self.personal, 16));
        } else {
            p.extend_from_slice(&self.node_offset.to_le_bytes()[..6]);
            p.push(self.node_depth);
            p.push(self.inner_len as u8);
            p.extend(padded(&self.salt, 8));
            p.extend(padded(&self.personal, 8));
        }
        assert_eq!(p.len(), self.alg.out());
        p
    }

    /// One node: key block if keyed, then the message blocks; untruncated.
    fn node<'a>(&self, with_key: bool, blocks: impl Iterator<Item = &'a [u8]>, t0: u128, last_node: bool) -> Vec<u8> {
        let mut key_block = vec![];
        if with_key && !self.key.is_empty() {
            key_block = self.key.clone();
            key_block.resize(self.alg.block(), 0);
        }
        let kb = &key_block[..];
        let all = (!kb.is_empty()).then_some(kb).into_iter().chain(blocks.map(|b| -> &[u8] { b }));
        let p = self.param_block();
        if self.alg.is_b() {
            b::hash(p[..].try_into().unwrap(), all, t0, last_node)
        } else {
            s::hash(p[..].try_into().unwrap(), all, t0, last_node)
        }
    }

    /// The digest of `msg`, with the counter of every (leaf) node starting at t0.
    pub fn digest(&self, msg: &[u8], t0: u128, last_node: bool) -> Vec<u8> {
        // inputs this long are parts of the long string, at a fixed place and never changed
        if msg.len() < 1 << 29 {
            return self.digest_of(msg, t0, last_node);
        }
        static KNOWN: Mutex<Option<HashMap<String, Vec<u8>>>> = Mutex::new(None);
        let id = format!("{self:?} {:p} {} {t0} {last_node}", msg.as_ptr(), msg.len());
        if let Some(d) = KNOWN.lock().unwrap().get_or_insert_with(HashMap::new).get(&id) {
            return d.clone();
        }
        let d = self.digest_of(msg, t0, last_node);
        KNOWN.lock().unwrap().as_mut().unwrap().insert(id, d.clone());
        d
    }

    fn digest_of(&self, msg: &[u8], t0: u128, last_node: bool) -> Vec<u8> {
        let bl = self.alg.block();
        let mut out = if !self.alg.is_par() {
            self.node(true, msg.chunks(bl), t0, last_node)
        } else {
            let n = self.alg.lanes();
            let serial = if self.alg.is_b() { Alg::B } else { Alg::S };
            let mut node = MP::new(serial);
            node.hash_length = self.hash_length;
            node.key = self.key.clone();
            node.fanout = n as u8;
            node.max_depth = 2;
            node.inner_len = self.alg.out();
            let mut leaves = vec![];
            for i in 0..n {
                node.node_offset = i as u64;
                leaves.extend(node.node(true, msg.chunks(bl).skip(i).step_by(n), t0, i == n - 1));
            }
            node.node_offset = 0;
            node.node_depth = 1;
            node.node(false, leaves.chunks(bl), 0, true)
        };
        out.truncate(self.hash_length);
        out
    }
}

/// Message bytes fed so far: owned, or a contiguous range of the long string.
#[derive(Clone, Debug)]
pub enum Msg {
    Own(Vec<u8>),
    Big { start: usize, len: usize },
}

impl Msg {
    pub fn len(&self) -> usize {
        match self {
            Msg::Own(v) => v.len(),
            Msg::Big { len, .. } => *len,
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Msg::Own(v) => v,
            Msg::Big { start, len } => &bigbuf::big(start + len)[*start..],
        }
    }
    pub fn push(&mut self, d: &Data) {
        if d.pat == PAT_BIG {
            if let Msg::Own(v) = self {
                if v.is_empty() {
                    *self = Msg::Big { start: d.seed as usize, len: 0 };
                }
            }
        }
        match self {
            Msg::Big { start, len } => {
                assert!(d.pat == PAT_BIG && *start + *len == d.seed as usize, "long strings must be contiguous");
                *len += d.len;
            }
            Msg::Own(v) => {
                let n = v.len();
                v.resize(n + d.len, 0);
                d.fill(&mut v[n..]);
            }
        }
    }
}

#[derive(Clone)]
pub struct MState {
    pub p: MP,
    pub last_node: bool,
    pub msg: Msg,
    pub t0: u128,
}

impl MState {
    pub fn count(&self) -> u128 {
        self.t0 * self.p.alg.lanes() as u128 + self.msg.len() as u128
    }
    pub fn digest(&self) -> Vec<u8> {
        self.p.digest(self.msg.bytes(), self.t0, self.last_node)
    }
}

#[derive(Clone)]
pub struct MJob {
    pub p: MP,
    pub d: Data,
    pub t0: u128,
    pub run: bool,
    digest: Option<String>,
}

#[derive(Clone)]
pub struct MHash {
    pub b: bool,
    pub bytes: Vec<u8>,
}

#[derive(Default, Clone)]
pub struct Model {
    pub ps: Vec<MP>,
    pub ss: Vec<MState>,
    pub js: Vec<MJob>,
    pub hs: Vec<MHash>,
}

fn bools(v: &[bool]) -> String {
    let mut s = String::from("e");
    for b in v {
        s.push_str(if *b { " true" } else { " false" });
    }
    s
}

impl Model {
    /// Applies one operation. With `observe` false, digests are not computed (used while
    /// normalizing raw operations, where only lengths and slot kinds matter).
    pub fn step(&mut self, op: &Op, observe: bool) -> String {
        let dot = || ".".to_string();
        match op {
            Op::Params { alg, setters, .. } => {
                let mut p = MP::new(*alg);
                let r: String = setters.iter().map(|s| if p.set(s) { 'o' } else { 'x' }).collect();
                self.ps.push(p);
                format!("s {r}")
            }
            Op::Set { p, setters } => {
                let p = &mut self.ps[*p];
                let r: String = setters.iter().map(|s| if p.set(s) { 'o' } else { 'x' }).collect();
                format!("s {r}")
            }
            Op::Hash { p, d } => {
                if !observe {
                    return dot();
                }
                let p = &self.ps[*p];
                let mut m = Msg::Own(vec![]);
                m.push(d);
                format!("h {}", hex(&p.digest(m.bytes(), 0, p.last_node)))
            }
            Op::Free { alg, d } => {
                if !observe {
                    return dot();
                }
                let mut m = Msg::Own(vec![]);
                m.push(d);
                format!("h {}", hex(&MP::new(*alg).digest(m.bytes(), 0, false)))
            }
            Op::NewState { p } => {
                let p = self.ps[*p].clone();
                self.ss.push(MState { last_node: p.last_node, p, msg: Msg::Own(vec![]), t0: 0 });
                dot()
            }
            Op::DefState { alg, .. } => {
                self.ss.push(MState { p: MP::new(*alg), last_node: false, msg: Msg::Own(vec![]), t0: 0 });
                dot()
            }
            Op::Update { s, d } | Op::Write { s, d } | Op::WriteAll { s, d } | Op::IoCopy { s, d } => {
                self.ss[*s].msg.push(d);
                dot()
            }
            Op::WriteVec { s, ds } => {
                for d in ds {
                    self.ss[*s].msg.push(d);
                }
                dot()
            }
            Op::WriteFmt { s, n } => {
                for i in 0..*n {
                    if let Msg::Own(v) = &mut self.ss[*s].msg {
                        v.extend_from_slice(fmt_piece(i).as_bytes());
                        v.extend_from_slice(i.to_string().as_bytes());
                    }
                }
                dot()
            }
            Op::Flush { .. } | Op::Hop | Op::Repeat { .. } => dot(),
            Op::Fan { d, .. } => {
                if !observe {
                    return dot();
                }
                let data = d.to_vec();
                let mut out = String::from("f");
                for p in &self.ps {
                    out.push(' ');
                    out.push_str(&hex(&p.digest(&data, 0, p.last_node)));
                }
                for s in &self.ss {
                    out.push_str(&format!(" {} {}", hex(&s.digest()), s.count()));
                }
                out
            }
            Op::Finalize { s } => {
                if !observe {
                    return dot();
                }
                format!("h {}", hex(&self.ss[*s].digest()))
            }
            Op::Count { s } => format!("c {}", self.ss[*s].count()),
            Op::CloneState { s } => {
                let c = self.ss[*s].clone();
                self.ss.push(c);
                dot()
            }
            Op::CloneFrom { s, from } => {
                self.ss[*s] = self.ss[*from].clone();
                dot()
            }
            Op::SetLast { s, b } => {
                self.ss[*s].last_node = *b;
                dot()
            }
            Op::UpdMany { pairs, mode } => {
                let cut = if *mode == 1 { pairs.len() * 2 / 3 } else { pairs.len() };
                for (s, d) in &pairs[..cut] {
                    self.ss[*s].msg.push(d);
                }
                dot()
            }
            Op::NewJob { p, d } => {
                self.js.push(MJob { p: self.ps[*p].clone(), d: *d, t0: 0, run: false, digest: None });
                dot()
            }
            Op::CloneJob { j } => {
                let c = self.js[*j].clone();
                self.js.push(c);
                dot()
            }
            Op::RunJobs { js, mode } => {
                let cut = if *mode == 1 { js.len() * 2 / 3 } else { js.len() };
                for j in &js[..cut] {
                    self.js[*j].run = true;
                }
                dot()
            }
            Op::JobHash { j } => {
                let j = &mut self.js[*j];
                assert!(j.run, "generator: to_hash on a job that has not run");
                if !observe {
                    return dot();
                }
                if j.digest.is_none() {
                    let mut m = Msg::Own(vec![]);
                    m.push(&j.d);
                    j.digest = Some(hex(&j.p.digest(m.bytes(), j.t0, j.p.last_node)));
                }
                format!("h {}", j.digest.as_ref().unwrap())
            }
            Op::AddCount { s, n } => {
                let s = &mut self.ss[*s];
                assert!(s.msg.len() == 0);
                s.t0 += n;
                dot()
            }
            Op::AddCountJob { j, n } => {
                let j = &mut self.js[*j];
                assert!(j.p.key.is_empty() && !j.run);
                j.t0 += n;
                dot()
            }
            Op::DbgParams { .. } | Op::DbgState { .. } | Op::DbgJob { .. } => "d *".into(),
            Op::HashOf { s } => {
                let st = &self.ss[*s];
                let bytes = if observe { st.digest() } else { vec![0; st.p.hash_length] };
                self.hs.push(MHash { b: st.p.alg.is_b(), bytes });
                dot()
            }
            Op::HashFrom { alg, d, .. } => {
                self.hs.push(MHash { b: alg.is_b(), bytes: d.to_vec() });
                dot()
            }
            Op::HashView { h } => {
                let h = &self.hs[*h];
                let x = hex(&h.bytes);
                let full = if h.b { 64 } else { 32 } == h.bytes.len();
                let a = if full { x.as_str() } else { "-" };
                format!("v {x} {x} {x} {a} {x} {x}")
            }
            Op::HashEq { h, g } => {
                let eq = self.hs[*h].bytes == self.hs[*g].bytes;
                bools(&[eq, !eq, eq, eq])
            }
            Op::HashEqSlice { h, len, bits } => {
                let h = &self.hs[*h].bytes;
                let mut v = h.clone();
                v.resize(*len, 0);
                change(&mut v, bits);
                let eq = v == *h;
                bools(&[eq, !eq])
            }
            Op::HashFlip { h, bits } => {
                let mut n = self.hs[*h].clone();
                change(&mut n.bytes, bits);
                self.hs.push(n);
                dot()
            }
            Op::Misuse { kind: 2, slot } => {
                let j = &self.js[*slot];
                assert!(!j.run);
                if !observe {
                    return dot();
                }
                let mut m = Msg::Own(vec![]);
                m.push(&j.d);
                format!("m !{}", hex(&j.p.digest(m.bytes(), j.t0, j.p.last_node)))
            }
            Op::Misuse { .. } => "m panic".into(),
            Op::Degree { .. } => "g *".into(),
        }
    }
}

/// The expected observations of a case.
pub fn expect(c: &Case) -> Vec<Vec<String>> {
    c.threads
        .iter()
        .map(|t| {
            let mut m = Model::default();
            t.iter().map(|op| m.step(op, true)).collect()
        })
        .collect()
}

/// Check the oracle itself against digests made by an unrelated implementation (Python's hashlib,
/// and the official BLAKE2bp/sp test vectors). See tools/gen_vectors.py.
pub fn self_check() -> Result<usize, String> {
    let text = include_str!("../oracle_vectors.txt");
    let mut n = 0;
    for line in text.lines() {
        if line.starts_with('#') || line.is_empty() {
            continue;
        }
        let t: Vec<&str> = line.split(' ').collect();
        let unhex = |s: &str| -> Vec<u8> {
            if s == "-" {
                return vec![];
            }
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
        };
        let mut p = MP::new(Alg::parse(t[0]));
        p.hash_length = t[1].parse().unwrap();
        p.key = unhex(t[2]);
        p.salt = unhex(t[3]);
        p.personal = unhex(t[4]);
        p.fanout = t[5].parse().unwrap();
        p.max_depth = t[6].parse().unwrap();
        p.max_leaf = t[7].parse().unwrap();
        p.node_offset = t[8].parse().unwrap();
        p.node_depth = t[9].parse().unwrap();
        p.inner_len = t[10].parse().unwrap();
        p.last_node = t[11] == "1";
        let len: usize = t[12].parse().unwrap();
        let msg: Vec<u8> = if let Some(h) = t[13].strip_prefix('x') { unhex(h) } else { (0..len).map(|i| if t[13] == "seq" { i as u8 } else { ((i * 7 + i / 251) % 256) as u8 }).collect() };
        let got = hex(&p.digest(&msg, 0, p.last_node));
        if got != t[14] {
            return Err(format!("oracle disagrees with vector {line}: {got}"));
        }
        n += 1;
    }
    Ok(n)
}
