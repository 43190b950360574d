//! Does a disagreement with the model break the property of this check? The model tells what is
//! right; several properties only speak of one kind of observation, or relate two runs of the
//! same code (alone and in a batch, one build and another). For those a second history is run on
//! the same build, and only a difference between the two counts. What is wrong in both is left to
//! the checks of the properties that speak of it.

use crate::case::*;
use crate::cfgs::*;
use crate::model;
use crate::runner::{line_matches, split};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Blame {
    /// any difference from the model
    Spec,
    /// unexpected panics, and misuse that goes unnoticed
    Panics,
    /// byte counts
    Counts,
    /// debug renderings, which have their own judge
    Renderings,
    /// sanitizer and interpreter reports, and nothing else
    Machine,
    /// another configuration gives another result
    Agree,
    /// the object alone, in a new process, gives another result
    Alone,
    /// updating the states one by one gives another result
    OneByOne,
    /// hashing the input alone gives another result
    JobsAlone,
    /// setting each parameter once gives another result
    Canonical,
}

/// Everything needed to decide about an answer
pub struct Court<'a> {
    pub blame: Blame,
    pub judge: crate::runner::Judge,
    /// the configurations to compare with
    pub others: &'a [&'a Built],
    pub limit: u64,
}

/// The lines that differ from the expected ones, up to the one where the history ended.
fn wrong_lines(exp: &[String], got: &[String]) -> Vec<usize> {
    let mut v = vec![];
    for (i, x) in exp.iter().enumerate() {
        match got.get(i) {
            None => break,
            Some(y) => {
                if !line_matches(x, y) {
                    v.push(i);
                }
            }
        }
    }
    v
}

fn is_panic(l: &str) -> bool {
    l.starts_with("panic ")
}

/// The output of one history in a new process; None if it does not answer.
fn output(b: &Built, threads: Vec<Vec<Op>>, limit: u64) -> Option<Vec<Vec<String>>> {
    let mut d = match Driver::start(b) {
        Ok(d) => d,
        Err(e) => infra(&format!("driver {} does not start: {e:?}", b.cfg.name)),
    };
    match d.send(&Case { threads }.enc()).and_then(|_| d.recv(limit)) {
        Ok(o) => Some(split(&o)),
        Err(Dead::Infra(e)) => infra(&e),
        Err(_) => None,
    }
}

/// What an operation needs, and what it makes
#[derive(Default, Clone)]
struct Need {
    p: BTreeSet<usize>,
    s: BTreeSet<usize>,
    j: BTreeSet<usize>,
    h: BTreeSet<usize>,
}

/// The slots made by each operation (at most one): kind and number
fn made(ops: &[Op]) -> Vec<Option<(char, usize)>> {
    let (mut p, mut s, mut j, mut h) = (0, 0, 0, 0);
    let next = |n: &mut usize| {
        *n += 1;
        *n - 1
    };
    ops.iter()
        .map(|o| match o {
            Op::Params { .. } => Some(('p', next(&mut p))),
            Op::NewState { .. } | Op::DefState { .. } | Op::CloneState { .. } => Some(('s', next(&mut s))),
            Op::NewJob { .. } | Op::CloneJob { .. } => Some(('j', next(&mut j))),
            Op::HashOf { .. } | Op::HashFrom { .. } | Op::HashFlip { .. } => Some(('h', next(&mut h))),
            _ => None,
        })
        .collect()
}

fn cut(n: usize, mode: Mode) -> usize {
    if mode == 1 {
        n * 2 / 3
    } else {
        n
    }
}

/// The operation at `i`, taken apart into ones that look at a single object (or two that are
/// compared), as an operation and what it needs
fn looks(ops: &[Op], i: usize) -> Vec<Op> {
    let made = made(&ops[..i]);
    let count = |k: char| made.iter().flatten().filter(|m| m.0 == k).count();
    match &ops[i] {
        Op::Fan { d, .. } => {
            let mut v: Vec<Op> = (0..count('p')).map(|p| Op::Hash { p, d: *d }).collect();
            for s in 0..count('s') {
                v.push(Op::Finalize { s });
                v.push(Op::Count { s });
            }
            v
        }
        Op::UpdMany { pairs, mode } => {
            pairs[..cut(pairs.len(), *mode)].iter().map(|x| Op::UpdMany { pairs: vec![*x], mode: 0 }).collect()
        }
        Op::RunJobs { js, mode } => {
            js[..cut(js.len(), *mode)].iter().map(|x| Op::RunJobs { js: vec![*x], mode: 0 }).collect()
        }
        o => vec![o.clone()],
    }
}

fn need(op: &Op, n: &mut Need) {
    match op {
        Op::Set { p, .. } | Op::Hash { p, .. } | Op::NewState { p } | Op::NewJob { p, .. } | Op::DbgParams { p, .. } => {
            n.p.insert(*p);
        }
        Op::Update { s, .. }
        | Op::Write { s, .. }
        | Op::WriteAll { s, .. }
        | Op::WriteVec { s, .. }
        | Op::IoCopy { s, .. }
        | Op::WriteFmt { s, .. }
        | Op::Flush { s }
        | Op::Finalize { s }
        | Op::Count { s }
        | Op::CloneState { s }
        | Op::SetLast { s, .. }
        | Op::AddCount { s, .. }
        | Op::DbgState { s, .. }
        | Op::HashOf { s } => {
            n.s.insert(*s);
        }
        Op::CloneFrom { s, from } => {
            n.s.insert(*s);
            n.s.insert(*from);
        }
        Op::UpdMany { pairs, .. } => n.s.extend(pairs.iter().map(|x| x.0)),
        Op::RunJobs { js, .. } => n.j.extend(js.iter().copied()),
        Op::CloneJob { j } | Op::JobHash { j } | Op::AddCountJob { j, .. } | Op::DbgJob { j, .. } => {
            n.j.insert(*j);
        }
        Op::Misuse { kind, slot } => {
            if *kind == 1 {
                n.h.insert(*slot);
            } else {
                n.j.insert(*slot);
            }
        }
        Op::HashView { h } | Op::HashEqSlice { h, .. } | Op::HashFlip { h, .. } => {
            n.h.insert(*h);
        }
        Op::HashEq { h, g } => {
            n.h.insert(*h);
            n.h.insert(*g);
        }
        Op::Params { .. } | Op::Free { .. } | Op::DefState { .. } | Op::HashFrom { .. } | Op::Degree { .. } => {}
        Op::Hop | Op::Repeat { .. } | Op::Fan { .. } => {}
    }
}

/// The same operation with other slot numbers
fn renumber(op: &Op, p: &dyn Fn(usize) -> usize, s: &dyn Fn(usize) -> usize, j: &dyn Fn(usize) -> usize, h: &dyn Fn(usize) -> usize) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::Set { p: x, .. } | Op::Hash { p: x, .. } | Op::NewState { p: x } | Op::NewJob { p: x, .. } | Op::DbgParams { p: x, .. } => *x = p(*x),
        Op::Update { s: x, .. }
        | Op::Write { s: x, .. }
        | Op::WriteAll { s: x, .. }
        | Op::WriteVec { s: x, .. }
        | Op::IoCopy { s: x, .. }
        | Op::WriteFmt { s: x, .. }
        | Op::Flush { s: x }
        | Op::Finalize { s: x }
        | Op::Count { s: x }
        | Op::CloneState { s: x }
        | Op::SetLast { s: x, .. }
        | Op::AddCount { s: x, .. }
        | Op::DbgState { s: x, .. }
        | Op::HashOf { s: x } => *x = s(*x),
        Op::CloneFrom { s: x, from } => {
            *x = s(*x);
            *from = s(*from);
        }
        Op::UpdMany { pairs, .. } => pairs.iter_mut().for_each(|x| x.0 = s(x.0)),
        Op::RunJobs { js, .. } => js.iter_mut().for_each(|x| *x = j(*x)),
        Op::CloneJob { j: x } | Op::JobHash { j: x } | Op::AddCountJob { j: x, .. } | Op::DbgJob { j: x, .. } => *x = j(*x),
        Op::Misuse { kind, slot } => *slot = if *kind == 1 { h(*slot) } else { j(*slot) },
        Op::HashView { h: x } | Op::HashEqSlice { h: x, .. } | Op::HashFlip { h: x, .. } => *x = h(*x),
        Op::HashEq { h: x, g } => {
            *x = h(*x);
            *g = h(*g);
        }
        _ => {}
    }
    o
}

/// The part of `ops` that was applied to the objects `last` looks at, and then `last`.
fn slice(ops: &[Op], last: &Op) -> Vec<Op> {
    let made = made(ops);
    let mut n = Need::default();
    need(last, &mut n);
    let mut keep: Vec<(usize, Op)> = vec![];
    for (k, op) in ops.iter().enumerate().rev() {
        let o = match op {
            Op::UpdMany { pairs, mode } => {
                let v: Vec<_> = pairs[..cut(pairs.len(), *mode)].iter().filter(|x| n.s.contains(&x.0)).cloned().collect();
                if v.is_empty() {
                    continue;
                }
                Op::UpdMany { pairs: v, mode: 0 }
            }
            Op::RunJobs { js, mode } => {
                let v: Vec<_> = js[..cut(js.len(), *mode)].iter().filter(|x| n.j.contains(x)).copied().collect();
                if v.is_empty() {
                    continue;
                }
                Op::RunJobs { js: v, mode: 0 }
            }
            Op::CloneFrom { s, .. } if n.s.contains(s) => op.clone(),
            Op::Hop | Op::Repeat { .. } | Op::Fan { .. } | Op::Degree { .. } | Op::Free { .. } | Op::CloneFrom { .. } => continue,
            _ => {
                let wanted = match made[k] {
                    Some(('p', x)) => n.p.contains(&x),
                    Some(('s', x)) => n.s.contains(&x),
                    Some(('j', x)) => n.j.contains(&x),
                    Some((_, x)) => n.h.contains(&x),
                    None => {
                        let mut m = Need::default();
                        need(op, &mut m);
                        !m.p.is_disjoint(&n.p) || !m.s.is_disjoint(&n.s) || !m.j.is_disjoint(&n.j) || (!m.h.is_empty() && m.h.is_subset(&n.h))
                    }
                };
                if !wanted {
                    continue;
                }
                op.clone()
            }
        };
        need(&o, &mut n);
        keep.push((k, o));
    }
    keep.reverse();
    // new numbers, in order
    let (mut ps, mut ss, mut js, mut hs) = (vec![], vec![], vec![], vec![]);
    let mut out = vec![];
    let at = |v: &Vec<usize>, x: usize| v.iter().position(|y| *y == x).expect("slice");
    for (k, o) in &keep {
        out.push(renumber(o, &|x| at(&ps, x), &|x| at(&ss, x), &|x| at(&js, x), &|x| at(&hs, x)));
        match made[*k] {
            Some(('p', x)) => ps.push(x),
            Some(('s', x)) => ss.push(x),
            Some(('j', x)) => js.push(x),
            Some((_, x)) => hs.push(x),
            None => {}
        }
    }
    out.push(renumber(last, &|x| at(&ps, x), &|x| at(&ss, x), &|x| at(&js, x), &|x| at(&hs, x)));
    out
}

/// Parameter sets made by as few setter calls as possible, one for each use.
fn canonical(ops: &[Op], plain: bool) -> Vec<Op> {
    let mut sets: Vec<(Alg, Vec<Setter>)> = vec![];
    let mut out = vec![];
    let mut n = 0;
    fn apply(e: &mut (Alg, Vec<Setter>), v: &[Setter]) {
        for s in v {
            if s.legal(e.0) && !matches!(s, Setter::CloneSelf | Setter::Use) {
                e.1.retain(|x| std::mem::discriminant(x) != std::mem::discriminant(s));
                e.1.push(*s);
            }
        }
    }
    for op in ops {
        match op {
            Op::Params { alg, setters, .. } => {
                sets.push((*alg, vec![]));
                apply(sets.last_mut().unwrap(), setters);
            }
            Op::Set { p, setters } => apply(&mut sets[*p], setters),
            Op::Hash { p, .. } | Op::NewState { p } | Op::NewJob { p, .. } => {
                let (alg, mut v) = sets[*p].clone();
                v.retain(|s| match s {
                    Setter::Key(d) => d.len > 0,
                    Setter::Salt(d) | Setter::Personal(d) => d.len > 0 && !plain,
                    Setter::Portable => true,
                    _ => !plain,
                });
                v.sort_by_key(|s| s.enc().split('=').next().unwrap().to_string());
                out.push(Op::Params { alg, dflt: false, setters: v });
                let m = n;
                n += 1;
                out.push(renumber(op, &|_| m, &|x| x, &|x| x, &|x| x));
            }
            o => out.push(o.clone()),
        }
    }
    out
}

/// What is wrong with the answer, if it breaks the property
pub fn decide(b: &Built, court: &Court, c: &Case, exp: &[Vec<String>], got: &[Vec<String>]) -> Option<String> {
    if court.blame == Blame::Renderings {
        return (court.judge)(c, exp, got);
    }
    let first = (court.judge)(c, exp, got)?;
    let show = |t: usize, i: usize, note: &str| {
        let y = got[t].get(i).map_or("(nothing)", |s| s.as_str());
        Some(format!("thread {t} operation {i} ({}): expected {}, got {y}{note}", c.threads[t][i].enc(), exp[t][i]))
    };
    let lines: Vec<(usize, usize)> = exp
        .iter()
        .zip(got)
        .enumerate()
        .flat_map(|(t, (e, g))| wrong_lines(e, g).into_iter().map(move |i| (t, i)))
        .collect();
    match court.blame {
        Blame::Spec | Blame::Renderings => Some(first),
        Blame::Panics => {
            let (t, i) = *lines.iter().find(|(t, i)| is_panic(&got[*t][*i]) || exp[*t][*i] == "m panic")?;
            show(t, i, "")
        }
        Blame::Counts => {
            let (t, i) = *lines.iter().find(|(t, i)| exp[*t][*i].starts_with("c "))?;
            show(t, i, "")
        }
        Blame::Machine => {
            let (t, i) = *lines.iter().find(|(t, i)| ["secret: ", "memcheck: ", "alloc: "].iter().any(|k| got[*t][*i].starts_with(k)))?;
            show(t, i, "")
        }
        Blame::Agree => {
            if let Some((t, i)) = lines.iter().find(|(t, i)| exp[*t][*i] == "g *") {
                return show(*t, *i, "");
            }
            for o in court.others.iter().filter(|o| o.cfg.name != b.cfg.name) {
                let other = match output(o, c.threads.clone(), court.limit) {
                    Some(x) => x,
                    None => continue,
                };
                for (t, (g, h)) in got.iter().zip(&other).enumerate() {
                    for (i, (x, y)) in g.iter().zip(h).enumerate() {
                        let kind = &exp[t][i];
                        if kind == "g *" || kind == "d *" || kind.starts_with("m ") || (is_panic(x) && is_panic(y)) {
                            continue;
                        }
                        if x != y {
                            return show(t, i, &format!(", and {} gives {y}", o.cfg.name));
                        }
                    }
                }
            }
            None
        }
        Blame::Alone => {
            if lines.is_empty() {
                // repeating the history gave another result
                return Some(first);
            }
            if let Some((t, i)) = lines.iter().find(|(t, i)| got[*t][*i].starts_with("nested ")) {
                return show(*t, *i, "");
            }
            for (t, i) in lines.iter().take(12) {
                let ops = &c.threads[*t];
                let all_right = looks(ops, *i).into_iter().all(|look| {
                    let part = slice(&ops[..*i], &look);
                    let e = model::expect(&Case { threads: vec![part.clone()] });
                    match output(b, vec![part], court.limit) {
                        Some(g) => wrong_lines(&e[0], &g[0]).is_empty(),
                        None => false,
                    }
                });
                if all_right {
                    return show(*t, *i, ", and alone it is right");
                }
            }
            None
        }
        Blame::OneByOne => {
            for (t, ops) in c.threads.iter().enumerate() {
                let wrong: Vec<usize> = lines.iter().filter(|l| l.0 == t).map(|l| l.1).collect();
                if wrong.is_empty() {
                    continue;
                }
                let mut single = vec![];
                let mut at = vec![];
                for op in ops {
                    match op {
                        Op::UpdMany { pairs, mode } => {
                            for (s, d) in &pairs[..cut(pairs.len(), *mode)] {
                                single.push(Op::Update { s: *s, d: *d });
                            }
                        }
                        o => single.push(o.clone()),
                    }
                    at.push(single.len());
                }
                let r = output(b, vec![single], court.limit)?.remove(0);
                for i in wrong {
                    // an empty batch corresponds to nothing
                    let y = match at[i] {
                        0 => ".",
                        n => r.get(n - 1).map_or("(nothing)", |s| s.as_str()),
                    };
                    let same = if matches!(ops[i], Op::UpdMany { .. }) { is_panic(&got[t][i]) && r.iter().any(|l| is_panic(l)) } else { got[t][i] == y };
                    if !same {
                        return show(t, i, ", and without batches it differs");
                    }
                }
            }
            None
        }
        Blame::JobsAlone => {
            for (t, i) in &lines {
                let ops = &c.threads[*t];
                let made = made(ops);
                // the creation of a job, through clones
                let origin = |j: usize| {
                    let mut j = j;
                    loop {
                        let k = made.iter().position(|m| *m == Some(('j', j))).unwrap();
                        match &ops[k] {
                            Op::CloneJob { j: from } => j = *from,
                            _ => return k,
                        }
                    }
                };
                let alone = |j: usize| -> Option<String> {
                    let k = origin(j);
                    let Op::NewJob { p, d } = &ops[k] else { unreachable!() };
                    let counted = ops[k..].iter().find_map(|o| match o {
                        Op::AddCountJob { j, n } if origin(*j) == k => Some(*n),
                        _ => None,
                    });
                    let part = match counted {
                        None => slice(&ops[..k], &Op::Hash { p: *p, d: *d }),
                        Some(n) => {
                            let mut v = slice(&ops[..k], &Op::NewState { p: *p });
                            v.extend([Op::AddCount { s: 0, n }, Op::Update { s: 0, d: *d }, Op::Finalize { s: 0 }]);
                            v
                        }
                    };
                    output(b, vec![part], court.limit)?.remove(0).pop()
                };
                let g = &got[*t][*i];
                match &ops[*i] {
                    Op::JobHash { j } => {
                        let a = alone(*j);
                        if a.as_ref() != Some(g) && !(is_panic(g) && a.as_ref().map_or(true, |a| is_panic(a))) {
                            return show(*t, *i, ", and hashing it alone differs");
                        }
                    }
                    Op::RunJobs { js, mode } => {
                        let one = js[..cut(js.len(), *mode)].iter().any(|j| alone(*j).map_or(true, |a| is_panic(&a)));
                        if !one {
                            return show(*t, *i, ", and hashing each alone works");
                        }
                    }
                    Op::Misuse { kind: 2, .. } => return show(*t, *i, ""),
                    Op::NewJob { .. } | Op::CloneJob { .. } => return show(*t, *i, ""),
                    _ => {}
                }
            }
            None
        }
        Blame::Canonical => {
            for (t, i) in &lines {
                let ops = &c.threads[*t];
                if exp[*t][*i].starts_with("s ") {
                    return show(*t, *i, "");
                }
                let right = |part: Vec<Op>| {
                    let e = model::expect(&Case { threads: vec![part.clone()] });
                    output(b, vec![part], court.limit).map_or(false, |g| e[0].last() == g[0].get(e[0].len() - 1))
                };
                for look in looks(ops, *i) {
                    let part = slice(&ops[..*i], &look);
                    // right if each parameter is set once: the calls in between matter. Right with
                    // default parameters: the parameters matter.
                    if right(canonical(&part, false)) {
                        return show(*t, *i, ", and it is right if each parameter is set once");
                    }
                    if right(canonical(&part, true)) {
                        return show(*t, *i, ", and it is right without the parameters");
                    }
                }
            }
            None
        }
    }
}
