//! Dimensions in the tens of thousands, beyond the limits of small integer types: patterns, token sets and inputs that are
//! long but have a short description.

use crate::lib_api::*;
use crate::pat::*;
use crate::refnfa::*;
use crate::runner::*;
use crate::src::Src;
use crate::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};

/// Words repeated so many times, one after the other
pub type Blocks = Vec<(Vec<u64>, u32)>;
pub fn expand(b: &Blocks) -> Vec<u64> {
    let mut w = vec![];
    for (u, k) in b { for _ in 0..*k { w.extend(u); } }
    w
}

/// A size at or around a limit
pub fn gen_size(src: &mut Src) -> u32 {
    (match src.weighted(&[4, 10, 4, 4, 2, 1]) {
        0 => src.range(250, 260),
        1 => src.range(65_530, 65_540),
        2 => src.range(4_090, 4_100),
        3 => src.range(32_000, 72_000),
        4 => src.range(100_000, 132_000),
        // A number written in the library's source
        _ => { let v: Vec<u64> = crate::dict::values().iter().copied().filter(|x| *x > 200 && *x < 132_000).collect(); if v.is_empty() { 1_000 } else { *src.pick(&v) + src.below(4) - 1 } }
    }) as u32
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum HPat { Small(Pat), Lit(Blocks), Star(u32, Vec<u64>), Rep(u32, u32, Vec<u64>), Seq(Vec<HPat>), Alt(Vec<HPat>),
    /// So many ways to start, each with a word of its own after it (repeating the choice takes the compiler time that is the cube of the number of ways)
    Fan(Fan) }

/// Ranges `start + stride * i` and up to `width` more, for `i` below `arms`; the word after the `i`th is one of `tails` (or none)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Fan { pub arms: u32, pub start: u64, pub stride: u64, pub width: u64, pub tails: Vec<Vec<u64>> }
impl Fan {
    pub fn arm(&self, i: u64) -> (u64, u64, &[u64]) { let a = self.start + self.stride * i; (a, a + self.width.min(self.stride - 1), &self.tails[(i + i / 7) as usize % self.tails.len()]) }
    fn pat(&self) -> Pat {
        Pat::Any((0..self.arms as u64).map(|i| { let (a, b, t) = self.arm(i); let r = Pat::Range(a, b); if t.is_empty() { r } else { Pat::All(vec![r, Pat::Lit(t.to_vec())]) } }).collect())
    }
    fn near(&self, src: &mut Src, w: &mut Blocks) {
        // The ends of the fan, the 256th, or any
        let i = match src.below(4) { 0 => self.arms as u64 - 1 - src.below(3), 1 => 254 + src.below(4), 2 => src.below(3), _ => src.below(self.arms as u64) };
        let (a, b, t) = self.arm(i);
        w.push((vec![if src.chance(1, 12) { b + 1 } else { src.range(a, b) }], 1));
        if !t.is_empty() { w.push((t.to_vec(), 1)); }
    }
}
pub fn gen_fan(src: &mut Src, alpha: &[u64]) -> Fan {
    let arms = if src.chance(1, 2) { src.range(250, 260) } else { src.range(260, 900) } as u32;
    let stride = src.range(1, 40);
    let width = src.below(stride);
    Fan { arms, start: 200 + src.below(300), stride, width, tails: src.list(1, 3, 2, |s| s.list(0, 2, 1, |s| *s.pick(alpha))) }
}

impl HPat {
    pub fn pat(&self) -> Pat {
        match self {
            HPat::Small(p) => p.clone(),
            HPat::Lit(b) => Pat::Lit(expand(b)),
            HPat::Star(n, u) => Pat::Star(*n, Box::new(Pat::Lit(u.clone()))),
            HPat::Rep(a, b, u) => Pat::Rep(*a, *b, Box::new(Pat::Lit(u.clone()))),
            HPat::Seq(v) => Pat::All(v.iter().map(|p| p.pat()).collect()),
            HPat::Alt(v) => Pat::Any(v.iter().map(|p| p.pat()).collect()),
            HPat::Fan(f) => f.pat(),
        }
    }
    /// A word of the language or one near it
    fn near(&self, src: &mut Src, w: &mut Blocks) {
        let about = |src: &mut Src, n: u32| (n as i64 + src.below(5) as i64 - 2).max(0) as u32;
        match self {
            HPat::Small(p) => { let mut x = vec![]; p.sample(src, 30, &mut x); let k = if src.chance(1, 2) { gen_size(src) / x.len().max(1) as u32 } else { 1 }; w.push((x, k)); }
            HPat::Lit(b) => { let n = w.len(); w.extend(b.iter().cloned()); if src.chance(1, 3) && w.len() > n { let i = n + src.below((w.len() - n) as u64) as usize; w[i].1 = about(src, w[i].1); } }
            HPat::Star(n, u) => { let k = match src.below(3) { 0 => about(src, *n), 1 => *n + gen_size(src), _ => n / 2 + src.below(9) as u32 }; w.push((u.clone(), k)); }
            HPat::Rep(a, b, u) => { let k = match src.below(4) { 0 => about(src, *b), 1 => about(src, *a), 2 => a / 2 + b / 2, _ => b + 300 }; w.push((u.clone(), k)); }
            HPat::Seq(v) => for p in v { p.near(src, w) },
            HPat::Alt(v) => { let i = src.below(v.len() as u64) as usize; v[i].near(src, w) }
            HPat::Fan(f) => f.near(src, w),
        }
    }
}

fn unit(src: &mut Src, alpha: &[u64], max: usize) -> Vec<u64> { src.list(1, max, 1, |s| *s.pick(alpha)) }

/// `small`: only patterns with few states (for long inputs)
pub fn gen_hpat(src: &mut Src, alpha: &[u64], small: bool) -> HPat {
    let k = if small { 1 } else { 6 };
    match src.weighted(&[2, 2, k, k, k, k / 3, k / 3]) {
        0 => HPat::Star(src.below(3) as u32, unit(src, alpha, 3)),
        1 => HPat::Small(Pat::Star(src.below(2) as u32, Box::new(gen_pat(src, alpha, PatCfg { budget: 10, degenerate: false, ..SMALL })))),
        2 => if small { HPat::Small(Pat::Lit(unit(src, alpha, 4))) } else { let n = gen_size(src); let u = unit(src, alpha, 3); let k = n / u.len() as u32; let mut b = vec![(u, k)]; if src.chance(1, 2) { b.push((unit(src, alpha, 3), 1)); } if src.chance(1, 4) { b.insert(0, (unit(src, alpha, 2), 1)); } HPat::Lit(b) },
        3 => if small { HPat::Small(Pat::Range(alpha[0], alpha[alpha.len() - 1])) } else { let u = unit(src, alpha, 2); HPat::Star(gen_size(src) / u.len() as u32, u) },
        4 => if small { HPat::Seq(vec![HPat::Small(Pat::Lit(unit(src, alpha, 2))), HPat::Star(1, unit(src, alpha, 2)), HPat::Small(Pat::Lit(unit(src, alpha, 2)))]) } else {
            let u = unit(src, alpha, 2);
            let b = gen_size(src) / u.len() as u32;
            let a = match src.below(3) { 0 => 0, 1 => b - 1 - src.below(4) as u32, _ => src.below(b as u64) as u32 };
            HPat::Rep(a, b, u)
        },
        5 => HPat::Seq(vec![gen_hpat(src, alpha, small), gen_hpat(src, alpha, true)]),
        _ => HPat::Alt(vec![gen_hpat(src, alpha, small), gen_hpat(src, alpha, true)]),
    }
}

pub fn gen_blocks(src: &mut Src, pats: &[(HPat, u64)], alpha: &[u64]) -> Blocks {
    let mut w = vec![];
    let n = src.range(1, 3);
    for _ in 0..n {
        match src.weighted(&[5, 1, 1]) {
            0 if !pats.is_empty() => { let i = src.below(pats.len() as u64) as usize; pats[i].0.near(src, &mut w) }
            1 => w.push((unit(src, alpha, 3), 1)),
            _ => { let k = gen_size(src); w.push((unit(src, alpha, 2), k / 2)); }
        }
    }
    if src.chance(1, 3) { w.push((vec![alpha[0] + 1 + src.below(4)], 1)); }
    w
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HugeSet { pub ty: Ty, pub pats: Vec<(HPat, u64)>, pub words: Vec<Blocks> }
impl HugeSet {
    pub fn pats(&self) -> Vec<(Pat, u64)> { self.pats.iter().map(|(p, o)| (p.pat(), *o)).collect() }
    pub fn words(&self) -> Vec<Vec<u64>> { self.words.iter().map(expand).collect() }
}
pub fn gen_huge_n(src: &mut Src, max_pats: u64, small: bool) -> HugeSet {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::U32]);
    let n = src.range(1, 3);
    let b = src.range(40, 90);
    let alpha: Vec<u64> = (b..b + n).collect();
    let n = src.range(1, max_pats);
    // At most one of the patterns is huge
    let pats: Vec<(HPat, u64)> = (0..n).map(|i| { let p = if i == 0 && !small && ty != Ty::U8 && src.chance(1, 6) { HPat::Fan(gen_fan(src, &alpha)) } else { gen_hpat(src, &alpha, small || i > 0) }; (p, src.below(4)) }).collect();
    let words = src.list(2, 4, 2, |s| gen_blocks(s, &pats, &alpha));
    HugeSet { ty, pats, words }
}
pub fn gen_huge_one(src: &mut Src) -> HugeSet { gen_huge_n(src, 1, false) }
pub fn gen_huge(src: &mut Src) -> HugeSet { gen_huge_n(src, 3, false) }
pub fn gen_huge_small(src: &mut Src) -> HugeSet { gen_huge_n(src, 3, true) }

/// Answers of the reference for every word of the case
pub fn answers(nfa: &RefNfa, words: &[Vec<u64>]) -> Vec<Answer> { words.iter().map(|w| nfa.run(w).best).collect() }

/// Runs every word on the matcher
pub fn compare_huge<T: Sym, O: Out>(what: &str, dfa: &SymbolRangeDfa<T, O>, words: &[Vec<u64>], want: &[Answer], obs: &mut Obs) -> Res {
    for (w, e) in words.iter().zip(want) {
        let got = run(dfa, w)?;
        if got != *e { return Err(format!("{}: word {}: got {:?}, expected {:?} (length, output rank)", what, show(w), got, e)); }
    }
    obs.ran(words.len() as u64);
    Ok(())
}
/// Labels and the non-triviality common to the huge cases
pub fn huge_stats(words: &[Vec<u64>], want: &[Answer], nfa: &RefNfa, obs: &mut Obs) {
    let long = want.iter().flatten().map(|a| a.0).max().unwrap_or(0);
    obs.label_if(long > 65_535, "a match of more than 65535 symbols");
    obs.label_if(nfa.states() > 65_535, "patterns with more than 65535 elements");
    let wide = nfa.trans.iter().any(|t| t.len() > 255) || nfa.eps.iter().any(|t| t.len() > 255);
    obs.label_if(wide, "a choice of more than 255 ways on");
    obs.nontrivial = (long > 240 || wide) && (want.iter().any(|a| a.is_none()) || words.iter().zip(want).any(|(w, a)| a.map(|a| a.0 < w.len()).unwrap_or(false)));
}
pub fn check_huge<T: Sym, O: Out>(c: &HugeSet, obs: &mut Obs, f: &dyn Fn(&[(Pat, u64)], &SymbolRangeDfa<T, O>, &RefNfa, &[Vec<u64>], &[Answer], &mut Obs) -> Res) -> Res {
    let pats = c.pats();
    let words = c.words();
    let nfa = build_set(&pats, false);
    let want = answers(&nfa, &words);
    let dfa = prepare_set::<T, O>(&pats);
    compare_huge("prepared", &dfa, &words, &want, obs)?;
    huge_stats(&words, &want, &nfa, obs);
    f(&pats, &dfa, &nfa, &words, &want, obs)
}

/// Reading tokens from any position costs a bounded total (look-ahead that fails can make it quadratic)
pub fn cheap(r: &mut RefDfa, w: &[u64]) -> bool {
    let mut left = 3_000_000usize;
    let mut pos = 0;
    while pos < w.len() {
        let run = r.run_at(w, pos);
        let n = run.dead_after.unwrap_or(w.len() - pos);
        if n > left { return false; }
        left -= n;
        pos += match run.best { Some((n, _)) if n > 0 => n, _ => 1 };
    }
    true
}

use crate::machine::Edit;
/// A machine with a long chain of transitions (over the classes with the given numbers), a few more edits, and a chain of joins
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HugeMachine { pub ty: Ty, pub classes: Vec<(u64, u64)>, pub chain: Blocks, pub joins: u32, pub extra: Vec<Edit>, pub words: Vec<Blocks> }
impl HugeMachine {
    pub fn edits(&self) -> Vec<Edit> {
        let w = expand(&self.chain);
        let n = w.len() as u32;
        let mut v: Vec<Edit> = w.iter().enumerate().map(|(i, c)| { let r = self.classes[*c as usize % self.classes.len()]; Edit::Trans(i as u32, r.0, r.1, i as u32 + 1) }).collect();
        v.extend((0..self.joins).map(|i| Edit::Join(n + i, n + i + 1)));
        v.push(Edit::Out(n + self.joins, 1));
        v.extend(self.extra.iter().copied());
        v
    }
    pub fn words(&self) -> Vec<Vec<u64>> { self.words.iter().map(expand).collect() }
}
/// `overlapping`: the classes may overlap
pub fn gen_huge_machine(src: &mut Src, overlapping: bool) -> HugeMachine {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::U32, Ty::I32]);
    let k = src.range(1, 3);
    let classes: Vec<(u64, u64)> = (0..k).map(|i| { let a = 40 + 4 * i + src.below(3); (a, a + if overlapping { src.below(7) } else { src.below(2) }) }).collect();
    let n = gen_size(src).min(72_000);
    let mut chain: Blocks = vec![];
    let mut left = n;
    while left > 0 && chain.len() < 4 {
        let u: Vec<u64> = src.list(1, 3, 1, |s| s.below(k));
        let c = if chain.len() == 3 || src.chance(2, 3) { left / u.len() as u32 + 1 } else { src.below(left as u64 / u.len() as u64 + 1) as u32 + 1 };
        left = left.saturating_sub(c * u.len() as u32);
        chain.push((u, c));
    }
    let n: u32 = chain.iter().map(|(u, c)| u.len() as u32 * c).sum();
    let joins = if src.chance(1, 3) { if src.chance(1, 2) { src.range(250, 260) as u32 } else { src.below(1500) as u32 } } else { 0 };
    let mut extra = vec![];
    let near = |src: &mut Src, n: u32| match src.below(4) { 0 => n.saturating_sub(src.below(4) as u32), 1 => src.below(4) as u32, 2 => (65_534 + src.below(4) as u32).min(n), _ => src.below(n as u64 + 1) as u32 };
    for _ in 0..src.below(4) {
        let (a, b) = (near(src, n), near(src, n + joins));
        // Forward only: a jump back over a symbol of the chain takes a number of state sets that is the square of its length
        let (a, b) = (a.min(b), a.max(b));
        let b = if a == b { a + 1 } else { b };
        let c = *src.pick(&classes);
        extra.push(if src.chance(1, 2) { Edit::Trans(a, c.0, c.1, b) } else { Edit::Join(a, b) });
    }
    if src.chance(1, 2) { extra.push(Edit::Trans(near(src, n), 100, 102, near(src, n + joins))); }
    for _ in 0..src.below(5) { extra.push(Edit::Out(near(src, n), src.below(4))); }
    // The chain's word with other symbols of the classes, cut or continued
    let words = src.list(2, 5, 3, |s| {
        let mut w: Blocks = chain.iter().map(|(u, c)| (u.iter().map(|x| { let r = classes[*x as usize]; if s.chance(1, 2) { r.0 } else { r.1 } }).collect(), *c)).collect();
        match s.below(4) { 0 => {} 1 => w.push((vec![classes[0].0], 1)), 2 => { let l = w.len() - 1; w[l].1 = (w[l].1 as i64 + s.below(5) as i64 - 2).max(0) as u32; } _ => { let l = s.below(w.len() as u64) as usize; w.insert(l, (vec![100 + s.below(4)], 1)); } }
        if s.chance(1, 4) { w.push((vec![101], 1)); let more = w.clone(); w.extend(more); }
        w
    });
    HugeMachine { ty, classes, chain, joins, extra, words }
}
