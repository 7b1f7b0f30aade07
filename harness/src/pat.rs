//! Patterns over ranks: generator, conversion to the library's patterns, and two independent reference semantics.

use crate::refnfa::RefNfa;
use crate::src::Src;
use crate::sym::Sym;
use concordance::Pattern;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pat {
    /// The empty string
    Eps,
    Lit(Vec<u64>),
    /// Inclusive
    Range(u64, u64),
    /// n or more copies
    Star(u32, Box<Pat>),
    /// At least a and fewer than b copies
    Rep(u32, u32, Box<Pat>),
    All(Vec<Pat>),
    Any(Vec<Pat>),
}
use Pat::*;

impl Pat {
    pub fn to_lib<T: Sym>(&self) -> Pattern<T> {
        match self {
            Eps => Pattern::Epsilon,
            Lit(v) => Pattern::Match(v.iter().map(|r| T::of(*r)).collect()),
            Range(a, b) => Pattern::MatchRange(T::of(*a), T::of(*b)),
            Star(n, p) => Pattern::RepeatInfinite(*n, Box::new(p.to_lib())),
            Rep(a, b, p) => Pattern::Repeat(*a..*b, Box::new(p.to_lib())),
            All(v) => Pattern::MatchAll(v.iter().map(|p| p.to_lib()).collect()),
            Any(v) => Pattern::MatchAny(v.iter().map(|p| p.to_lib()).collect()),
        }
    }

    /// Estimated automaton size
    pub fn size(&self) -> u64 {
        match self {
            Eps => 0,
            Lit(v) => v.len() as u64,
            Range(..) => 1,
            Star(n, p) => 2 + (*n as u64 + 2).saturating_mul(p.size() + 1),
            Rep(_, b, p) => 2 + (*b as u64).saturating_mul(p.size() + 1),
            All(v) => v.iter().map(|p| p.size()).sum(),
            Any(v) => 1 + v.iter().map(|p| p.size() + 1).sum::<u64>(),
        }
    }
    pub fn depth(&self) -> u32 {
        match self { Eps | Lit(_) | Range(..) => 1, Star(_, p) | Rep(_, _, p) => 1 + p.depth(), All(v) | Any(v) => 1 + v.iter().map(|p| p.depth()).max().unwrap_or(0) }
    }
    pub fn loops(&self) -> u32 {
        match self { Eps | Lit(_) | Range(..) => 0, Star(_, p) | Rep(_, _, p) => 1 + p.loops(), All(v) | Any(v) => v.iter().map(|p| p.loops()).sum() }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Eps => true, Lit(v) => v.is_empty(), Range(..) => false,
            Star(n, p) => *n == 0 || p.nullable(),
            Rep(a, b, p) => a < b && (*a == 0 || p.nullable()),
            All(v) => v.iter().all(|p| p.nullable()), Any(v) => v.iter().any(|p| p.nullable()),
        }
    }
    /// The pattern's language is empty
    pub fn never(&self) -> bool {
        match self {
            Eps | Lit(_) | Range(..) => false,
            Star(n, p) => *n > 0 && p.never(),
            Rep(a, b, p) => a >= b || (*a > 0 && p.never()),
            All(v) => v.iter().any(|p| p.never()), Any(v) => v.iter().all(|p| p.never()),
        }
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Pat)) {
        f(self);
        match self { Star(_, p) | Rep(_, _, p) => p.visit(f), All(v) | Any(v) => for p in v { p.visit(f) }, _ => {} }
    }
    /// Symbols at which ranges begin or end, and their neighbours
    pub fn boundaries(&self, max: u64) -> Vec<u64> {
        let mut v = vec![];
        self.visit(&mut |p| match p { Lit(x) => v.extend(x.iter().flat_map(|s| [*s, *s])), Range(a, b) => v.extend([*a, *b]), _ => {} });
        let mut w: Vec<u64> = v.iter().flat_map(|x| [*x, x.saturating_sub(1), x.saturating_add(1).min(max)]).collect();
        w.sort(); w.dedup();
        w
    }

    // ------------------------------------------------------------------ semantics 1: sets of end positions

    /// All positions at which a match that begins at one of `from` can end (bit i = position i)
    pub fn ends(&self, word: &[u64], from: &Bits) -> Bits {
        match self {
            Eps => from.clone(),
            Lit(v) => {
                let mut r = Bits::new(word.len() + 1);
                for i in from.iter() { if i + v.len() <= word.len() && word[i..i + v.len()] == v[..] { r.set(i + v.len()); } }
                r
            }
            Range(a, b) => {
                let mut r = Bits::new(word.len() + 1);
                for i in from.iter() { if i < word.len() && *a <= word[i] && word[i] <= *b { r.set(i + 1); } }
                r
            }
            All(v) => { let mut cur = from.clone(); for p in v { if cur.none() { break; } cur = p.ends(word, &cur); } cur }
            Any(v) => { let mut r = Bits::new(word.len() + 1); for p in v { r.or(&p.ends(word, from)); } r }
            Rep(a, b, p) => {
                let mut r = Bits::new(word.len() + 1);
                let mut cur = from.clone();
                for k in 0..*b {
                    if k >= *a { r.or(&cur); }
                    if k + 1 < *b { let n = p.ends(word, &cur); if n == cur { if k + 1 >= *a || *a < *b { r.or(&n); } break; } cur = n; }
                }
                r
            }
            Star(n, p) => {
                let mut cur = from.clone();
                for _ in 0..*n { let nx = p.ends(word, &cur); if nx == cur { break; } cur = nx; }
                let mut r = cur.clone();
                loop {
                    cur = p.ends(word, &cur);
                    let before = r.clone();
                    r.or(&cur);
                    if r == before { break; }
                    // (new positions only: the union is monotone, so this terminates)
                    cur = r.clone();
                }
                r
            }
        }
    }
    /// Length of the longest prefix of the word in the pattern's language
    pub fn longest(&self, word: &[u64]) -> Option<usize> {
        let mut f = Bits::new(word.len() + 1);
        f.set(0);
        self.ends(word, &f).last()
    }

    // ------------------------------------------------------------------ semantics 2: automaton with empty moves

    /// Adds this pattern between two fresh states. `relax`: bounded repetitions allow one copy more than they should,
    /// and empty bounds behave as if they were not (an upper bound on what a matcher may want to follow)
    pub fn build(&self, n: &mut RefNfa, relax: bool) -> (usize, usize) {
        match self {
            Eps => { let a = n.state(); let b = n.state(); n.eps[a].push(b); (a, b) }
            Lit(v) => {
                let a = n.state(); let mut cur = a;
                for s in v { let t = n.state(); n.trans[cur].push((*s, *s, t)); cur = t; }
                let b = n.state(); n.eps[cur].push(b);
                (a, b)
            }
            Range(x, y) => { let a = n.state(); let b = n.state(); n.trans[a].push((*x, *y, b)); (a, b) }
            All(v) => {
                let a = n.state(); let mut cur = a;
                for p in v { let (s, e) = p.build(n, relax); n.eps[cur].push(s); cur = e; }
                let b = n.state(); n.eps[cur].push(b);
                (a, b)
            }
            Any(v) => {
                let a = n.state(); let b = n.state();
                for p in v { let (s, e) = p.build(n, relax); n.eps[a].push(s); n.eps[e].push(b); }
                (a, b)
            }
            Rep(lo, hi, p) => {
                let a = n.state(); let b = n.state();
                let mut cur = a;
                for k in 0..*hi {
                    if k >= *lo { n.eps[cur].push(b); }
                    if k + 1 < *hi || relax { let (s, e) = p.build(n, relax); n.eps[cur].push(s); cur = e; }
                }
                (a, b)
            }
            Star(c, p) => {
                let a = n.state(); let b = n.state();
                let mut cur = a;
                for _ in 0..*c { let (s, e) = p.build(n, relax); n.eps[cur].push(s); cur = e; }
                let l = n.state(); n.eps[cur].push(l);
                let (s, e) = p.build(n, relax);
                n.eps[l].push(s); n.eps[e].push(l); n.eps[l].push(b);
                (a, b)
            }
        }
    }

    /// A member of the language (or some word near it), steered by choices
    pub fn sample(&self, src: &mut Src, limit: usize, w: &mut Vec<u64>) {
        if w.len() >= limit { return; }
        match self {
            Eps => {}
            Lit(v) => w.extend(v),
            Range(a, b) => { let s = match src.below(4) { 0 => *a, 1 => *b, _ => src.range(*a, *b) }; w.push(s) }
            All(v) => for p in v { p.sample(src, limit, w) },
            Any(v) => if !v.is_empty() { src.pick(v).sample(src, limit, w) },
            Rep(a, b, p) => { let k = if b > a { src.range(*a as u64, *b as u64) } else { *b as u64 }; for _ in 0..k { if w.len() >= limit { break; } p.sample(src, limit, w) } }
            Star(n, p) => { let k = *n as u64 + src.weighted(&[3, 3, 2, 1, 1]) as u64; for _ in 0..k { if w.len() >= limit { break; } p.sample(src, limit, w) } }
        }
    }
}

/// The automaton of a set of patterns with outputs; state 0 is the start
pub fn build_set(pats: &[(Pat, u64)], relax: bool) -> RefNfa {
    let mut n = RefNfa::new();
    let s = n.state();
    for (p, o) in pats {
        let (a, b) = p.build(&mut n, relax);
        n.eps[s].push(a);
        n.out[b].push(*o);
    }
    n
}

/// Longest match and lowest output for a set of patterns, by semantics 1
pub fn longest_of(pats: &[(Pat, u64)], word: &[u64]) -> Option<(usize, u64)> {
    let mut best: Option<(usize, u64)> = None;
    for (p, o) in pats {
        if let Some(l) = p.longest(word) {
            best = match best { None => Some((l, *o)), Some((bl, bo)) if l > bl || (l == bl && *o < bo) => Some((l, *o)), b => b };
        }
    }
    best
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Bits { n: usize, w: Vec<u64> }
impl Bits {
    pub fn new(n: usize) -> Bits { Bits { n, w: vec![0; n.div_ceil(64)] } }
    pub fn set(&mut self, i: usize) { self.w[i / 64] |= 1 << (i % 64) }
    pub fn get(&self, i: usize) -> bool { self.w[i / 64] >> (i % 64) & 1 == 1 }
    pub fn or(&mut self, o: &Bits) { for (a, b) in self.w.iter_mut().zip(&o.w) { *a |= *b } }
    pub fn none(&self) -> bool { self.w.iter().all(|x| *x == 0) }
    pub fn last(&self) -> Option<usize> { (0..self.n).rev().find(|i| self.get(*i)) }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ { (0..self.n).filter(move |i| self.get(*i)) }
}

// ---------------------------------------------------------------------- generator

#[derive(Clone, Copy)]
pub struct PatCfg {
    /// Upper bound on the estimated automaton size
    pub budget: u64,
    pub depth: u32,
    pub max_count: u64,
    pub max_lit: usize,
    /// Allow empty alternatives, empty sequences and empty repetition bounds
    pub degenerate: bool,
}
pub const SMALL: PatCfg = PatCfg { budget: 40, depth: 4, max_count: 4, max_lit: 3, degenerate: true };
pub const MEDIUM: PatCfg = PatCfg { budget: 90, depth: 6, max_count: 6, max_lit: 6, degenerate: true };

pub fn gen_pat(src: &mut Src, alpha: &[u64], cfg: PatCfg) -> Pat {
    let b = cfg.budget;
    let p = gen_at(src, alpha, &cfg, cfg.depth, b);
    if p.size() > b { Lit(vec![alpha[0]]) } else { p }
}

fn gen_lit(src: &mut Src, alpha: &[u64], max: usize) -> Pat {
    Lit(src.list(1, max, 2, |s| *s.pick(alpha)))
}
fn gen_range(src: &mut Src, alpha: &[u64]) -> Pat {
    let a = *src.pick(alpha); let b = *src.pick(alpha);
    Range(a.min(b), a.max(b))
}

fn gen_at(src: &mut Src, alpha: &[u64], cfg: &PatCfg, depth: u32, budget: u64) -> Pat {
    if depth <= 1 || budget <= 2 {
        return match src.weighted(&[5, 4, 1]) { 0 => gen_lit(src, alpha, cfg.max_lit.min(budget.max(1) as usize)), 1 => gen_range(src, alpha), _ => if src.chance(1, 2) { Lit(vec![]) } else { Eps } };
    }
    match src.weighted(&[4, 4, 4, 4, 4, 4, 1]) {
        0 => gen_lit(src, alpha, cfg.max_lit.min(budget as usize)),
        1 => gen_range(src, alpha),
        2 => { let b = budget / 2; let min = !(cfg.degenerate && src.chance(1, 6)) as usize; let v = src.list(min, 4, 3, |s| gen_at(s, alpha, cfg, depth - 1, b)); All(v) }
        3 => { let b = budget / 2; let min = !(cfg.degenerate && src.chance(1, 6)) as usize; let v = src.list(min, 4, 3, |s| gen_at(s, alpha, cfg, depth - 1, b)); Any(v) }
        4 => {
            let p = gen_at(src, alpha, cfg, depth - 1, budget / 3);
            let most = (budget / (p.size() + 1)).saturating_sub(2).min(cfg.max_count);
            let n = src.below(most + 1);
            Star(n as u32, Box::new(p))
        }
        5 => {
            let p = gen_at(src, alpha, cfg, depth - 1, budget / 3);
            let most = (budget / (p.size() + 1)).clamp(1, cfg.max_count);
            let lo = !(cfg.degenerate && src.chance(1, 10)) as u64; let b = src.range(lo, most);
            let a = if cfg.degenerate && src.chance(1, 12) { src.below(most + 2) } else { src.below(b.max(1)) };
            Rep(a as u32, b as u32, Box::new(p))
        }
        _ => if src.chance(1, 2) { Lit(vec![]) } else { Eps },
    }
}

/// A random word: members of the language, mutated members, or symbols from around the pattern's boundaries
pub fn gen_word(src: &mut Src, pats: &[(Pat, u64)], alpha: &[u64], max_rank: u64, limit: usize) -> Vec<u64> {
    let mut w = vec![];
    match src.weighted(&[2, 5, 2]) {
        0 => w = src.list(0, limit, 5, |s| *s.pick(alpha)),
        1 => {
            let parts = src.usize(1, 3);
            for _ in 0..parts { if !pats.is_empty() { src.pick(pats).0.sample(src, limit, &mut w); } }
        }
        _ => {
            let b: Vec<u64> = pats.iter().flat_map(|p| p.0.boundaries(max_rank)).collect();
            w = src.list(0, limit, 4, |s| if b.is_empty() { *s.pick(alpha) } else { *s.pick(&b) });
        }
    }
    // Mutations
    while src.chance(1, 4) && !w.is_empty() {
        let i = src.below(w.len() as u64) as usize;
        match src.below(4) {
            0 => { w.truncate(i); }
            1 => { w[i] = *src.pick(alpha); }
            2 => { w.remove(i); }
            _ => { let s = *src.pick(alpha); w.insert(i, s); }
        }
    }
    w.truncate(limit);
    w
}

// ---------------------------------------------------------------------- bounded-exhaustive enumeration

/// Every pattern with at most `nodes` operator nodes over the symbols 0..k (driven by an odometer)
pub fn enum_pat(src: &mut Src, nodes: u64, k: u64) -> Pat {
    fn go(src: &mut Src, left: &mut u64, k: u64) -> Pat {
        *left = left.saturating_sub(1);
        let kinds = if *left == 0 { 3 } else { 8 };
        match src.below(kinds) {
            0 => { let s = src.below(k); Lit(vec![s]) }
            1 => Eps,
            2 => Range(0, k - 1),
            3 => { let p = go(src, left, k); Star(0, Box::new(p)) }
            4 => { let n = 1 + src.below(2); let p = go(src, left, k); Star(n as u32, Box::new(p)) }
            5 => { let (a, b) = [(0, 2), (1, 3), (2, 3), (1, 2), (0, 1), (0, 0)][src.below(6) as usize]; let p = go(src, left, k); Rep(a, b, Box::new(p)) }
            6 => { let p = go(src, left, k); if *left == 0 { return All(vec![p]); } let q = go(src, left, k); All(vec![p, q]) }
            _ => { let p = go(src, left, k); if *left == 0 { return Any(vec![p]); } let q = go(src, left, k); Any(vec![p, q]) }
        }
    }
    let mut left = nodes;
    go(src, &mut left, k)
}

/// All words over 0..k up to the given length
pub fn all_words(k: u64, len: usize) -> Vec<Vec<u64>> {
    let mut res: Vec<Vec<u64>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..len {
        let to = res.len();
        for i in from..to { for s in 0..k { let mut w = res[i].clone(); w.push(s); res.push(w); } }
        from = to;
    }
    res
}
