//! C14 Pattern combinators denote concatenation, union and repetition
use harness::common::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::any::Any;

/// A combinator expression. `u8`s choose the way an operand is handed over.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Ex {
    /// A literal given as vector reference, slice, string, pattern, boxed pattern or reference to one
    Lit(Vec<u64>, u8),
    /// A pattern written with the enum
    Raw(Pat),
    Append(Box<Ex>, Box<Ex>, u8),
    Or(Box<Ex>, Box<Ex>, u8),
    Repeat(u32, u32, Box<Ex>),
    Forever(u32, Box<Ex>),
    /// exactly(), into_pattern(), to_pattern() of an expression
    Wrap(u8, Box<Ex>),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, ex: Ex, words: Vec<Vec<u64>> }

impl Ex {
    fn denotes(&self) -> Pat {
        match self {
            Ex::Lit(v, _) => Pat::Lit(v.clone()),
            Ex::Raw(p) => p.clone(),
            Ex::Append(a, b, _) => Pat::All(vec![a.denotes(), b.denotes()]),
            Ex::Or(a, b, _) => Pat::Any(vec![a.denotes(), b.denotes()]),
            Ex::Repeat(a, b, e) => Pat::Rep(*a, *b, Box::new(e.denotes())),
            Ex::Forever(n, e) => Pat::Star(*n, Box::new(e.denotes())),
            Ex::Wrap(_, e) => e.denotes(),
        }
    }
    fn ops(&self) -> u32 { match self { Ex::Lit(..) | Ex::Raw(_) => 0, Ex::Append(a, b, _) | Ex::Or(a, b, _) => 1 + a.ops() + b.ops(), Ex::Repeat(_, _, e) | Ex::Forever(_, e) => 1 + e.ops(), Ex::Wrap(_, e) => e.ops() } }
}
enum Op<T: Clone> { Exactly, Append(Pattern<T>), Or(Pattern<T>) }
macro_rules! apply { ($op:expr, $x:expr) => { match $op { Op::Exactly => exactly($x), Op::Append(p) => p.append($x), Op::Or(p) => p.or($x) } } }

/// A literal operand handed over in one of the ways the library accepts
fn literal<T: Sym>(op: Op<T>, v: &[u64], kind: u8) -> Pattern<T> {
    let x: Vec<T> = to_syms(v);
    match kind % 7 {
        0 => apply!(op, &x),
        1 => apply!(op, &x[..]),
        2 => {
            // As a string, for characters
            let s: String = v.iter().map(|r| char::of((*r).min(char::MAX_RANK))).collect();
            let b: Box<dyn Any> = Box::new(op);
            match b.downcast::<Op<char>>() {
                Ok(c) => { let r: Pattern<char> = apply!(*c, &s[..]); *(Box::new(r) as Box<dyn Any>).downcast::<Pattern<T>>().expect("same type") }
                Err(b) => { let op = *b.downcast::<Op<T>>().expect("same type"); apply!(op, &x) }
            }
        }
        3 => apply!(op, Pattern::Match(x)),
        4 => { let b = Box::new(Pattern::Match(x)); apply!(op, b) }
        5 => { let p = Pattern::Match(x); apply!(op, &p) }
        _ => { let b = Box::new(Pattern::Match(x)); apply!(op, &b) }
    }
}
trait MaxRank { const MAX_RANK: u64; }
impl MaxRank for char { const MAX_RANK: u64 = <char as Sym>::MAX; }

fn operand<T: Sym>(op: Op<T>, e: &Ex, kind: u8) -> Pattern<T> {
    if let Ex::Lit(v, k) = e { return literal(op, v, *k); }
    let p = build::<T>(e);
    match kind % 4 { 0 => apply!(op, p), 1 => { let b = Box::new(p); apply!(op, b) } 2 => apply!(op, &p), _ => { let b = Box::new(p); apply!(op, &b) } }
}
fn build<T: Sym>(e: &Ex) -> Pattern<T> {
    match e {
        Ex::Lit(v, k) => literal(Op::Exactly, v, *k),
        Ex::Raw(p) => p.to_lib(),
        Ex::Append(a, b, k) => operand(Op::Append(build(a)), b, *k),
        Ex::Or(a, b, k) => operand(Op::Or(build(a)), b, *k),
        Ex::Repeat(a, b, e) => build::<T>(e).repeat(*a..*b),
        Ex::Forever(n, e) => build::<T>(e).repeat_forever(*n),
        Ex::Wrap(k, e) => match k % 6 {
            0 => operand(Op::Exactly, e, k / 6),
            1 => build::<T>(e).into_pattern(),
            2 => build::<T>(e).to_pattern(),
            3 => Box::new(build::<T>(e)).into_pattern(),
            4 => Box::new(build::<T>(e)).to_pattern(),
            _ => (&build::<T>(e)).into_pattern(),
        },
    }
}
fn check<T: Sym>(c: &Case, obs: &mut Obs, cover: usize) -> Res {
    let d = c.ex.denotes();
    let pats = [(d.clone(), 3u64)];
    let nfa = build_set(&pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(500) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let p = build::<T>(&c.ex);
    let dfa: SymbolRangeDfa<T, u32> = p.to_ndfa(3u32).prepare_to_match();
    let st = compare(&format!("type {:?}, {:?} denoting {:?}", c.ty, p, d), &dfa, &pats, &nfa, &mut r, &c.words, cover, obs)?;
    obs.nontrivial = c.ex.ops() >= 2 && st.hit > 0 && (st.miss > 0 || st.strict > 0);
    obs.label_if(c.ex.ops() >= 5, "five or more combinators");
    obs.label_if(st.hit > 0, "matches something");
    obs.label_if(matches!(p, Pattern::MatchAll(ref v) if v.len() > 2), "flattened sequence");
    obs.label_if(matches!(p, Pattern::MatchAny(ref v) if v.len() > 2), "flattened alternatives");
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char>(c, obs, 80), Ty::I32 => check::<i32>(c, obs, 80), Ty::Pair => check::<Pair>(c, obs, 80), _ => check::<u8>(c, obs, 80) }
}
fn test_exh(c: &Case, obs: &mut Obs) -> Res { let mut c = c.clone(); c.words = all_words(2, 4); check::<char>(&c, obs, 0) }

fn gen_ex(src: &mut Src, alpha: &[u64], depth: u32, budget: u64) -> Ex {
    if depth == 0 || budget < 3 { return leaf(src, alpha); }
    match src.weighted(&[4, 6, 6, 3, 3, 2]) {
        0 => leaf(src, alpha),
        1 => { let a = gen_ex(src, alpha, depth - 1, budget / 2); let b = gen_ex(src, alpha, depth - 1, budget / 2); Ex::Append(Box::new(a), Box::new(b), src.below(4) as u8) }
        2 => { let a = gen_ex(src, alpha, depth - 1, budget / 2); let b = gen_ex(src, alpha, depth - 1, budget / 2); Ex::Or(Box::new(a), Box::new(b), src.below(4) as u8) }
        3 => { let e = gen_ex(src, alpha, depth - 1, budget / 3); let b = src.below(4); let a = src.below(b + 1).min(3); Ex::Repeat(a as u32, b as u32 + 1 - (src.below(8) == 7) as u32, Box::new(e)) }
        4 => { let e = gen_ex(src, alpha, depth - 1, budget / 3); Ex::Forever(src.below(4) as u32, Box::new(e)) }
        _ => { let e = gen_ex(src, alpha, depth - 1, budget); Ex::Wrap(src.below(24) as u8, Box::new(e)) }
    }
}
fn leaf(src: &mut Src, alpha: &[u64]) -> Ex {
    match src.weighted(&[6, 3, 1]) {
        0 => { let v = src.list(0, 4, 3, |s| *s.pick(alpha)); Ex::Lit(v, src.below(7) as u8) }
        1 => Ex::Raw(gen_pat(src, alpha, PatCfg { budget: 10, depth: 3, ..SMALL })),
        _ => Ex::Raw(match src.below(4) { 0 => Pat::All(vec![]), 1 => Pat::Eps, 2 => Pat::Any(vec![Pat::Lit(vec![alpha[0]]), Pat::Eps]), _ => Pat::All(vec![Pat::Lit(vec![alpha[0]]), Pat::Lit(vec![alpha[alpha.len() - 1]])]) }),
    }
}
fn gen(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::Char, Ty::U8, Ty::I32, Ty::Pair]);
    let alpha = if src.chance(1, 5) { gen_alphabet(src, ty, 6) } else { let n = src.range(1, 4); let b = if ty == Ty::Char { 97 } else { 10 }; (b..b + n).collect() };
    let depth = src.range(1, 6) as u32;
    let ex = gen_ex(src, &alpha, depth, if src.thorough { 160 } else { 60 });
    let ex = if ex.denotes().size() > 140 { leaf(src, &alpha) } else { ex };
    let pats = [(ex.denotes(), 0)];
    let words = src.list(1, 6, 5, |s| gen_word(s, &pats, &alpha, max_rank(ty), 20));
    Case { ty, ex, words }
}
/// Left- and right-leaning chains and mixtures of the same combinator, where flattening happens
fn gen_chain(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::Char, Ty::U8]);
    let b = if ty == Ty::Char { 97 } else { 10 };
    let alpha: Vec<u64> = (b..b + src.range(1, 3)).collect();
    let mut e = gen_ex(src, &alpha, 1, 12);
    for _ in 0..src.usize(2, 9) {
        let x = { let d = src.below(2) as u32; gen_ex(src, &alpha, d, 10) };
        let k = src.below(4) as u8;
        e = match src.below(7) {
            0 | 1 => Ex::Append(Box::new(e), Box::new(x), k),
            2 => Ex::Append(Box::new(x), Box::new(e), k),
            3 | 4 => Ex::Or(Box::new(e), Box::new(x), k),
            5 => Ex::Or(Box::new(x), Box::new(e), k),
            _ => if e.denotes().size() < 15 { Ex::Repeat(src.below(2) as u32, 3, Box::new(e)) } else { Ex::Wrap(k, Box::new(e)) },
        };
    }
    let pats = [(e.denotes(), 0)];
    let words = src.list(1, 6, 5, |s| gen_word(s, &pats, &alpha, max_rank(ty), 24));
    Case { ty, ex: e, words }
}
fn gen_exh(src: &mut Src) -> Case {
    fn go(src: &mut Src, left: &mut u64) -> Ex {
        *left = left.saturating_sub(1);
        match src.below(if *left == 0 { 5 } else { 9 }) {
            0 => Ex::Lit(vec![0], 0),
            1 => Ex::Lit(vec![1, 0], 1),
            2 => Ex::Raw(Pat::Eps),
            3 => Ex::Raw(Pat::Any(vec![Pat::Lit(vec![0]), Pat::Lit(vec![1])])),
            4 => Ex::Raw(Pat::All(vec![Pat::Lit(vec![1]), Pat::Range(0, 1)])),
            5 => { let a = go(src, left); let b = go(src, left); Ex::Append(Box::new(a), Box::new(b), 0) }
            6 => { let a = go(src, left); let b = go(src, left); Ex::Or(Box::new(a), Box::new(b), 2) }
            7 => { let e = go(src, left); let (a, b) = [(0, 2), (1, 3), (0, 1)][src.below(3) as usize]; Ex::Repeat(a, b, Box::new(e)) }
            _ => { let n = src.below(2); let e = go(src, left); Ex::Forever(n as u32, Box::new(e)) }
        }
    }
    let mut left = if src.thorough { 6 } else { 5 };
    Case { ty: Ty::Char, ex: go(src, &mut left), words: vec![] }
}
/// Combinators with counts of tens of thousands
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct HCase { ty: Ty, kind: u8, a: u32, b: u32, unit: Vec<u64>, words: Vec<Blocks> }
fn huge<T: Sym>(c: &HCase, obs: &mut Obs) -> Res {
    let u: Vec<T> = to_syms(&c.unit);
    let (a, b) = (c.a, c.b);
    let lit = Pat::Lit(c.unit.clone());
    let (p, d): (Pattern<T>, Pat) = match c.kind % 6 {
        0 => (exactly(&u).repeat(a..b), Pat::Rep(a, b, Box::new(lit))),
        1 => (exactly(&u).repeat_forever(a), Pat::Star(a, Box::new(lit))),
        2 => (exactly(&u).repeat(a..b).append(&u), Pat::All(vec![Pat::Rep(a, b, Box::new(lit.clone())), lit])),
        3 => { let w = expand(&vec![(c.unit.clone(), a)]); let v: Vec<T> = to_syms(&w); (exactly(&v).append(&u), Pat::All(vec![Pat::Lit(w), lit])) }
        4 => { let n = 200 + a % 3000; let mut p = exactly(&u); for _ in 1..n { p = p.append(&u); } (p, Pat::Lit(expand(&vec![(c.unit.clone(), n)]))) }
        _ => { let n = 200 + (a % 300) as usize; let mut p = exactly(&u); let mut alts = vec![lit]; for i in 1..n { let w: Vec<u64> = vec![c.unit[0], 100 + i as u64 % 26, 100 + i as u64 / 26]; let v: Vec<T> = to_syms(&w); p = p.or(&v); alts.push(Pat::Lit(w)); } (p, Pat::Any(alts)) }
    };
    let nfa = build_set(&[(d, 3)], false);
    let words: Vec<Vec<u64>> = c.words.iter().map(expand).collect();
    let want = answers(&nfa, &words);
    let dfa: SymbolRangeDfa<T, u32> = p.to_ndfa(3u32).prepare_to_match();
    compare_huge("prepared", &dfa, &words, &want, obs)?;
    huge_stats(&words, &want, &nfa, obs);
    Ok(())
}
fn test_huge(c: &HCase, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), _ => huge::<u8>(c, obs) } }
fn gen_hcase(src: &mut Src) -> HCase {
    let kind = src.below(6) as u8;
    let unit = src.list(1, 2, 1, |s| 97 + s.below(2));
    let n = gen_size(src) / unit.len() as u32;
    let (a, b) = match src.below(3) { 0 => (n, n + 1), 1 => (0, n), _ => (n - src.below(9) as u32, n + 1 + src.below(9) as u32) };
    let (a, b) = if kind == 1 || kind >= 3 { (n, n) } else { (a, b) };
    let words = vec![a, b, a.saturating_sub(1), a + 1, b - 1, b + 1, 200 + a % 3000, b + 300].into_iter().map(|k| { let mut w = vec![(unit.clone(), k)]; if src.chance(1, 3) { w.push((vec![97 + src.below(3)], 1)); } if src.chance(1, 6) { w.push((vec![unit[0], 100 + src.below(26), 100 + src.below(12)], 1)); w.rotate_right(1); } w }).collect();
    HCase { ty: if src.chance(1, 2) { Ty::Char } else { Ty::U8 }, kind, a, b, unit, words }
}

fn main() {
    main_with(Property {
        id: "C14",
        rule: "the expression has two or more combinators, and the case's words include one it matches and one it does not match or matches only a proper prefix of",
        assumptions: &["expressions whose reference automaton has more than 500 subset states are skipped"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(500_000, 20_000_000), gen_exh, test_exh),
            sub("random", Mode::Random(120_000, 720_000), gen, test),
            sub("chains", Mode::Random(80_000, 480_000), gen_chain, test),
            sub("huge", Mode::Random(80, 1_000), gen_hcase, test_huge),
            harness::deep_sub!("C14"),
        ],
    });
}
