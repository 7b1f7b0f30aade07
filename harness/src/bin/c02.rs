//! C02 Symbol ranges are exact over the whole of every symbol type
use harness::common::*;
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_ty;
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, pats: Vec<(Pat, u64)>, words: Vec<Vec<u64>> }

fn check<T: Sym>(c: &Case, obs: &mut Obs, cover: usize) -> Res {
    let nfa = build_set(&c.pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let dfa: SymbolRangeDfa<T, u32> = prepare_set(&c.pats);
    let mut words = c.words.clone();
    // Every boundary, its neighbours and the ends of the type, as one-symbol and two-symbol inputs
    let mut b: Vec<u64> = c.pats.iter().flat_map(|p| p.0.boundaries(T::MAX)).collect();
    b.extend(anchors(c.ty));
    b.sort(); b.dedup();
    words.extend(b.iter().map(|x| vec![*x]));
    for (i, x) in b.iter().enumerate() { words.push(vec![*x, b[(i * 7 + 3) % b.len()]]); }
    let st = compare(&format!("type {:?}", c.ty), &dfa, &c.pats, &nfa, &mut r, &words, cover, obs)?;
    let edge = b.iter().filter(|x| c.pats.iter().any(|p| p.0.boundaries(T::MAX).contains(x))).any(|x| *x == 0 || *x == T::MAX || (c.ty == Ty::Char && (*x == 0xD7FF || *x == 0xD800)));
    let mut ranges = vec![];
    for p in &c.pats { p.0.visit(&mut |p| match p { Pat::Range(a, b) => ranges.push((*a, *b)), Pat::Lit(v) => ranges.extend(v.iter().map(|x| (*x, *x))), _ => {} }); }
    let overlap = (0..ranges.len()).any(|i| (0..i).any(|j| ranges[i] != ranges[j] && ranges[i].0 <= ranges[j].1 && ranges[j].0 <= ranges[i].1));
    obs.label_if(edge, "touches the end of the type or the surrogate gap");
    obs.label_if(overlap, "different ranges overlap");
    obs.label(match c.ty { Ty::U8 => "u8", Ty::U16 => "u16", Ty::U32 => "u32", Ty::U64 => "u64", Ty::Usize => "usize", Ty::I8 => "i8", Ty::I16 => "i16", Ty::I32 => "i32", Ty::I64 => "i64", Ty::Isize => "isize", Ty::Char => "char", Ty::Desc => "user type, descending", Ty::Tri => "user type, three values", Ty::Pair => "user type, pair" });
    obs.nontrivial = st.hit > 0 && st.miss > 0 && (overlap || edge);
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T>(c, obs, 100)) }
fn test_win(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T>(c, obs, 40)) }

fn gen_symset(src: &mut Src, alpha: &[u64]) -> Pat {
    let n = src.usize(1, 6);
    let mut v: Vec<Pat> = vec![];
    for _ in 0..n {
        let a = *src.pick(alpha);
        // Often share an end with an earlier range
        let b = *src.pick(alpha);
        if src.chance(1, 4) { v.push(Pat::Lit(vec![a])) } else { v.push(Pat::Range(a.min(b), a.max(b))) }
    }
    if v.len() == 1 { v.pop().unwrap() } else { Pat::Any(v) }
}
fn gen(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let alpha = gen_alphabet(src, ty, 9);
    let n = src.usize(1, 3);
    let mut pats = vec![];
    for i in 0..n {
        let s = gen_symset(src, &alpha);
        let p = match src.below(5) {
            0 => s,
            1 => Pat::Star(src.below(3) as u32, Box::new(s)),
            2 => { let b = src.range(1, 4); Pat::Rep(src.below(b) as u32, b as u32, Box::new(s)) }
            3 => { let t = gen_symset(src, &alpha); Pat::All(vec![s, t]) }
            _ => gen_pat(src, &alpha, SMALL),
        };
        pats.push((p, i as u64));
    }
    let words = src.list(0, 5, 3, |s| gen_word(s, &pats, &alpha, max_rank(ty), 12));
    Case { ty, pats, words }
}
/// Many ranges at once
fn gen_many(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let m = max_rank(ty);
    let n = src.usize(10, if src.thorough { 120 } else { 50 });
    let width = src.range(4, 200).min(m);
    let base = gen_rank(src, ty).min(m - width);
    let mut v = vec![];
    for _ in 0..n {
        let a = base + src.below(width + 1);
        let len = match src.below(4) { 0 => 0, 1 => src.below(4), 2 => src.below(width + 1), _ => width };
        v.push(Pat::Range(a, a.saturating_add(len).min(base + width)));
    }
    let two = src.chance(1, 3);
    let k = v.len() / 2;
    let pats = if two { let w = v.split_off(k); vec![(Pat::Any(v), 1), (Pat::Any(w), 0)] } else { vec![(Pat::Any(v), 0)] };
    Case { ty, pats, words: vec![] }
}
/// Exhaustive: every ordered choice of up to three ranges within a window of four symbols at interesting places of every type
fn gen_win(src: &mut Src) -> Case {
    let ty = ALL_TYS[src.below(14) as usize];
    let m = max_rank(ty);
    let mut bases = vec![0, m.saturating_sub(3)];
    if ty == Ty::Char { bases.push(0xD7FE); bases.push(0xD800); }
    if matches!(ty, Ty::I8 | Ty::I32 | Ty::Isize | Ty::I64 | Ty::I16) { bases.push(m / 2 - 1); }
    if m < 3 { bases = vec![0]; }
    let base = bases[src.below(bases.len() as u64) as usize];
    let w = m.min(3) + 1;
    let mut ranges = vec![];
    for a in 0..w { for b in a..w { ranges.push((base + a, base + b)); } }
    let n = 1 + src.below(if src.thorough { 4 } else { 3 });
    let v: Vec<Pat> = (0..n).map(|_| { let r = ranges[src.below(ranges.len() as u64) as usize]; Pat::Range(r.0, r.1) }).collect();
    let looped = src.below(2) == 1;
    let p = Pat::Any(v);
    Case { ty, pats: vec![(if looped { Pat::Star(1, Box::new(p)) } else { p }, 0)], words: vec![] }
}

fn main() {
    main_with(Property {
        id: "C02",
        rule: "the words include a match and a non-match, and two different ranges overlap or a range touches an end of the type or the surrogate gap",
        assumptions: &["symbols are compared by rank in the type's own order", "patterns whose reference automaton has more than 400 subset states are skipped"],
        subs: vec![
            sub("windows-exhaustive", Mode::Exhaustive(400_000, 4_000_000), gen_win, test_win),
            sub("random", Mode::Random(48_000, 576_000), gen, test),
            sub("many-ranges", Mode::Random(6_000, 72_000), gen_many, test),
        ],
    });
}
