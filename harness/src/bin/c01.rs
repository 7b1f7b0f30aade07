//! C01 Matching returns the longest prefix in the pattern's language
use harness::huge::*;
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_ty;
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, pat: Pat, words: Vec<Vec<u64>> }

fn check<T: Sym>(c: &Case, obs: &mut Obs, cover: usize) -> Res {
    let pats = [(c.pat.clone(), 3u64)];
    let nfa = build_set(&pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(600) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let lib = c.pat.to_lib::<T>();
    let dfa: SymbolRangeDfa<T, u32> = lib.to_ndfa(3u32).prepare_to_match();
    let plain = lib.clone().prepare_to_match();
    let mut words = vec![];
    if cover > 0 {
        let (w, complete) = cover_words(&dfa, &mut r, 1200, cover);
        obs.label_if(complete, "whole product automaton explored");
        words.extend(w);
    }
    words.extend(c.words.iter().cloned());
    let (mut hit, mut miss, mut strict) = (0, 0, 0);
    for w in &words {
        let want = c.pat.longest(w);
        let by_nfa = nfa.run(w).best.map(|x| x.0);
        if want != by_nfa { return harness_bug(format!("the two reference semantics differ on {:?} for {:?}: {:?} / {:?}", w, c.pat, want, by_nfa)); }
        let v: Vec<T> = to_syms(w);
        let got = run(&dfa, w)?.map(|x| x.0);
        if got != want { return Err(format!("type {:?}, word {}: matched {:?}, longest prefix in the language is {:?}", c.ty, show(w), got, want)); }
        let got2 = matches_prepared(&v, &plain);
        if got2 != want { return Err(format!("type {:?}, word {}: matches_prepared gave {:?}, longest prefix in the language is {:?}", c.ty, show(w), got2, want)); }
        match want { Some(n) => { hit += 1; if n < w.len() { strict += 1 } } None => miss += 1 }
    }
    if c.words.len() == 1 || words.len() < 4 {
        let v: Vec<T> = to_syms(words.last().unwrap_or(&vec![]));
        let want = c.pat.longest(words.last().unwrap_or(&vec![]));
        let got = matches(&v, lib);
        if got != want { return Err(format!("type {:?}, word {:?}: matches gave {:?}, want {:?}", c.ty, words.last(), got, want)); }
    }
    obs.ran(words.len() as u64 * 2);
    obs.nontrivial = hit > 0 && (miss > 0 || strict > 0);
    obs.label_if(c.pat.nullable(), "nullable");
    obs.label_if(c.pat.never(), "empty language");
    obs.label_if(c.pat.loops() >= 2, "two or more repetitions");
    obs.label_if(c.pat.depth() >= 4, "nesting of 4 or more");
    obs.label_if(strict > 0, "shorter match than input");
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T>(c, obs, 160)) }
fn test_exh(c: &Case, obs: &mut Obs) -> Res {
    let mut c = c.clone();
    c.words.extend(all_words(2, 5));
    c.words.extend([vec![2], vec![0, 2, 0], vec![1; 7], vec![0, 1, 0, 1, 0, 1, 0]]);
    check::<u8>(&c, obs, 0)
}
fn test_big(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T>(c, obs, 60)) }

fn gen(src: &mut Src) -> Case {
    let ty = if src.chance(1, 3) { gen_ty(src) } else { *src.pick(&[Ty::U8, Ty::Char, Ty::I32]) };
    let alpha = if src.chance(1, 3) { gen_alphabet(src, ty, 8) } else { let n = src.usize(1, 5); let m = max_rank(ty); let b = src.below(60).min(m.saturating_sub(n as u64)); (0..n as u64).map(|i| (b + i).min(m)).collect() };
    let cfg = if src.thorough && src.chance(1, 3) { PatCfg { budget: 220, ..MEDIUM } } else if src.chance(1, 2) { MEDIUM } else { SMALL };
    let pat = gen_pat(src, &alpha, cfg);
    let pats = [(pat.clone(), 0)];
    let words = src.list(1, 8, 6, |s| gen_word(s, &pats, &alpha, max_rank(ty), 24));
    Case { ty, pat, words }
}

/// Large dimensions: long inputs and literals, high counts, deep nesting, wide alternatives
fn gen_big(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::U32, Ty::I64]);
    let alpha: Vec<u64> = { let n = src.range(1, 3); let b = src.below(100); (0..n).map(|i| b + i).collect() };
    let scale = if src.thorough { 4 } else { 1 };
    let pat = match src.below(6) {
        0 => { let n = src.usize(40, 300 * scale); let l = Pat::Lit((0..n).map(|_| *src.pick(&alpha)).collect()); if src.chance(1, 2) { Pat::All(vec![l, gen_pat(src, &alpha, SMALL)]) } else { Pat::Any(vec![gen_pat(src, &alpha, SMALL), l]) } }
        1 => { let n = src.range(10, 70 * scale as u64); let p = gen_pat(src, &alpha, PatCfg { budget: 5, depth: 2, max_count: 2, max_lit: 2, degenerate: false }); Pat::Star(n as u32, Box::new(p)) }
        2 => { let b = src.range(10, 70 * scale as u64); let a = src.below(b); let p = gen_pat(src, &alpha, PatCfg { budget: 5, depth: 2, max_count: 2, max_lit: 2, degenerate: false }); Pat::Rep(a as u32, b as u32, Box::new(p)) }
        3 => { let mut p = gen_pat(src, &alpha, SMALL); for _ in 0..src.usize(4, 24) { if p.size() > 300 { break; } p = match src.below(5) { 0 => Pat::Any(vec![p, Pat::Lit(vec![*src.pick(&alpha)])]), 1 => Pat::All(vec![Pat::Lit(vec![*src.pick(&alpha)]), p]), 2 => Pat::Rep(0, 2, Box::new(p)), 3 => Pat::All(vec![p, Pat::Eps]), _ => Pat::Any(vec![Pat::Eps, p]) }; } p }
        4 => { let n = src.usize(8, 40 * scale); Pat::Any((0..n).map(|_| gen_pat(src, &alpha, PatCfg { budget: 8, ..SMALL })).collect()) }
        _ => { let n = src.usize(8, 30 * scale); Pat::All((0..n).map(|_| gen_pat(src, &alpha, PatCfg { budget: 8, ..SMALL })).collect()) }
    };
    let pats = [(pat.clone(), 0)];
    let words = src.list(1, 5, 4, |s| gen_word(s, &pats, &alpha, max_rank(ty), 2000));
    Case { ty, pat, words }
}

fn gen_exh(src: &mut Src) -> Case {
    let nodes = if src.thorough { 6 } else { 5 };
    let pat = enum_pat(src, nodes, 2);
    Case { ty: Ty::U8, pat, words: vec![] }
}

/// Inputs, literals and counts of tens of thousands
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, u32>(c, obs, &|pats, _, _, words, want, obs| {
        let lib = pats[0].0.to_lib::<T>();
        let plain = lib.clone().prepare_to_match();
        for (w, e) in words.iter().zip(want) {
            let v: Vec<T> = to_syms(w);
            let got = matches_prepared(&v, &plain);
            if got != e.map(|e| e.0) { return Err(format!("word {}: matches_prepared gave {:?}, expected {:?}", show(w), got, e)); }
        }
        obs.ran(words.len() as u64);
        Ok(())
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }

fn main() {
    main_with(Property {
        id: "C01",
        rule: "the case's words include one that the pattern matches and one that it does not match or matches only a proper prefix of",
        assumptions: &["patterns whose reference automaton has more than 600 subset states are skipped", "element counts and input lengths are bounded (hundreds of pattern elements, inputs up to 2000 symbols)"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(400_000, 8_000_000), gen_exh, test_exh),
            sub("random", Mode::Random(72_000, 864_000), gen, test),
            sub("large", Mode::Random(2_700, 32_400), gen_big, test_big),
            sub("huge", Mode::Random(100, 1_500), gen_huge_one, test_huge),
            harness::deep_sub!("C01"),
            harness::billions_sub!("C01"),
        ],
    });
}
