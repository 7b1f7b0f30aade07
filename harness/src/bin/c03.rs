//! C03 Longest match wins and ties produce the lowest output symbol
use harness::common::*;
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_out;
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, out: OutTy, pats: Vec<(Pat, u64)>, perm: Vec<u64>, repeat: u64, words: Vec<Vec<u64>> }

fn permute<X: Clone>(v: &[X], keys: &[u64]) -> Vec<X> {
    let mut rest: Vec<X> = v.to_vec();
    let mut r = vec![];
    let mut i = 0;
    while !rest.is_empty() { let k = keys.get(i).copied().unwrap_or(0) as usize % rest.len(); r.push(rest.remove(k)); i += 1; }
    r
}

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs, cover: usize) -> Res {
    let nfa = build_set(&c.pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(if c.pats.len() > 100 { 6000 } else { 500 }) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let mut st = SetStats::default();
    // The order patterns are added in, and hash seeds inside the library, vary between preparations
    for round in 0..=c.repeat {
        let pats = if round % 2 == 1 { permute(&c.pats, &c.perm) } else { c.pats.clone() };
        let m = token_matcher::<T, O>(&pats);
        let dfa = (&m).prepare_to_match();
        let s = compare(&format!("preparation {} ({} order)", round, if round % 2 == 1 { "permuted" } else { "given" }), &dfa, &c.pats, &nfa, &mut r, &c.words, if round < 2 { cover } else { 8 }, obs)?;
        if round == 0 { st = s; }
        if round == 1 {
            // The same matcher prepared twice, and once more with a pattern duplicated
            let again = (&m).prepare_to_match();
            compare("same token set prepared again", &again, &c.pats, &nfa, &mut r, &c.words, 8, obs)?;
            if !c.pats.is_empty() {
                let mut dup = pats.clone();
                let i = c.perm.first().copied().unwrap_or(0) as usize % dup.len();
                let d = dup[i].clone();
                dup.push(d);
                let dfa: SymbolRangeDfa<T, O> = prepare_set(&dup);
                compare("with one pattern added twice", &dfa, &c.pats, &nfa, &mut r, &c.words, 8, obs)?;
            }
        }
    }
    obs.label_if(st.ties > 0, "two patterns tie for the longest match");
    obs.label_if(st.empty > 0, "the longest match is empty");
    let nullable = c.pats.iter().filter(|p| p.0.nullable()).count();
    obs.label_if(c.pats.len() > 256, "more than 256 patterns");
    obs.label_if(nullable >= 2, "two or more patterns match the empty string");
    obs.nontrivial = st.ties > 0 || (st.hit > 0 && st.strict > 0 && c.pats.len() > 1);
    Ok(())
}
fn dispatch(c: &Case, obs: &mut Obs, cover: usize) -> Res {
    match c.ty {
        Ty::Char => with_out!(c.out, O => check::<char, O>(c, obs, cover)),
        Ty::I32 => check::<i32, u32>(c, obs, cover),
        Ty::Pair => check::<Pair, RevOut>(c, obs, cover),
        _ => with_out!(c.out, O => check::<u8, O>(c, obs, cover)),
    }
}
fn test(c: &Case, obs: &mut Obs) -> Res { dispatch(c, obs, 100) }
fn test_exh(c: &Case, obs: &mut Obs) -> Res { let mut c = c.clone(); c.words = all_words(2, 3); dispatch(&c, obs, 0) }

fn gen_of(src: &mut Src, max_pats: usize, nullable: bool) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::U8, Ty::Char, Ty::I32, Ty::Pair]);
    let out = if ty == Ty::I32 { OutTy::U32 } else if ty == Ty::Pair { OutTy::Rev } else { gen_out_ty(src) };
    let alpha: Vec<u64> = if src.chance(1, 4) { gen_alphabet(src, ty, 7) } else { let n = src.range(1, 4); let b = src.below(90); (b..b + n).collect() };
    let n_out = src.range(1, 8);
    let mut pats: Vec<(Pat, u64)> = vec![];
    let n = src.usize(1, max_pats);
    for _ in 0..n {
        let o = src.below(n_out);
        let p = match src.weighted(&[6, 3, if nullable { 4 } else { 1 }]) {
            0 => gen_pat(src, &alpha, PatCfg { budget: 24, ..SMALL }),
            // A close relative of an earlier pattern
            1 if !pats.is_empty() => { let p = src.pick(&pats).0.clone(); match src.below(5) { 0 => p, 1 => Pat::Any(vec![p, gen_pat(src, &alpha, PatCfg { budget: 6, ..SMALL })]), 2 => Pat::All(vec![p, gen_pat(src, &alpha, PatCfg { budget: 6, ..SMALL })]), 3 => Pat::Any(vec![p, Pat::Eps]), _ => Pat::All(vec![p]) } }
            2 => match src.below(7) { 0 => Pat::Eps, 1 => Pat::Lit(vec![]), 2 => Pat::All(vec![]), 3 => Pat::Star(0, Box::new(gen_pat(src, &alpha, PatCfg { budget: 5, ..SMALL }))), 4 => Pat::Rep(0, 2, Box::new(gen_pat(src, &alpha, PatCfg { budget: 5, ..SMALL }))), 5 => Pat::Any(vec![]), _ => Pat::Any(vec![Pat::Eps, Pat::Lit(vec![alpha[0]])]) },
            _ => Pat::Lit(src.list(1, 3, 2, |s| *s.pick(&alpha))),
        };
        pats.push((p, o));
    }
    let perm = (0..n).map(|_| src.below(97)).collect();
    let repeat = 1 + src.below(3);
    let words = src.list(1, 6, 5, |s| gen_word(s, &pats, &alpha, max_rank(ty), 16));
    Case { ty, out, pats, perm, repeat, words }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 5, false) }
fn gen_null(src: &mut Src) -> Case { gen_of(src, 4, true) }
fn gen_many(src: &mut Src) -> Case {
    // Keyword tables: many literals with shared prefixes, plus an identifier pattern
    let alpha: Vec<u64> = { let n = src.range(2, 4); let b = src.below(90); (b..b + n).collect() };
    let n = src.usize(6, if src.thorough { 120 } else { 40 });
    let mut pats: Vec<(Pat, u64)> = (0..n).map(|_| (Pat::Lit(src.list(1, 9, 4, |s| *s.pick(&alpha))), src.below(n as u64))).collect();
    if src.chance(2, 3) { let o = src.below(n as u64); pats.push((Pat::Star(src.below(2) as u32, Box::new(Pat::Range(alpha[0], alpha[alpha.len() - 1]))), o)); }
    if src.chance(1, 2) { let o = src.below(n as u64); pats.push((gen_pat(src, &alpha, MEDIUM), o)); }
    let k = pats.len();
    let perm = (0..k).map(|_| src.below(97)).collect();
    let words = src.list(3, 12, 8, |s| gen_word(s, &pats, &alpha, 255, 20));
    Case { ty: if src.chance(1, 3) { Ty::Char } else { Ty::U8 }, out: gen_out_ty(src), pats, perm, repeat: 1, words }
}
/// A set that is prepared again and again while patterns are added to it
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Growing { set: Case, ask: Vec<u8> }
fn growing<T: Sym, O: Out>(g: &Growing, obs: &mut Obs) -> Res {
    let c = &g.set;
    let mut m: TokenMatcher<T, O> = TokenMatcher::new();
    let mut asked = 0;
    for k in 0..=c.pats.len() {
        if k > 0 { let (p, o) = &c.pats[k - 1]; m.add_pattern(p.to_lib::<T>(), O::oof(*o)); }
        let ask = if k == c.pats.len() { 1 } else { g.ask.get(k).copied().unwrap_or(0) };
        if ask == 0 { continue; }
        let now = &c.pats[..k];
        let nfa = build_set(now, false);
        let mut r = RefDfa::new(&nfa, T::MAX);
        if !r.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
        // Just the machine asked for, or a matcher, once or more
        if ask == 3 { m.to_ndfa(); asked += 1; continue; }
        for i in 0..ask {
            let dfa = if i == 0 { (&m).prepare_to_match() } else { m.to_ndfa().prepare_to_match() };
            let st = compare(&format!("with {} of {} patterns, preparation {}", k, c.pats.len(), asked), &dfa, now, &nfa, &mut r, &c.words, 30, obs)?;
            asked += 1;
            if k == c.pats.len() { obs.nontrivial = asked > 1 && k > 1 && st.hit > 0; }
        }
    }
    obs.label_if(asked > 2, "prepared more than twice while growing");
    Ok(())
}
fn test_growing(g: &Growing, obs: &mut Obs) -> Res {
    match g.set.ty {
        Ty::Char => growing::<char, u32>(g, obs), Ty::I32 => growing::<i32, u32>(g, obs), Ty::Pair => growing::<Pair, RevOut>(g, obs),
        _ => with_out!(g.set.out, O => growing::<u8, O>(g, obs)),
    }
}
fn gen_growing(src: &mut Src) -> Growing {
    let set = gen_of(src, 6, false);
    let ask = (0..set.pats.len()).map(|_| [0u8, 1, 1, 2, 3][src.below(5) as usize]).collect();
    Growing { set, ask }
}
/// Hundreds of patterns, mostly distinct, with up to as many outputs
fn gen_hundreds(src: &mut Src) -> Case {
    let n = match src.below(3) { 0 => src.usize(250, 262), 1 => src.usize(120, 300), _ => src.usize(300, if src.thorough { 1200 } else { 620 }) };
    let b = 97;
    let outs = if src.chance(1, 2) { n as u64 } else { 5 };
    let up = src.chance(1, 2);
    let pats: Vec<(Pat, u64)> = (0..n as u64).map(|i| {
        let o = if outs == 5 { src.below(5) } else if up { i } else { outs - 1 - i };
        // The number of the pattern, spelt; sometimes one that was there already, or a prefix of it, or a range
        let j = if src.chance(1, 8) { src.below(i + 1) } else { i };
        let mut w = vec![b + j % 23, b + j / 23 % 23, b + (j * 7 + j / 100) % 23];
        match src.weighted(&[12, 2, 1, 1]) { 0 => (Pat::Lit(w), o), 1 => { w.push(b + src.below(23)); (Pat::Lit(w), o) } 2 => { w.pop(); (Pat::Lit(w), o) } _ => { let x = w.pop().unwrap(); (Pat::All(vec![Pat::Lit(w), Pat::Range(x, x + src.below(3))]), o) } }
    }).collect();
    let perm = (0..n).map(|_| src.below(97)).collect();
    let words = (0..40).map(|k| { let i = match k { 0 => 0, 1 => n - 1, 2 => 255, 3 => 256, _ => src.usize(0, n - 1) }; let mut w = vec![]; pats[i.min(n - 1)].0.sample(src, 5, &mut w); if src.chance(1, 2) { w.push(b + src.below(24)); } w }).collect();
    Case { ty: if src.chance(1, 2) { Ty::Char } else { Ty::U8 }, out: gen_out_ty(src), pats, perm, repeat: 1, words }
}
/// Dozens or hundreds of patterns that match the same few strings, each with an output of its own
fn gen_ties(src: &mut Src) -> Case {
    let n = match src.weighted(&[3, 3, 2]) { 0 => src.usize(5, 40), 1 => src.usize(30, 140), _ => src.usize(120, 300) };
    let b = 97;
    let bases: Vec<Vec<u64>> = src.list(1, 3, 1, |s| s.list(0, 3, 1, |s| b + s.below(3)));
    // Outputs: ascending, descending, rotated, shuffled, or with few values
    let rot = src.below(n as u64);
    let mut outs: Vec<u64> = (0..n as u64).collect();
    match src.below(5) {
        0 => {}
        1 => outs.reverse(),
        2 => outs.rotate_left(rot as usize),
        3 => for i in (1..n).rev() { let j = src.below(i as u64 + 1) as usize; outs.swap(i, j); },
        _ => for o in outs.iter_mut() { *o = src.below(7); },
    }
    let pats: Vec<(Pat, u64)> = outs.iter().map(|o| {
        let w = src.pick(&bases).clone();
        let p = match src.weighted(&[8, 1, 1, 1, 1]) {
            0 => Pat::Lit(w),
            1 => Pat::All(w.iter().map(|x| Pat::Range(*x, *x + src.below(2))).collect()),
            2 => Pat::Any(vec![Pat::Lit(w), Pat::Lit(src.pick(&bases).clone())]),
            3 => Pat::Rep(1, 2 + src.below(2) as u32, Box::new(Pat::Lit(w))),
            _ => Pat::Lit(w.iter().map(|_| b + src.below(3)).collect()),
        };
        (p, *o)
    }).collect();
    let perm = (0..n).map(|_| src.below(97)).collect();
    let mut words = bases.clone();
    for w in &bases { let mut w = w.clone(); w.push(b + src.below(3)); words.push(w); }
    words.push(vec![]);
    Case { ty: if src.chance(1, 2) { Ty::Char } else { Ty::U8 }, out: gen_out_ty(src), pats, perm, repeat: 1, words }
}
fn gen_exh(src: &mut Src) -> Case {
    // Every ordered triple of tiny patterns with every assignment of outputs from {0,1,2}
    fn tiny(src: &mut Src) -> Pat {
        match src.below(9) {
            0 => Pat::Eps, 1 => Pat::Lit(vec![0]), 2 => Pat::Lit(vec![]), 3 => Pat::Star(0, Box::new(Pat::Lit(vec![0]))), 4 => Pat::Lit(vec![0, 1]),
            5 => Pat::Range(0, 1), 6 => Pat::Any(vec![Pat::Eps, Pat::Lit(vec![1])]), 7 => Pat::Rep(0, 2, Box::new(Pat::Lit(vec![1]))), _ => Pat::Star(1, Box::new(Pat::Range(0, 1))),
        }
    }
    let n = 1 + src.below(3);
    let pats: Vec<(Pat, u64)> = (0..n).map(|_| { let p = tiny(src); (p, src.below(3)) }).collect();
    Case { ty: Ty::U8, out: OutTy::U32, pats, perm: vec![1, 0], repeat: 1, words: vec![] }
}

/// Literals, counts and inputs of tens of thousands, in both orders and with one pattern added twice
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, RevOut>(c, obs, &|pats, _, _, words, want, obs| {
        let mut p = pats.to_vec();
        p.reverse();
        if let Some(x) = p.last().cloned() { p.insert(0, x); }
        compare_huge("in the opposite order, one pattern twice", &prepare_set::<T, RevOut>(&p), words, want, obs)
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }

fn main() {
    main_with(Property {
        id: "C03",
        rule: "two patterns tie for the longest match of some word, or a set of several patterns matches a proper prefix of some word",
        assumptions: &["token sets whose reference automaton has more than 500 subset states are skipped"],
        subs: vec![
            sub("tiny-sets-exhaustive", Mode::Exhaustive(400_000, 400_000), gen_exh, test_exh),
            sub("random", Mode::Random(42_000, 504_000), gen, test),
            sub("nullable", Mode::Random(24_000, 288_000), gen_null, test),
            sub("keyword-tables", Mode::Random(3_600, 43_200), gen_many, test),
            sub("growing", Mode::Random(24_000, 288_000), gen_growing, test_growing),
            sub("many-ties", Mode::Random(1_500, 18_000), gen_ties, test),
            sub("huge-tables", Mode::Random(300, 4_000), gen_hundreds, test),
            sub("huge", Mode::Random(100, 1_200), gen_huge, test_huge),
            harness::deep_sub!("C03"),
        ],
    });
}
