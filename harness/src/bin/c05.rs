//! C05 Scanning a stream yields exactly the maximal-munch token sequence
use harness::common::*;
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::tok::*;
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Source { Slice, Owned, Boxed, Mapped, OnTape, Half, Counted }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, pats: Vec<(Pat, u64)>, input: Vec<u64>, source: Source, take: Option<u64> }

fn finish<T: Sym, O: Out, R: SymbolReader<T>>(c: &Case, t: &mut Tokenizer<T, O, R>, want: &[(usize, usize, u64)]) -> Res {
    let conv = |x: (std::ops::Range<usize>, O)| (x.0.start, x.0.end, x.1.orank());
    // Two sittings, so that iteration can be interrupted
    let mut got: Vec<_> = match c.take { Some(k) => t.take(k as usize).map(conv).collect(), None => vec![] };
    for x in &mut *t {
        got.push(conv(x));
        if got.len() > c.input.len() { return Err(format!("more tokens than input symbols on {}: {:?}..", show(&c.input), &got[..6.min(got.len())])); }
    }
    let mut last = 0;
    for (a, b, _) in &got { if *a < last || b <= a || *b > c.input.len() { return Err(format!("token ranges not ascending, disjoint, non-empty and inside the input of {} symbols: {:?}", c.input.len(), got)); } last = *b; }
    if got != want {
        let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
        return Err(format!("input {}: token {} is {:?}, expected {:?}", show(&c.input), i, got.get(i), want.get(i)));
    }
    for _ in 0..2 { if let Some(x) = t.next() { return Err(format!("a token after the end of the scan: {:?}", conv(x))); } }
    if t.get_source_position() != c.input.len() { return Err(format!("after the scan the position is {}, expected {}", t.get_source_position(), c.input.len())); }
    Ok(())
}

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let nfa = build_set(&c.pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    if c.input.len() < 80 { for p in [0, c.input.len() / 3, c.input.len() / 2] { expect_set(&c.pats, &nfa, &c.input[p..])?; } }
    let want = r.scan(&c.input);
    check_input::<T, O>(c, &want, obs)
}
fn check_input<T: Sym, O: Out>(c: &Case, want: &[(usize, usize, u64)], obs: &mut Obs) -> Res {
    let m = token_matcher::<T, O>(&c.pats);
    let dfa = (&m).prepare_to_match();
    let items: Vec<T> = to_syms(&c.input);
    match c.source {
        Source::Slice => finish(c, &mut Tokenizer::new((&items).read_symbols(), &m), want)?,
        Source::Owned => finish(c, &mut Tokenizer::new_prepared(VecReader::from_vec(items), &dfa), want)?,
        Source::Boxed => { let b: Box<dyn SymbolReader<T>> = Box::new(VecReader::from_vec(items)); finish(c, &mut Tokenizer::new_prepared(b, &dfa), want)? }
        Source::Mapped => finish(c, &mut Tokenizer::new_prepared(VecReader::from_vec(c.input.clone()).map_symbols(|r| T::of(r)), &dfa), want)?,
        Source::OnTape => { let mut t = Tape::new((&items).read_symbols()); let _ = t.to_vec(); t.rewind(items.len()); finish(c, &mut Tokenizer::new_prepared(t, &dfa), want)? }
        Source::Half => { let mut s = VecReader::from_vec(items); let (a, b) = s.split(); finish(c, &mut Tokenizer::new_prepared(a, &dfa), want)?; finish(c, &mut Tokenizer::new(b, &m), want)?; }
        Source::Counted => {
            let (s, pulls) = Counting::new(items);
            finish(c, &mut Tokenizer::new_prepared(s, &dfa), want)?;
            if pulls.borrow().symbols != c.input.len() { return Err(format!("the source was read {} times, its length is {}", pulls.borrow().symbols, c.input.len())); }
        }
    }
    obs.ran(c.input.len() as u64);
    let covered: usize = want.iter().map(|t| t.1 - t.0).sum();
    obs.label_if(covered < c.input.len(), "symbols skipped");
    obs.label_if(c.pats.iter().any(|p| p.0.nullable()), "a token matches the empty string");
    obs.label_if(c.input.len() > 500, "more than 500 symbols");
    obs.label_if(want.windows(2).any(|w| w[0].2 != w[1].2), "different tokens");
    obs.nontrivial = want.len() >= 2 && (covered < c.input.len() || want.iter().any(|t| t.1 - t.0 > 1));
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char, String>(c, obs), Ty::I16 => check::<i16, RevOut>(c, obs), Ty::Desc => check::<Desc, u32>(c, obs), _ => check::<u8, u32>(c, obs) }
}
fn gen_len(src: &mut Src, parts: usize, limit: usize) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I16, Ty::Desc]);
    let alpha = gen_small_alpha(src, ty);
    let pats = gen_tokens(src, &alpha);
    let input = gen_input(src, &pats, &alpha, max_rank(ty), parts, limit);
    let source = *src.pick(&[Source::Slice, Source::Owned, Source::Boxed, Source::Mapped, Source::OnTape, Source::Half, Source::Counted]);
    let take = if src.chance(1, 3) { Some(src.below(6)) } else { None };
    Case { ty, pats, input, source, take }
}
fn gen(src: &mut Src) -> Case { gen_len(src, 7, 70) }
fn gen_long(src: &mut Src) -> Case { let k = if src.thorough { 6 } else { 1 }; gen_len(src, 300 * k, 3000 * k) }
fn gen_exh(src: &mut Src) -> Case {
    let p = enum_pat(src, 3, 2);
    let q = [Pat::Lit(vec![0]), Pat::Lit(vec![1, 0]), Pat::Eps, Pat::Lit(vec![0, 0, 1])][src.below(4) as usize].clone();
    let n = src.below(6);
    let input = (0..n).map(|_| src.below(2)).collect();
    Case { ty: Ty::U8, pats: vec![(p, 1), (q, src.below(2) * 2)], input, source: Source::Owned, take: None }
}

/// Streams of tens of thousands of symbols, tokens as long
fn test_huge(c: &(HugeSet, Source), obs: &mut Obs) -> Res {
    for w in &c.0.words {
        let k = Case { ty: c.0.ty, pats: c.0.pats(), input: expand(w), source: c.1, take: None };
        let nfa = build_set(&k.pats, false);
        let mut r = RefDfa::new(&nfa, max_rank(c.0.ty));
        if !cheap(&mut r, &k.input) { obs.label("skipped: too much look-ahead that fails"); continue; }
        let want = r.scan(&k.input);
        let was = obs.nontrivial;
        match k.ty { Ty::Char => check_input::<char, String>(&k, &want, obs)?, Ty::U32 => check_input::<u32, u32>(&k, &want, obs)?, _ => check_input::<u8, u32>(&k, &want, obs)? }
        obs.nontrivial |= was;
        obs.label_if(want.iter().any(|t| t.1 - t.0 > 65_535), "a token of more than 65535 symbols");
        obs.label_if(want.len() > 65_535, "more than 65535 tokens");
    }
    Ok(())
}
fn gen_hcase(src: &mut Src) -> (HugeSet, Source) { let s = gen_huge_small(src); (s, gen_source(src)) }
fn gen_source(src: &mut Src) -> Source { *src.pick(&[Source::Slice, Source::Owned, Source::Boxed, Source::Mapped, Source::OnTape, Source::Half, Source::Counted]) }

fn main() {
    main_with(Property {
        id: "C05",
        rule: "the scan yields at least two tokens, and symbols are skipped or a token is longer than one symbol",
        assumptions: &["inputs are finite and bounded in length (up to 3000 symbols in the quick tier)"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(300_000, 300_000), gen_exh, test),
            sub("random", Mode::Random(240_000, 2_880_000), gen, test),
            sub("long", Mode::Random(8_000, 96_000), gen_long, test),
            sub("huge", Mode::Random(60, 800), gen_hcase, test_huge),
            harness::deep_sub!("C05"),
            harness::billions_sub!("C05"),
        ],
    });
}
