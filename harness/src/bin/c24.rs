//! C24 The inspectable form of a matcher describes what it does
use harness::lib_api::*;
use harness::listing::*;
use harness::machine::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum What { Set(Vec<(Pat, u64)>), One(Pat), Machine(Vec<Edit>), Overlapping(Vec<Edit>) }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, what: What, words: Vec<Vec<u64>> }

fn prepare<T: Sym, O: Out>(w: &What) -> SymbolRangeDfa<T, O> {
    match w {
        What::Set(p) => prepare_set(p),
        What::One(p) => p.to_lib::<T>().to_ndfa(O::oof(1)).prepare_to_match(),
        What::Machine(e) => DfaCompiler::build(ndfa::<T, O>(e), SymbolRangeDfaBuilder::new()),
        What::Overlapping(e) => {
            let mut n = ndfa::<T, O>(e);
            n.fix_overlapping_ranges();
            let b: Box<dyn StateMachine<SymbolRange<T>, O>> = Box::new(n);
            b.prepare_to_match()
        }
    }
}
/// Words reaching every listed state, then each listed range (both ends) and its neighbours
fn words_for(l: &Listing, max: u64, cap: usize) -> (Vec<Vec<u64>>, usize) {
    let mut access: Vec<Option<Vec<u64>>> = vec![None; l.trans.len()];
    access[0] = Some(vec![]);
    let mut q = VecDeque::from([0usize]);
    let mut words: Vec<Vec<u64>> = vec![];
    let mut n = 0;
    while let Some(s) = q.pop_front() {
        n += 1;
        let a = access[s].clone().unwrap();
        for t in &l.trans[s] {
            for x in [t.0, t.1, t.0.saturating_sub(1), t.1.saturating_add(1).min(max)] {
                let mut w = a.clone(); w.push(x);
                if t.0 <= x && x <= t.1 && access[t.2 as usize].is_none() { access[t.2 as usize] = Some(w.clone()); q.push_back(t.2 as usize); }
                if words.len() < cap { words.push(w); }
            }
        }
        if words.len() < cap { words.push(a); }
    }
    (words, n)
}
/// Walks two listings together; a word on which they differ
fn differ(a: &Listing, b: &Listing, max: u64, cap: usize) -> Option<(Vec<u64>, Answer, Answer)> {
    let mut seen = std::collections::HashSet::new();
    let mut q = VecDeque::new();
    seen.insert((Some(0usize), Some(0usize)));
    q.push_back((Some(0), Some(0), vec![]));
    while let Some((x, y, w)) = q.pop_front() {
        if x.and_then(|s| a.out[s]) != y.and_then(|s| b.out[s]) { let (p, q) = (a.run(&w), b.run(&w)); return Some((w, p, q)); }
        let mut reps = std::collections::BTreeSet::new();
        for (l, s) in [(a, x), (b, y)] { if let Some(s) = s { for t in &l.trans[s] { reps.extend([t.0, t.1, t.0.saturating_sub(1), t.1.saturating_add(1).min(max)]); } } }
        for sym in reps {
            let n = (x.and_then(|s| a.step(s, sym)), y.and_then(|s| b.step(s, sym)));
            if n == (None, None) { continue; }
            if seen.len() < cap && seen.insert(n) { let mut w2 = w.clone(); w2.push(sym); q.push_back((n.0, n.1, w2)); }
        }
    }
    None
}

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let nfa = match &c.what { What::Set(p) => build_set(p, false), What::One(p) => build_set(&[(p.clone(), 1)], false), What::Machine(e) | What::Overlapping(e) => reference(e) };
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let dfa = prepare::<T, O>(&c.what);
    let l = listing::<T, O>(&dfa);
    l.well_formed().map_err(|m| format!("the listing of the matcher is not well formed: {}; listing {:?}", m, l))?;
    if listing::<T, O>(&dfa) != l { return Err("two listings of the same matcher differ".into()); }
    let (mut words, reachable) = words_for(&l, T::MAX, 400);
    words.extend(cover_words(&dfa, &mut r, 600, 60).0);
    words.extend(c.words.iter().cloned());
    let mut hits = 0;
    for w in &words {
        let by_listing = l.run(w);
        let got = run(&dfa, w)?;
        if by_listing != got { return Err(format!("word {}: the listing gives {:?}, running the matcher gives {:?}", show(w), by_listing, got)); }
        if got.is_some() { hits += 1 }
    }
    // The same listing through other routes, and compiled again
    let own: Own<SymbolRange<T>, O> = Own {
        trans: l.trans.iter().map(|ts| ts.iter().map(|t| (SymbolRange::new(T::of(t.0), T::of(t.1)), t.2)).collect()).collect(),
        out: l.out.iter().map(|o| o.map(O::oof)).collect(),
    };
    let boxed: Box<dyn StateMachine<SymbolRange<T>, O>> = Box::new(dfa.clone());
    if listing::<T, O>(&boxed) != l { return Err("the boxed matcher lists something else".into()); }
    let shared: Rc<dyn StateMachine<SymbolRange<T>, O>> = Rc::new(dfa.clone());
    if listing::<T, O>(&shared) != l { return Err("the shared matcher lists something else".into()); }
    let again: Vec<(&str, SymbolRangeDfa<T, O>)> = vec![
        ("prepared again from the boxed matcher", boxed.prepare_to_match()),
        ("compiled again from the shared matcher", DfaCompiler::build(shared, SymbolRangeDfaBuilder::new())),
        ("compiled from a copy of the listing", DfaCompiler::build(own, SymbolRangeDfaBuilder::new())),
    ];
    for (what, d) in &again {
        let l2 = listing::<T, O>(d);
        l2.well_formed().map_err(|m| format!("{}: not well formed: {}", what, m))?;
        if let Some((w, x, y)) = differ(&l, &l2, T::MAX, 3000) {
            let (rx, ry) = (run(&dfa, &w)?, run(d, &w)?);
            return Err(format!("{}: word {}: original listing {:?}, new listing {:?}; original matcher {:?}, new matcher {:?}", what, show(&w), x, y, rx, ry));
        }
        for w in words.iter().step_by(3) { let (x, y) = (run(&dfa, w)?, run(d, w)?); if x != y { return Err(format!("{}: word {}: originally {:?}, now {:?}", what, show(w), x, y)); } }
    }
    obs.ran(words.len() as u64 * 2);
    obs.label_if(reachable < l.trans.len(), "states that cannot be reached");
    obs.label_if(l.trans.len() > 20, "more than 20 states");
    obs.label_if(l.out.iter().flatten().collect::<std::collections::BTreeSet<_>>().len() > 1, "several outputs");
    obs.label_if(l.trans.iter().any(|t| t.len() > 3), "a state with more than three transitions");
    obs.nontrivial = reachable >= 2 && hits > 0 && words.len() > 3;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char, String>(c, obs), Ty::I16 => check::<i16, RevOut>(c, obs), Ty::U64 => check::<u64, u32>(c, obs), Ty::Pair => check::<Pair, i64>(c, obs), Ty::Desc => check::<Desc, u32>(c, obs), _ => check::<u8, u32>(c, obs) }
}

fn gen_of(src: &mut Src, cfg: PatCfg, states: u64, edits: usize) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I16, Ty::U64, Ty::Pair, Ty::Desc]);
    let m = max_rank(ty);
    let alpha = gen_alphabet(src, ty, 6);
    let kind = src.below(4);
    let outs = src.range(1, 6);
    match kind {
        0 => { let n = src.usize(1, 4); let p: Vec<(Pat, u64)> = (0..n).map(|_| { let p = gen_pat(src, &alpha, cfg); (p, src.below(outs)) }).collect(); let words = src.list(0, 5, 3, |s| gen_word(s, &p, &alpha, m, 16)); Case { ty, what: What::Set(p), words } }
        1 => { let p = gen_pat(src, &alpha, cfg); let ps = [(p.clone(), 1)]; let words = src.list(0, 5, 3, |s| gen_word(s, &ps, &alpha, m, 16)); Case { ty, what: What::One(p), words } }
        k => {
            let cl = if k == 2 { gen_classes(src, ty, 5) } else { gen_ranges(src, ty, 5) };
            let n = src.range(1, states);
            let mut e = gen_edits(src, &cl, n, edits, outs);
            e.push(Edit::Out(src.below(n) as u32, src.below(outs)));
            let words = words_over(src, &cl, m, 5, 12);
            Case { ty, what: if k == 2 { What::Machine(e) } else { What::Overlapping(e) }, words }
        }
    }
}
fn gen(src: &mut Src) -> Case { gen_of(src, PatCfg { budget: 20, ..SMALL }, 6, 20) }
fn gen_big(src: &mut Src) -> Case { gen_of(src, MEDIUM, 14, 60) }
fn gen_exh(src: &mut Src) -> Case {
    let p = enum_pat(src, if src.thorough { 5 } else { 4 }, 2);
    let mut pats = vec![(p, 1)];
    match src.below(3) { 0 => {} k => pats.push((Pat::Lit(vec![0, 1]), 2 * (k - 1))) }
    Case { ty: Ty::U8, what: What::Set(pats), words: vec![vec![0, 1, 0], vec![1, 1], vec![0, 0, 1, 1]] }
}

/// Matchers with tens of thousands of states
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, u32>(c, obs, &|_, dfa, _, words, want, obs| {
        let l = listing::<T, u32>(dfa);
        l.well_formed().map_err(|m| format!("the listing of the matcher is not well formed: {}", m))?;
        let b: Box<dyn StateMachine<SymbolRange<T>, u32>> = Box::new(dfa.clone());
        let again: SymbolRangeDfa<T, u32> = b.prepare_to_match();
        compare_huge("compiled again from its listing", &again, words, want, obs)?;
        for (w, e) in words.iter().zip(want) { if l.run(w) != *e { return Err(format!("word {}: the listing gives {:?}, running the matcher {:?}", show(w), l.run(w), e)); } }
        obs.label_if(l.trans.len() > 65_536, "more than 65536 states");
        Ok(())
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }

fn main() {
    main_with(Property {
        id: "C24",
        rule: "at least two states are reachable, some word is accepted and more than three words were compared",
        assumptions: &["cases whose reference automaton has more than 400 subset states are skipped"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(400_000, 6_000_000), gen_exh, test),
            sub("random", Mode::Random(480_000, 2_880_000), gen, test),
            sub("big", Mode::Random(48_000, 288_000), gen_big, test),
            sub("huge", Mode::Random(80, 1_000), gen_huge, test_huge),
            harness::deep_sub!("C24"),
        ],
    });
}
