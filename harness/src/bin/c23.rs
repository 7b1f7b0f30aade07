//! C23 Step-by-step matching can be stopped, cloned and resumed at any point
use harness::lib_api::*;
use harness::machine::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};

/// Slots are numbered modulo the number of matches in progress
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op { Start, Feed(u8, Vec<u64>), Copy(u8), Finish(u8), Drop(u8) }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum What { Set(Vec<(Pat, u64)>), Machine(Vec<Edit>) }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, what: What, ops: Vec<Op> }

/// For every state of the reference: can a longer match still be found from there?
fn improvable(r: &mut RefDfa) -> Vec<bool> {
    let n = r.sets.len();
    let syms: Vec<u64> = r.atoms.iter().map(|a| a.0).collect();
    let succ: Vec<Vec<usize>> = (0..n).map(|s| syms.iter().map(|x| r.step(s, *x)).collect()).collect();
    let mut can = vec![false; n];
    loop {
        let mut changed = false;
        for s in 0..n { if !can[s] && succ[s].iter().any(|t| r.outs[*t].is_some() || can[*t]) { can[s] = true; changed = true; } }
        if !changed { return can; }
    }
}
fn answer<'a, O: Out, S>(a: &MatchAction<'a, O, S>) -> Option<Answer> {
    match a { Accept(n, o) => Some(Some((*n, o.orank()))), Reject => Some(None), More(_) => None }
}
/// `is_accepted` says whether the answer carries the given output
fn check_is_accepted<'a, O: Out, S>(a: &MatchAction<'a, O, S>) -> Res {
    let ans = answer(a);
    for o in 0..8u64 {
        let want = matches!(ans, Some(Some((_, x))) if x == o);
        if a.is_accepted(&O::oof(o)) != want { return Err(format!("is_accepted({}) is {} for {:?}", o, !want, ans)); }
    }
    Ok(())
}

struct Slot<S> { word: Vec<u64>, r: usize, best: Answer, state: S, copied_at: Option<usize> }

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let nfa = match &c.what { What::Set(p) => build_set(p, false), What::Machine(e) => reference(e) };
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let can = improvable(&mut r);
    let dfa: SymbolRangeDfa<T, O> = match &c.what {
        What::Set(p) => prepare_set(p),
        What::Machine(e) => DfaCompiler::build(ndfa::<T, O>(e), SymbolRangeDfaBuilder::new()),
    };
    let first = r.outs[0].map(|o| (0, o));
    let mut slots = vec![];
    let (mut copies, mut stopped_mid, mut ended, mut early, mut diverged, mut fed) = (0, 0, 0, 0, 0, 0);
    let begin = |slots: &mut Vec<Slot<_>>| -> Res {
        let a = dfa.start();
        check_is_accepted(&a)?;
        match a {
            More(state) => { slots.push(Slot { word: vec![], r: 0, best: first, state, copied_at: None }); Ok(()) }
            a => { let got = answer(&a).unwrap(); if got != first || can[0] { Err(format!("the match ended before any symbol with {:?} although {:?} is matched so far and a longer match is possible: {}", got, first, can[0])) } else { Ok(()) } }
        }
    };
    begin(&mut slots)?;
    let finish = |s: Slot<_>, i: usize| -> Res {
        let a = MatchingState::<T, O>::finish(s.state);
        check_is_accepted(&a)?;
        match answer(&a) {
            None => Err(format!("operation {}: finishing a match did not give an answer", i)),
            Some(x) if x != s.best => Err(format!("operation {}: finished after {}: got {:?}, expected {:?} (length, output rank)", i, show(&s.word), x, s.best)),
            _ => Ok(())
        }
    };
    for (i, op) in c.ops.iter().enumerate() {
        if slots.is_empty() { begin(&mut slots)?; if slots.is_empty() { break; } }
        let n = slots.len();
        match op {
            Op::Start => if n < 12 { begin(&mut slots)? },
            Op::Copy(k) => if n < 12 {
                let at = *k as usize % n;
                let s = &slots[at];
                let x = Slot { word: s.word.clone(), r: s.r, best: s.best, state: s.state.clone(), copied_at: Some(s.word.len()) };
                slots.push(x);
                copies += 1;
            },
            Op::Finish(k) => { let s = slots.swap_remove(*k as usize % n); if !s.word.is_empty() && can[s.r] { stopped_mid += 1 } finish(s, i)?; }
            Op::Drop(k) => { slots.swap_remove(*k as usize % n); }
            Op::Feed(k, w) => {
                let at = *k as usize % n;
                for x in w {
                    let Slot { mut word, r: rs, best, state, copied_at } = slots.swap_remove(at);
                    word.push(*x);
                    fed += 1;
                    let rs2 = r.step(rs, *x);
                    let best = match r.outs[rs2] { Some(o) => Some((word.len(), o)), None => best };
                    if best != nfa.run(&word).best { return harness_bug(format!("the two references differ on {:?}", word)); }
                    let a = MatchingState::<T, O>::next(state, T::of(*x));
                    check_is_accepted(&a)?;
                    match a {
                        More(state) => {
                            if copied_at.map(|c| word.len() > c).unwrap_or(false) { diverged += 1 }
                            slots.push(Slot { word, r: rs2, best, state, copied_at });
                            let last = slots.len() - 1; slots.swap(at, last);
                        }
                        a => {
                            let got = answer(&a).unwrap();
                            if got != best { return Err(format!("operation {}: the match ended by itself after {} with {:?}, the longest match is {:?}", i, show(&word), got, best)); }
                            if can[rs2] { return Err(format!("operation {}: the match ended by itself after {} with {:?}, but a longer match is still possible", i, show(&word), got)); }
                            ended += 1;
                            if got.map(|g| g.0 < word.len()).unwrap_or(false) { early += 1 }
                            break;
                        }
                    }
                }
            }
        }
    }
    while let Some(s) = slots.pop() { if !s.word.is_empty() && can[s.r] { stopped_mid += 1 } finish(s, c.ops.len())?; }
    obs.ran(fed);
    obs.label_if(copies > 0, "copies");
    obs.label_if(diverged > 0, "a copy continued after it was taken");
    obs.label_if(stopped_mid > 0, "stopped where a longer match was still possible");
    obs.label_if(ended > 0, "ended by itself");
    obs.label_if(early > 0, "backed up to an earlier accept");
    obs.nontrivial = fed >= 3 && (stopped_mid > 0 || diverged > 0);
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char, String>(c, obs), Ty::I32 => check::<i32, RevOut>(c, obs), Ty::Pair => check::<Pair, i64>(c, obs), _ => check::<u8, u32>(c, obs) }
}

fn gen_of(src: &mut Src, len: usize, ops: usize, loops: bool) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I32, Ty::Pair]);
    let m = max_rank(ty);
    let (what, pats, alpha) = if src.chance(1, 3) {
        let cl = gen_classes(src, ty, 3);
        let n = src.range(1, 6);
        let mut e = gen_edits(src, &cl, n, 20, 6);
        e.push(Edit::Out(src.below(n) as u32, src.below(6)));
        (What::Machine(e), vec![], cl.iter().flat_map(|c| [c.0, c.1]).collect::<Vec<_>>())
    } else {
        let alpha = gen_alphabet(src, ty, 5);
        let n = src.usize(1, 3);
        let outs = src.range(1, 6);
        let p: Vec<(Pat, u64)> = (0..n).map(|_| { let p = gen_pat(src, &alpha, PatCfg { budget: 25, ..SMALL }); (if loops && src.chance(3, 4) { Pat::Star(src.below(2) as u32, Box::new(p)) } else { p }, src.below(outs)) }).collect();
        (What::Set(p.clone()), p, alpha)
    };
    let ops = src.list(1, ops, 8, |s| match s.weighted(&[10, 4, 3, 2, 1]) {
        0 => { let k = s.below(4) as u8; let w = if s.chance(1, 2) { vec![*s.pick(&alpha)] } else { gen_word(s, &pats, &alpha, m, len) }; Op::Feed(k, w) }
        1 => Op::Copy(s.below(4) as u8),
        2 => Op::Finish(s.below(4) as u8),
        3 => Op::Start,
        _ => Op::Drop(s.below(4) as u8),
    });
    Case { ty, what, ops }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 6, 24, false) }
fn gen_long(src: &mut Src) -> Case { let k = if src.thorough { 10 } else { 1 }; gen_of(src, 60 * k, 60, true) }
/// Small patterns, every word up to length 4, copied at every point
fn gen_exh(src: &mut Src) -> Case {
    let p = enum_pat(src, 3, 2);
    let q = [None, Some((Pat::Lit(vec![0, 1]), 2u64))][src.below(2) as usize].clone();
    let mut pats = vec![(p, 1)];
    pats.extend(q);
    let n = src.below(5);
    let mut ops = vec![];
    for _ in 0..n {
        // the copy goes to the end; it is fed something else and finished at the end
        ops.push(Op::Copy(0));
        ops.push(Op::Feed(0, vec![src.below(2)]));
    }
    let x = src.below(2);
    for k in 1..=n { ops.push(Op::Feed(k as u8, vec![x, 1 - x])); }
    Case { ty: Ty::U8, what: What::Set(pats), ops }
}

/// Long matches, stopped at points around every limit and at every end of a match
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, u32>(c, obs, &|_, dfa, nfa, words, want, obs| {
        let mut r = RefDfa::new(nfa, T::MAX);
        for (w, all) in words.iter().zip(want) {
            let mut s = 0;
            let mut best = r.outs[0].map(|o| (0, o));
            let mut a = dfa.start();
            for (i, x) in w.iter().enumerate() {
                let state = match a { More(s) => s, _ => break };
                let hit = r.outs[s].is_some();
                if i % 9_973 == 0 || [255, 256, 257, 4095, 4096, 4097, 65_535, 65_536, 65_537].contains(&i) || (hit && i % 61 == 0) {
                    let got = answer(&MatchingState::<T, u32>::finish(state.clone()));
                    if got != Some(best) { return Err(format!("stopped after {} symbols of {}: got {:?}, expected {:?}", i, show(w), got, best)); }
                    obs.ran(1);
                }
                a = MatchingState::<T, u32>::next(state, T::of(*x));
                s = r.step(s, *x);
                if let Some(o) = r.outs[s] { best = Some((i + 1, o)); }
            }
            if let More(s) = a { a = MatchingState::<T, u32>::finish(s); }
            if answer(&a) != Some(*all) { return Err(format!("fed by hand, {}: got {:?}, expected {:?}", show(w), answer(&a), all)); }
        }
        Ok(())
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }

fn main() {
    main_with(Property {
        id: "C23",
        rule: "at least three symbols are fed, and a match is stopped where a longer one is still possible or a copy is continued after it was taken",
        assumptions: &["a match may end by itself as soon as no longer match is possible, or go on until it is told to finish", "cases whose reference automaton has more than 400 subset states are skipped"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(600_000, 600_000), gen_exh, test),
            sub("random", Mode::Random(400_000, 8_000_000), gen, test),
            sub("long", Mode::Random(60_000, 800_000), gen_long, test),
            sub("huge", Mode::Random(80, 1_000), gen_huge, test_huge),
            harness::deep_sub!("C23"),
            harness::billions_sub!("C23"),
        ],
    });
}
