//! C13 Removing overlaps from a state machine does not change its behaviour
use harness::common::*;
use harness::huge::*;
use harness::machine::*;
use harness::refnfa::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_ty;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, edits: Vec<Edit>, more: Vec<Edit>, words: Vec<Vec<u64>> }

/// Ranks covered, per target, of the listed transitions: normalised to maximal intervals
fn cover(ts: &[(u64, u64, u32)]) -> BTreeMap<u32, Vec<(u64, u64)>> {
    let mut m: BTreeMap<u32, Vec<(u64, u64)>> = BTreeMap::new();
    for t in ts { m.entry(t.2).or_default().push((t.0, t.1)); }
    for v in m.values_mut() {
        v.sort();
        let mut r: Vec<(u64, u64)> = vec![];
        for x in v.iter() { match r.last_mut() { Some(l) if x.0 <= l.1 || x.0 == l.1 + 1 => l.1 = l.1.max(x.1), _ => r.push(*x) } }
        *v = r;
    }
    m
}
fn all<T: Sym, O: Out>(n: &Ndfa<SymbolRange<T>, O>) -> Vec<Vec<(u64, u64, u32)>> {
    (0..n.count_states()).map(|s| n.get_transitions_for_state(s).into_iter().map(|(r, t)| (r.lowest.rank(), r.highest.rank(), t)).collect()).collect()
}
fn sets(v: &[Vec<(u64, u64, u32)>]) -> Vec<BTreeSet<(u64, u64, u32)>> { v.iter().map(|x| x.iter().copied().collect()).collect() }
fn outs<T: Sym, O: Out>(n: &Ndfa<SymbolRange<T>, O>) -> Vec<bool> { (0..n.count_states()).map(|s| n.output_symbol_for_state(s).is_some()).collect() }

/// Removes overlaps and checks everything a user can see of it
fn fix_and_check<T: Sym, O: Out>(what: &str, n: &mut Ndfa<SymbolRange<T>, O>, edits: &[Edit], obs: &mut Obs) -> Res {
    let r = reference(edits);
    let before = all(n);
    let had = outs(n);
    let count = n.count_states();
    let again = n.clone();
    n.fix_overlapping_ranges();
    obs.ran(1);
    if n.count_states() != count { return Err(format!("{}: {} states became {}", what, count, n.count_states())); }
    let after = all(n);
    for s in 0..count as usize {
        let (a, b) = (cover(&before[s]), cover(&after[s]));
        if a != b { return Err(format!("{}: state {} led (by target) to {:?} and now leads to {:?}", what, s, a, b)); }
        // The outputs: one of those attached to the state or to what it is joined with, as before
        let want: BTreeSet<u64> = r.closure(&[s]).iter().flat_map(|x| r.out[*x].iter().copied()).collect();
        let got = n.output_symbol_for_state(s as u32).map(|o| o.orank());
        if got.is_some() != had[s] || got.map(|g| !want.contains(&g)).unwrap_or(!want.is_empty()) { return Err(format!("{}: output of state {} is now {:?}, expected one of {:?}", what, s, got, want)); }
    }
    let mut every: Vec<(u64, u64)> = after.iter().flatten().map(|t| (t.0, t.1)).collect();
    every.sort(); every.dedup();
    for w in every.windows(2) { if w[0].1 >= w[1].0 { return Err(format!("{}: ranges {:?} and {:?} are left on transitions, neither equal nor disjoint", what, w[0], w[1])); } }
    if every.iter().any(|x| x.0 > x.1) { return Err(format!("{}: an empty range is left", what)); }
    let mut twice = n.clone();
    twice.fix_overlapping_ranges();
    if sets(&all(&twice)) != sets(&after) { return Err(format!("{}: removing overlaps a second time changed the transitions from {:?} to {:?}", what, sets(&after), sets(&all(&twice)))); }
    // The copy taken before is untouched
    if sets(&all(&again)) != sets(&before) { return Err(format!("{}: a copy taken before changed", what)); }
    Ok(())
}
fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let nfa = reference(&c.edits);
    let mut n: Ndfa<SymbolRange<T>, O> = ndfa(&c.edits);
    fix_and_check("first", &mut n, &c.edits, obs)?;
    let mut nt = false;
    {
        let mut r = RefDfa::new(&nfa, T::MAX);
        if r.build(400) {
            let dfa = DfaCompiler::build(n.clone(), SymbolRangeDfaBuilder::new());
            let st = compare_nfa(&format!("type {:?}, compiled after removing overlaps", c.ty), &dfa, &nfa, &mut r, &c.words, 60, obs)?;
            nt = st.hit > 0;
        } else { obs.label("not compiled: reference automaton too large"); }
    }
    // The machine stays editable: the joins must still be joins, not copies of what was there at the time
    if !c.more.is_empty() {
        let mut all_edits = c.edits.clone();
        for e in &c.more { apply(&mut n, e); all_edits.push(*e); }
        let r = reference(&all_edits);
        let now = all(&n);
        for s in 0..r.states() {
            let want: Vec<(u64, u64, u32)> = r.closure(&[s]).iter().flat_map(|x| r.trans[*x].iter().map(|t| (t.0, t.1, t.2 as u32))).collect();
            if cover(&now[s]) != cover(&want) { return Err(format!("after further edits state {} leads to {:?}, expected {:?}", s, cover(&now[s]), cover(&want))); }
        }
        fix_and_check("after further edits", &mut n, &all_edits, obs)?;
        let mut rd = RefDfa::new(&r, T::MAX);
        if rd.build(400) {
            let dfa = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
            compare_nfa(&format!("type {:?}, compiled after further edits", c.ty), &dfa, &r, &mut rd, &c.words, 40, obs)?;
        }
    }
    let trans: Vec<(u64, u64)> = c.edits.iter().filter_map(|e| match e { Edit::Trans(_, a, b, _) => Some((*a, *b)), _ => None }).collect();
    let partial = trans.iter().any(|a| trans.iter().any(|b| a != b && a.0 <= b.1 && b.0 <= a.1));
    obs.label_if(partial, "ranges that overlap without being equal");
    obs.label_if(trans.iter().any(|a| trans.iter().any(|b| b.0 > 0 && b.0 - 1 == a.1)), "adjacent ranges");
    obs.label_if(trans.iter().any(|a| a.1 == T::MAX), "a range up to the end of the type");
    obs.label_if(nfa.eps.iter().any(|e| !e.is_empty()), "joins");
    obs.nontrivial = partial && nt;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T, u32>(c, obs)) }
fn gen(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let ranges = gen_ranges(src, ty, 8);
    let n = src.range(1, 6);
    let outs = src.range(1, 4);
    let mut edits = gen_edits(src, &ranges, n, 26, outs);
    if src.chance(3, 4) { let s = src.below(n) as u32; edits.push(Edit::Out(s, src.below(outs))); }
    let more = if src.chance(1, 2) { let r2 = gen_ranges(src, ty, 3); let all: Vec<_> = ranges.iter().chain(&r2).copied().collect(); gen_edits(src, &all, n + 1, 5, outs) } else { vec![] };
    let words = words_over(src, &ranges, max_rank(ty), 5, 10);
    Case { ty, edits, more, words }
}
/// Many ranges on few states
fn gen_wide(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let m = max_rank(ty);
    let base = gen_rank(src, ty).min(m.saturating_sub(60));
    let span = src.range(5, 60);
    let n = src.usize(5, if src.thorough { 120 } else { 50 });
    let ranges: Vec<(u64, u64)> = (0..n).map(|_| { let a = base.saturating_add(src.below(span)); let w = src.below(1 + span / 3); (a.min(m), a.saturating_add(w).min(m)) }).collect();
    let k = src.range(1, 5);
    let mut edits: Vec<Edit> = ranges.iter().map(|r| { let s = src.below(k) as u32; Edit::Trans(s, r.0, r.1, src.below(k) as u32) }).collect();
    if src.chance(1, 2) { let a = src.below(k) as u32; edits.push(Edit::Join(a, src.below(k) as u32)); }
    edits.push(Edit::Out(src.below(k) as u32, 1));
    let words = words_over(src, &ranges, m, 5, 8);
    Case { ty, edits, more: vec![], words }
}
/// Many states held at once, over ranges that overlap
fn gen_crowds(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I32, Ty::U64]);
    let n = src.range(1, 5);
    let classes: Vec<(u64, u64)> = (0..n).map(|i| (10 + 2 * i, 10 + 2 * i + src.below(6))).collect();
    let edits = gen_crowd(src, &classes);
    let words = words_over(src, &classes, max_rank(ty), 5, 5);
    Case { ty, edits, more: vec![], words }
}
/// Every machine of up to three (four) transitions over ranges within 0..=3 and three states, the last accepting, perhaps with a join
fn gen_exh(src: &mut Src) -> Case {
    let n = 1 + src.below(if src.thorough { 4 } else { 3 });
    let mut edits: Vec<Edit> = (0..n).map(|_| {
        let (a, b) = [(0, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)][src.below(10) as usize];
        let (s, t) = [(0, 1), (0, 2), (1, 2), (2, 1)][src.below(4) as usize];
        Edit::Trans(s, a, b, t)
    }).collect();
    match src.below(4) { 0 => {} 1 => edits.push(Edit::Join(0, 1)), 2 => edits.push(Edit::Join(2, 0)), _ => edits.push(Edit::Join(1, 2)) }
    edits.push(Edit::Out(2, 1));
    Case { ty: Ty::U8, edits, more: vec![], words: vec![] }
}
fn check_huge<T: Sym, O: Out>(c: &HugeMachine, obs: &mut Obs) -> Res {
    let edits = c.edits();
    let mut n: Ndfa<SymbolRange<T>, O> = ndfa(&edits);
    fix_and_check("huge", &mut n, &edits, obs)?;
    let nfa = reference(&edits);
    let words = c.words();
    let want = answers(&nfa, &words);
    compare_huge("compiled after removing overlaps", &DfaCompiler::build(n, SymbolRangeDfaBuilder::new()), &words, &want, obs)?;
    huge_stats(&words, &want, &nfa, obs);
    obs.nontrivial = want.iter().any(|w| w.is_some());
    Ok(())
}
fn test_huge(c: &HugeMachine, obs: &mut Obs) -> Res { match c.ty { Ty::Char => check_huge::<char, String>(c, obs), Ty::I32 => check_huge::<i32, RevOut>(c, obs), Ty::U32 => check_huge::<u32, i64>(c, obs), _ => check_huge::<u8, u32>(c, obs) } }
fn gen_huge_m(src: &mut Src) -> HugeMachine { gen_huge_machine(src, true) }
/// Thousands of ranges on few states: (start, step, width, how many, from, to)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Fan { ty: Ty, groups: Vec<(u64, u64, u64, u64, u32, u32)>, words: Vec<Vec<u64>> }
fn check_fan<T: Sym, O: Out>(c: &Fan, obs: &mut Obs) -> Res {
    let mut edits: Vec<Edit> = c.groups.iter().flat_map(|(a, step, w, n, s, t)| (0..*n).map(move |i| Edit::Trans(*s, a + i * step, a + i * step + w, if i % 3 == 0 { *t } else { *t + (i % 2) as u32 }))).filter(|e| matches!(e, Edit::Trans(_, _, b, _) if *b <= T::MAX)).collect();
    edits.push(Edit::Out(2, 1)); edits.push(Edit::Out(3, 0));
    let mut n: Ndfa<SymbolRange<T>, O> = ndfa(&edits);
    fix_and_check("many ranges", &mut n, &edits, obs)?;
    let nfa = reference(&edits);
    let pieces: usize = all(&n).iter().map(|t| t.len()).sum();
    obs.label_if(edits.len() > 4096, "more than 4096 ranges");
    obs.nontrivial = edits.len() > 200 && pieces > edits.len();
    // (the compiler keeps a copy of a state for every transition that leads to it, which is too much for thousands of ranges)
    if pieces > 1500 { return Ok(()); }
    let mut words = c.words.clone();
    for e in edits.iter().step_by(edits.len() / 40 + 1) { if let Edit::Trans(_, a, b, _) = e { words.push(vec![*a, *b]); words.push(vec![*b, *a, *a]); } }
    let want = answers(&nfa, &words);
    compare_huge("compiled after removing overlaps", &DfaCompiler::build(n, SymbolRangeDfaBuilder::new()), &words, &want, obs)?;
    obs.label_if(edits.len() > 255, "more than 255 ranges, compiled");
    Ok(())
}
fn test_fan(c: &Fan, obs: &mut Obs) -> Res { match c.ty { Ty::Char => check_fan::<char, String>(c, obs), Ty::I32 => check_fan::<i32, RevOut>(c, obs), Ty::U64 => check_fan::<u64, i64>(c, obs), _ => check_fan::<u16, u32>(c, obs) } }
fn gen_fan(src: &mut Src) -> Fan {
    let ty = *src.pick(&[Ty::U16, Ty::Char, Ty::I32, Ty::U64]);
    let m = max_rank(ty);
    let groups: Vec<_> = src.list(1, 3, 1, |s| {
        let n = match s.below(7) { 0 | 1 | 5 | 6 => s.range(250, 260), 2 => s.range(300, 1500), 3 => s.range(1500, 3000), _ => s.range(4090, 4100) };
        let step = s.range(1, 5);
        let w = s.below(9);
        (if s.chance(1, 4) { m - n * step - w } else { gen_rank(s, ty).min(m / 2) }, step, w, n, s.below(2) as u32, s.below(3) as u32)
    });
    let words = src.list(0, 8, 4, |s| s.list(1, 4, 2, |s| { let g = *s.pick(&groups); (g.0 + s.below(g.1 * g.3)).min(m) }));
    Fan { ty, groups, words }
}
fn main() {
    main_with(Property {
        id: "C13",
        rule: "two ranges on the machine's transitions overlap without being equal, and the compiled machine accepts some word tried",
        assumptions: &["which of several outputs of joined states is reported by the single-output query is not specified; one of them has to be", "the compiled behaviour is compared only where the reference automaton has at most 400 subset states"],
        subs: vec![
            sub("tiny-machines-exhaustive", Mode::Exhaustive(400_000, 12_000_000), gen_exh, test),
            sub("random", Mode::Random(96_000, 576_000), gen, test),
            sub("crowds", Mode::Random(2_000, 24_000), gen_crowds, test),
            sub("many-ranges", Mode::Random(16_000, 96_000), gen_wide, test),
            sub("huge", Mode::Random(24, 480), gen_huge_m, test_huge),
            sub("huge-fan", Mode::Random(300, 4_500), gen_fan, test_fan),
            harness::deep_sub!("C13"),
        ],
    });
}
