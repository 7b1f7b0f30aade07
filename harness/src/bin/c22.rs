//! C22 A hand-built transition table runs exactly as described
use harness::huge::*;
use harness::lib_api::*;
use harness::listing::*;
use harness::machine::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::{with_out, with_ty};
use concordance::*;
use serde::{Deserialize, Serialize};

/// `accept` is the output and the number of transitions of the state that are given before it
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct State { trans: Vec<(u64, u64, u32)>, accept: Option<(u64, usize)> }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, out: OutTy, states: Vec<State>, words: Vec<Vec<u64>>, copy: bool }

fn merged(ts: &[(u64, u64, u32)]) -> Vec<(u64, u64, u32)> {
    let mut v: Vec<(u64, u64, u32)> = vec![];
    for t in ts {
        match v.last_mut() { Some(l) if l.2 == t.2 && l.1 + 1 == t.0 => l.1 = t.1, _ => v.push(*t) }
    }
    v
}

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let mut b = SymbolRangeDfaBuilder::<T, O>::new();
    for s in &c.states {
        b.start_state();
        for i in 0..=s.trans.len() {
            if let Some((o, at)) = s.accept { if at.min(s.trans.len()) == i { b.accept(O::oof(o)); } }
            if let Some(t) = s.trans.get(i) { b.transition(SymbolRange::new(T::of(t.0), T::of(t.1)), t.2); }
        }
    }
    let dfa = b.build();
    let dfa = if c.copy { dfa.clone() } else { dfa };
    let want = Listing { trans: c.states.iter().map(|s| s.trans.clone()).collect(), out: c.states.iter().map(|s| s.accept.map(|a| a.0)).collect() };
    if let Err(m) = want.well_formed() { return harness_bug(format!("bad table: {}", m)); }
    let got = listing::<T, O>(&dfa);
    if got.trans.len() != want.trans.len() { return Err(format!("{} states were given, the matcher has {}", want.trans.len(), got.trans.len())); }
    if got.out != want.out { return Err(format!("the outputs given are {:?}, the matcher lists {:?}", want.out, got.out)); }
    for s in 0..want.trans.len() {
        if merged(&got.trans[s]) != merged(&want.trans[s]) { return Err(format!("state {}: the transitions given are {:?}, the matcher lists {:?}", s, want.trans[s], got.trans[s])); }
    }
    // Every transition of every reachable state, at both ends and just outside, and the given words
    let mut access: Vec<Option<Vec<u64>>> = vec![None; want.trans.len()];
    access[0] = Some(vec![]);
    let mut order = vec![0];
    let mut i = 0;
    while i < order.len() {
        let s = order[i]; i += 1;
        for t in &want.trans[s] {
            let t2 = t.2 as usize;
            if access[t2].is_none() { let mut w = access[s].clone().unwrap(); w.push(if (i + t2) % 2 == 0 { t.0 } else { t.1 }); access[t2] = Some(w); order.push(t2); }
        }
    }
    let mut words = c.words.clone();
    for s in &order {
        let a = access[*s].clone().unwrap();
        for t in &want.trans[*s] {
            for x in [t.0, t.1, t.0.saturating_sub(1), t.1.saturating_add(1).min(T::MAX), t.0 + (t.1 - t.0) / 2] {
                let mut w = a.clone(); w.push(x);
                // one symbol further, so that the state reached is used as well
                let n = want.step(*s, x).and_then(|n| want.trans[n].last().map(|t| t.1));
                if let Some(y) = n { w.push(y); }
                words.push(w);
            }
        }
        words.push(a);
    }
    let (mut hits, mut early) = (0, 0);
    for w in &words {
        let exp = want.run(w);
        let got = run(&dfa, w)?;
        if got != exp { return Err(format!("word {}: got {:?}, expected {:?}", show(w), got, exp)); }
        if let Some((n, _)) = exp { hits += 1; if n < w.len() { early += 1 } }
    }
    obs.ran(words.len() as u64);
    let joined = c.states.iter().any(|s| merged(&s.trans).len() < s.trans.len());
    obs.label_if(joined, "adjacent transitions with the same target");
    obs.label_if(c.states.iter().any(|s| s.trans.windows(2).any(|p| p[0].1 + 1 == p[1].0 && p[0].2 != p[1].2)), "adjacent transitions with different targets");
    obs.label_if(order.len() < want.trans.len(), "unreachable states");
    obs.label_if(c.states.iter().any(|s| s.trans.is_empty()), "a state without transitions");
    obs.label_if(early > 0, "backs up to an earlier accept");
    obs.label_if(c.states.iter().any(|s| s.trans.iter().any(|t| t.1 == T::MAX)), "a transition that ends at the type's largest value");
    obs.nontrivial = order.len() >= 2 && hits > 0;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => with_out!(c.out, O => check::<T, O>(c, obs))) }

fn gen_n(src: &mut Src, max_states: u64, max_trans: usize) -> Case {
    let ty = gen_ty(src);
    let out = gen_out_ty(src);
    let n = src.range(1, max_states);
    let outs = src.range(1, 5);
    let m = max_rank(ty);
    // Ranges come from one set of cut points, so that adjacent ones are common
    let targets = src.range(1, 3);
    let mut states = vec![];
    for _ in 0..n {
        let mut trans = vec![];
        if !src.chance(1, 6) {
            let cl = gen_classes(src, ty, max_trans);
            let base = src.below(n);
            for r in cl {
                if src.chance(1, 8) { continue; }
                let t = ((base + src.below(targets)) % n) as u32;
                // cut a range in two now and then
                if r.1 > r.0 && src.chance(1, 3) { let k = src.range(r.0, r.1 - 1); trans.push((r.0, k, t)); trans.push((k + 1, r.1, if src.chance(2, 3) { t } else { ((base + src.below(targets)) % n) as u32 })); }
                else { trans.push((r.0, r.1, t)); }
            }
        }
        let accept = if src.chance(1, 2) { Some((src.below(outs), src.below(4) as usize)) } else { None };
        states.push(State { trans, accept });
    }
    let cl: Vec<(u64, u64)> = states.iter().flat_map(|s| s.trans.iter().map(|t| (t.0, t.1))).collect();
    let words = if cl.is_empty() { vec![vec![0], vec![]] } else { words_over(src, &cl, m, 4, 14) };
    Case { ty, out, states, words, copy: src.chance(1, 6) }
}
fn gen(src: &mut Src) -> Case { gen_n(src, 8, 6) }
fn gen_big(src: &mut Src) -> Case { let k = if src.thorough { 8 } else { 1 }; gen_n(src, 60 * k, 24) }
/// All tables of up to two states (three in the thorough tier) over the symbols 0, 1 (and everything above)
fn gen_exh(src: &mut Src) -> Case {
    let n = 1 + src.below(if src.thorough { 3 } else { 2 });
    let states = (0..n).map(|_| {
        let mut trans = vec![];
        for r in [(0u64, 0u64), (1, 1), (2, 2)] { let t = src.below(n + 1); if t > 0 { trans.push((r.0, r.1, (t - 1) as u32)); } }
        let accept = match src.below(3) { 0 => None, k => Some((k - 1, 3 * (2 - k as usize))) };
        State { trans, accept }
    }).collect();
    Case { ty: Ty::Tri, out: OutTy::U32, states, words: harness::pat::all_words(3, 3), copy: false }
}

/// A table of `n` states in a ring: state i has the transitions (low, high, (i + distance) mod n); every `every`-th state has an
/// output.  One state may have `fan` more transitions, at `step` intervals above the others.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Huge { ty: Ty, n: u32, trans: Vec<(u64, u64, u32)>, every: u32, fan: Option<(u32, u64, u64)>, words: Vec<Blocks> }
fn check_huge<T: Sym, O: Out>(c: &Huge, obs: &mut Obs) -> Res {
    let mut want = Listing::default();
    for i in 0..c.n {
        let mut t: Vec<(u64, u64, u32)> = c.trans.iter().map(|t| (t.0, t.1, ((i as u64 + t.2 as u64) % c.n as u64) as u32)).collect();
        if let Some((s, step, count)) = c.fan { if s % c.n == i { let base = c.trans.last().map(|t| t.1).unwrap_or(0) + 1; for j in 0..count { let a = base + j * step; if a + step / 2 <= T::MAX { t.push((a, a + step / 2, (j % c.n as u64) as u32)); } } } }
        want.trans.push(t);
        want.out.push(if i % c.every == c.every - 1 { Some((i / c.every) as u64 % 5) } else { None });
    }
    if let Err(m) = want.well_formed() { return harness_bug(format!("bad table: {}", m)); }
    let mut b = SymbolRangeDfaBuilder::<T, O>::new();
    for i in 0..want.trans.len() {
        b.start_state();
        for t in &want.trans[i] { b.transition(SymbolRange::new(T::of(t.0), T::of(t.1)), t.2); }
        if let Some(o) = want.out[i] { b.accept(O::oof(o)); }
    }
    let dfa = b.build();
    let got = listing::<T, O>(&dfa);
    if got.trans.len() != want.trans.len() { return Err(format!("{} states were given, the matcher has {}", want.trans.len(), got.trans.len())); }
    if let Some(i) = (0..want.out.len()).find(|i| got.out[*i] != want.out[*i]) { return Err(format!("state {} was given output {:?}, the matcher lists {:?}", i, want.out[i], got.out[i])); }
    for s in 0..want.trans.len() { if merged(&got.trans[s]) != merged(&want.trans[s]) { let (g, w) = (merged(&got.trans[s]), merged(&want.trans[s])); let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(0); return Err(format!("state {}: {} transitions given, {} listed; number {} given as {:?}, listed as {:?}", s, w.len(), g.len(), k, w.get(k), g.get(k))); } }
    let words: Vec<Vec<u64>> = c.words.iter().map(expand).collect();
    let mut far = 0;
    for w in &words {
        let exp = want.run(w);
        let got = run(&dfa, w)?;
        if got != exp { return Err(format!("word {}: got {:?}, expected {:?}", show(w), got, exp)); }
        far = far.max(exp.map(|e| e.0).unwrap_or(0));
    }
    obs.ran(words.len() as u64);
    obs.label_if(c.n > 65_535, "more than 65535 states");
    obs.label_if(c.fan.map(|f| f.2 > 65_535).unwrap_or(false), "more than 65535 transitions from one state");
    obs.label_if(far > 65_535, "a match of more than 65535 symbols");
    obs.nontrivial = c.n as usize + c.fan.map(|f| f.2 as usize).unwrap_or(0) > 250 && far > 0;
    Ok(())
}
fn test_huge(c: &Huge, obs: &mut Obs) -> Res { match c.ty { Ty::Char => check_huge::<char, String>(c, obs), Ty::U8 => check_huge::<u8, u32>(c, obs), Ty::I64 => check_huge::<i64, RevOut>(c, obs), _ => check_huge::<u32, i64>(c, obs) } }
fn gen_huge(src: &mut Src) -> Huge {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I64, Ty::U32]);
    let n = gen_size(src);
    let k = src.below(3) + 1;
    let mut at = src.below(40);
    let trans: Vec<(u64, u64, u32)> = (0..k).map(|_| { let a = at + src.below(3); let b = a + src.below(4); at = b + 1; (a, b, match src.below(4) { 0 => 1, 1 => src.below(5) as u32, 2 => n - 1 - src.below(3) as u32, _ => src.below(n as u64) as u32 }) }).collect();
    let fan = if src.chance(1, 2) { Some((src.below(4) as u32, src.range(1, 5), if ty == Ty::U8 { src.below(200) } else { gen_size(src) as u64 })) } else { None };
    let top = at;
    let words = src.list(2, 6, 4, |s| {
        let mut w: Blocks = vec![];
        for _ in 0..s.range(1, 4) {
            let t = *s.pick(&trans);
            match s.below(4) {
                0 | 1 => { let x = if s.chance(1, 2) { t.0 } else { t.1 }; w.push((vec![x], gen_size(s) / 2)); }
                2 => { let x = if s.chance(1, 2) { t.0 } else { t.1 }; w.push((vec![x], s.below(5) as u32)); }
                _ => if let Some(f) = fan { let j = if f.2 > 0 { match s.below(3) { 0 => f.2 - 1, 1 => s.below(f.2), _ => s.below(300).min(f.2 - 1) } } else { 0 }; w.push((vec![(top + j * f.1 + s.below(2)).min(max_rank(ty))], 1)); } else { w.push((vec![t.1.min(max_rank(ty))], 1)) },
            }
        }
        w
    });
    Huge { ty, n, trans, every: src.range(1, 4) as u32, fan, words }
}
fn main() {
    main_with(Property {
        id: "C22",
        rule: "at least two states are reachable and some word is accepted",
        assumptions: &["tables have at least one state, and in each state ascending disjoint transitions to existing states and at most one output"],
        subs: vec![
            sub("small-tables-exhaustive", Mode::Exhaustive(400_000, 8_000_000), gen_exh, test),
            sub("random", Mode::Random(2_400_000, 7_200_000), gen, test),
            sub("big", Mode::Random(128_000, 384_000), gen_big, test),
            sub("huge", Mode::Random(60, 900), gen_huge, test_huge),
            harness::deep_sub!("C22"),
        ],
    });
}
