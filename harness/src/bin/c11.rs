//! C11 Compiling a state machine preserves what it accepts and outputs
use harness::common::*;
use harness::huge::*;
use harness::machine::*;
use harness::refnfa::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, edits: Vec<Edit>, words: Vec<Vec<u64>> }

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs, cover: usize) -> Res {
    let nfa = reference(&c.edits);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(800) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let n: Ndfa<SymbolRange<T>, O> = ndfa(&c.edits);
    let mut st = SetStats::default();
    for round in 0..2 {
        let dfa = DfaCompiler::build(n.clone(), SymbolRangeDfaBuilder::new());
        let s = compare_nfa(&format!("type {:?}, compilation {}", c.ty, round), &dfa, &nfa, &mut r, &c.words, cover, obs)?;
        if round == 0 { st = s }
    }
    let boxed: Box<dyn StateMachine<SymbolRange<T>, O>> = Box::new(n.clone());
    let dfa = boxed.prepare_to_match();
    compare_nfa("prepared from a boxed machine", &dfa, &nfa, &mut r, &c.words, cover / 4, obs)?;
    let shared: Rc<dyn StateMachine<SymbolRange<T>, O>> = Rc::new(n);
    let dfa = DfaCompiler::new(shared, SymbolRangeDfaBuilder::new()).compile();
    compare_nfa("compiled from a shared machine", &dfa, &nfa, &mut r, &c.words, cover / 4, obs)?;
    let o: Own<SymbolRange<T>, O> = own(&nfa, &|a, b| SymbolRange::new(T::of(a), T::of(b)));
    let dfa = DfaCompiler::build(o, SymbolRangeDfaBuilder::new());
    compare_nfa("compiled from a machine of our own", &dfa, &nfa, &mut r, &c.words, cover / 4, obs)?;
    let nondet = nfa.trans.iter().any(|t| t.iter().any(|a| t.iter().any(|b| a.0 == b.0 && a.2 != b.2)));
    let multi = (0..nfa.states()).any(|s| nfa.closure(&[s]).iter().filter(|x| !nfa.out[**x].is_empty()).count() > 1);
    let subsets = r.sets.iter().any(|s| s.iter().flat_map(|x| nfa.out[*x].iter()).collect::<std::collections::BTreeSet<_>>().len() > 1);
    obs.label_if(nondet, "nondeterministic");
    obs.label_if(multi, "a state joined with several accepting states");
    obs.label_if(subsets, "several outputs compete");
    obs.label_if(nfa.eps.iter().any(|e| !e.is_empty()), "joins");
    obs.label_if(nfa.states() > 256, "more than 256 states");
    obs.nontrivial = st.hit > 0 && (st.miss > 0 || st.strict > 0) && (nondet || subsets || multi);
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char, String>(c, obs, 120), Ty::I32 => check::<i32, RevOut>(c, obs, 120), Ty::U64 => check::<u64, u32>(c, obs, 120), Ty::Pair => check::<Pair, i64>(c, obs, 120), _ => check::<u8, u32>(c, obs, 120) }
}
fn gen_of(src: &mut Src, states: u64, max: usize, nclass: usize) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I32, Ty::U64, Ty::Pair]);
    let classes = if src.chance(1, 3) { gen_classes(src, ty, nclass) } else { let n = src.range(1, nclass as u64); (0..n).map(|i| (10 + 2 * i, 10 + 2 * i + src.below(2))).collect() };
    let n = src.range(1, states);
    let outs = src.range(1, 7);
    let mut edits = gen_edits(src, &classes, n, max, outs);
    if src.chance(3, 4) { let s = src.below(n) as u32; edits.push(Edit::Out(s, src.below(outs))); }
    let words = words_over(src, &classes, max_rank(ty), 6, 14);
    Case { ty, edits, words }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 7, 28, 4) }
fn gen_wide(src: &mut Src) -> Case { gen_of(src, 12, 60, 9) }
/// Many states held at once
fn gen_crowds(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I32, Ty::Pair]);
    let n = src.range(1, 4);
    let classes: Vec<(u64, u64)> = (0..n).map(|i| (10 + 2 * i, 10 + 2 * i + src.below(2))).collect();
    let edits = gen_crowd(src, &classes);
    let words = words_over(src, &classes, max_rank(ty), 6, 5);
    Case { ty, edits, words }
}
/// Long chains and wide machines: many states, long words
fn gen_big(src: &mut Src) -> Case {
    let n = src.range(100, if src.thorough { 1500 } else { 500 }) as u32;
    let mut edits = vec![];
    let k = src.range(1, 3);
    let mut w = vec![];
    for i in 0..n { let c = src.below(k); w.push(c); edits.push(Edit::Trans(i, c, c, i + 1)); }
    for _ in 0..src.below(12) { let a = src.below(n as u64) as u32; edits.push(match src.below(4) { 0 => Edit::Join(a, src.below(n as u64) as u32), 1 => Edit::Out(a, src.below(5)), 2 => { let c = src.below(k); Edit::Trans(a, c, c, src.below(n as u64) as u32) } _ => Edit::Create(n + 300) }); }
    edits.push(Edit::Out(n, src.below(5)));
    let mut words = vec![w.clone()];
    words.push({ let mut x = w.clone(); x.push(0); x });
    for _ in 0..3 { let cut = src.below(n as u64) as usize; let mut x = w[..cut].to_vec(); x.push(src.below(k)); x.extend(&w[cut / 2..]); words.push(x); }
    Case { ty: Ty::U8, edits, words }
}
/// Every machine with 3 states and up to 4 (5) edits over one or two symbols, or rather every edit history of that size
fn gen_exh(src: &mut Src) -> Case {
    let n = src.below(if src.thorough { 6 } else { 5 });
    let edits = (0..n).map(|_| match src.below(3) {
        0 => { let a = src.below(3); let s = src.below(2); Edit::Trans(a as u32, s, s, src.below(3) as u32) }
        1 => { let (a, b) = [(0, 1), (0, 2), (1, 2), (2, 1), (1, 0), (2, 0)][src.below(6) as usize]; Edit::Join(a, b) }
        _ => { let a = src.below(3); Edit::Out(a as u32, src.below(3)) }
    }).collect();
    Case { ty: Ty::U8, edits, words: vec![vec![], vec![0], vec![1, 0, 0], vec![0, 1, 1, 0]] }
}
fn test_exh(c: &Case, obs: &mut Obs) -> Res { check::<u8, u32>(c, obs, 24) }
fn check_huge<T: Sym, O: Out>(c: &HugeMachine, obs: &mut Obs) -> Res {
    let edits = c.edits();
    let nfa = reference(&edits);
    let words = c.words();
    let want = answers(&nfa, &words);
    let n: Ndfa<SymbolRange<T>, O> = ndfa(&edits);
    compare_huge("compiled", &DfaCompiler::build(n.clone(), SymbolRangeDfaBuilder::new()), &words, &want, obs)?;
    let boxed: Box<dyn StateMachine<SymbolRange<T>, O>> = Box::new(n);
    compare_huge("prepared from a boxed machine", &boxed.prepare_to_match(), &words, &want, obs)?;
    let o: Own<SymbolRange<T>, O> = own(&nfa, &|a, b| SymbolRange::new(T::of(a), T::of(b)));
    compare_huge("compiled from a machine of our own", &DfaCompiler::build(o, SymbolRangeDfaBuilder::new()), &words, &want, obs)?;
    huge_stats(&words, &want, &nfa, obs);
    obs.label_if(c.joins > 255, "a chain of more than 255 joins");
    Ok(())
}
fn test_huge(c: &HugeMachine, obs: &mut Obs) -> Res { match c.ty { Ty::Char => check_huge::<char, String>(c, obs), Ty::I32 => check_huge::<i32, RevOut>(c, obs), Ty::U32 => check_huge::<u32, i64>(c, obs), _ => check_huge::<u8, u32>(c, obs) } }
fn gen_huge_m(src: &mut Src) -> HugeMachine { gen_huge_machine(src, false) }
fn main() {
    main_with(Property {
        id: "C11",
        rule: "the machine accepts some word of the case and rejects or only partly matches another, and is nondeterministic or has several outputs competing for a match",
        assumptions: &["machines whose reference automaton has more than 800 subset states are skipped", "a machine implemented outside the library reports at most one output per state"],
        subs: vec![
            sub("tiny-machines-exhaustive", Mode::Exhaustive(1_300_000, 45_000_000), gen_exh, test_exh),
            sub("random", Mode::Random(48_000, 576_000), gen, test),
            sub("wide", Mode::Random(15_000, 180_000), gen_wide, test),
            sub("crowds", Mode::Random(4_000, 48_000), gen_crowds, test),
            sub("many-states", Mode::Random(600, 7_200), gen_big, test),
            sub("huge", Mode::Random(24, 480), gen_huge_m, test_huge),
            harness::deep_sub!("C11"),
        ],
    });
}
