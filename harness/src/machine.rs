//! State machines described by edit histories, in three forms: the library's `Ndfa`, a machine implemented here, and the
//! reference automaton.
use crate::refnfa::RefNfa;
use crate::src::Src;
use crate::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Edit { Trans(u32, u64, u64, u32), Create(u32), Out(u32, u64), Join(u32, u32) }

pub fn apply<T: Sym, O: Out>(m: &mut dyn MutableStateMachine<SymbolRange<T>, O>, e: &Edit) {
    match e {
        Edit::Trans(s, a, b, t) => m.add_transition(*s, SymbolRange::new(T::of(*a), T::of(*b)), *t),
        Edit::Create(s) => m.create_state(*s),
        Edit::Out(s, o) => m.set_output_symbol(*s, O::oof(*o)),
        Edit::Join(a, b) => m.join_states(*a, *b),
    }
}
pub fn ndfa<T: Sym, O: Out>(edits: &[Edit]) -> Ndfa<SymbolRange<T>, O> {
    let mut n = Ndfa::new();
    for e in edits { apply(&mut n, e); }
    n
}
pub fn n_states(edits: &[Edit]) -> u32 {
    edits.iter().map(|e| match e { Edit::Trans(s, _, _, t) => *s.max(t), Edit::Create(s) | Edit::Out(s, _) => *s, Edit::Join(a, b) => *a.max(b) }).max().unwrap_or(0) + 1
}
/// The reference automaton: joins are empty moves; setting an output replaces an earlier one
pub fn reference(edits: &[Edit]) -> RefNfa {
    let mut r = RefNfa::new();
    for _ in 0..n_states(edits) { r.state(); }
    for e in edits {
        match e {
            Edit::Trans(s, a, b, t) => r.trans[*s as usize].push((*a, *b, *t as usize)),
            Edit::Create(_) => {}
            Edit::Out(s, o) => r.out[*s as usize] = vec![*o],
            Edit::Join(a, b) => r.eps[*a as usize].push(*b as usize),
        }
    }
    r
}

/// A user's own implementation of `StateMachine`: at most one output per state and no joins
pub struct Own<I, O> { pub trans: Vec<Vec<(I, StateId)>>, pub out: Vec<Option<O>> }
impl<I: Clone, O> StateMachine<I, O> for Own<I, O> {
    fn count_states(&self) -> StateId { self.trans.len() as StateId }
    fn get_transitions_for_state(&self, state: StateId) -> Vec<(I, StateId)> { self.trans[state as usize].clone() }
    fn output_symbol_for_state(&self, state: StateId) -> Option<&O> { self.out[state as usize].as_ref() }
}
/// Flattens a reference automaton into a machine of our own (transitions of the closure, lowest output of the closure)
pub fn own<I: Clone, O: Out>(r: &RefNfa, sym: &dyn Fn(u64, u64) -> I) -> Own<I, O> {
    let mut m = Own { trans: vec![], out: vec![] };
    for s in 0..r.states() {
        let c = r.closure(&[s]);
        m.trans.push(c.iter().flat_map(|x| r.trans[*x].iter()).map(|t| (sym(t.0, t.1), t.2 as StateId)).collect());
        m.out.push(c.iter().flat_map(|x| r.out[*x].iter()).min().map(|o| O::oof(*o)));
    }
    m
}

/// Pairwise disjoint ranges, ascending
pub fn gen_classes(src: &mut Src, ty: Ty, max: usize) -> Vec<(u64, u64)> {
    let m = max_rank(ty);
    let n = src.usize(1, max);
    let mut pts: BTreeSet<u64> = BTreeSet::new();
    let window = src.chance(2, 3);
    let base = gen_rank(src, ty);
    for _ in 0..2 * n { pts.insert(if window { base.saturating_add(src.below(4 * n as u64)).min(m) } else { gen_rank(src, ty) }); }
    let pts: Vec<u64> = pts.into_iter().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < pts.len() {
        if src.chance(1, 2) && i + 1 < pts.len() { v.push((pts[i], pts[i + 1])); i += 2; } else { v.push((pts[i], pts[i])); i += 1; }
    }
    v
}
/// Ranges that may overlap in any way
pub fn gen_ranges(src: &mut Src, ty: Ty, max: usize) -> Vec<(u64, u64)> {
    let alpha = gen_alphabet(src, ty, 8);
    src.list(1, max, 5, |s| { let a = *s.pick(&alpha); let b = *s.pick(&alpha); (a.min(b), a.max(b)) })
}

/// An edit history over the given symbol classes
pub fn gen_edits(src: &mut Src, classes: &[(u64, u64)], states: u64, max: usize, outs: u64) -> Vec<Edit> {
    src.list(0, max, 3 * states, |s| match s.weighted(&[12, 3, 5, 1]) {
        0 => { let a = s.below(states) as u32; let c = *s.pick(classes); Edit::Trans(a, c.0, c.1, s.below(states) as u32) }
        1 => { let a = s.below(states) as u32; Edit::Out(a, s.below(outs)) }
        2 => { let a = s.below(states) as u32; Edit::Join(a, s.below(states) as u32) }
        _ => Edit::Create(s.below(states) as u32),
    })
}

pub fn words_over(src: &mut Src, classes: &[(u64, u64)], max: u64, n: usize, len: usize) -> Vec<Vec<u64>> {
    src.list(0, n, 3, |s| s.list(0, len, 5, |s| { let c = *s.pick(classes); match s.below(8) { 0 | 1 | 2 => c.0, 3 | 4 | 5 => c.1, 6 => c.0.saturating_sub(1), _ => c.1.saturating_add(1).min(max) } }))
}

/// A machine in which many states are held at once: each symbol leads from the start to a crowd of states, crowds that differ
/// by a few members only, by transitions or by joins, whose members have outputs of their own and sometimes lead further
pub fn gen_crowd(src: &mut Src, classes: &[(u64, u64)]) -> Vec<Edit> {
    let n = match src.weighted(&[3, 3, 2]) { 0 => src.range(3, 20), 1 => src.range(17, 90), _ => src.range(60, if src.thorough { 600 } else { 280 }) };
    let dense = 1 + src.below(4);
    let base: Vec<bool> = (0..n).map(|_| dense == 4 || src.chance(dense, 4)).collect();
    let mut edits = vec![];
    let first = 2u32;
    let by_join = src.below(4);
    let mut order: Vec<u64> = (0..n).collect();
    match src.below(3) { 0 => {} 1 => order.reverse(), _ => for i in (1..order.len()).rev() { let j = src.below(i as u64 + 1) as usize; order.swap(i, j); } }
    for (k, c) in classes.iter().enumerate() {
        let mut set = base.clone();
        if k > 0 || src.chance(1, 2) { for _ in 0..src.below(4) { let i = src.below(n) as usize; set[i] = !set[i]; } }
        let hub = first + n as u32 + 20 + k as u32;
        if by_join > 0 { edits.push(Edit::Trans(0, c.0, c.1, hub)); }
        for i in &order {
            if !set[*i as usize] { continue; }
            let s = first + *i as u32;
            edits.push(if by_join == 0 || (by_join == 3 && src.chance(1, 8)) { Edit::Trans(0, c.0, c.1, s) } else { Edit::Join(hub, s) });
        }
    }
    // Outputs: a few, or one for everybody; numbered upwards, downwards or anyhow
    let few = src.chance(1, 2);
    let kind = src.below(3);
    for i in 0..n { if !few || src.chance(1, 12) { edits.push(Edit::Out(first + i as u32, match kind { 0 => i, 1 => n - i, _ => src.below(2 * n) })); } }
    for _ in 0..src.below(8) {
        let a = first + src.below(n) as u32;
        let c = *src.pick(classes);
        let t = match src.below(3) { 0 => 1, 1 => first + src.below(n) as u32, _ => first + n as u32 + src.below(20) as u32 };
        edits.push(Edit::Trans(a, c.0, c.1, t));
        if src.chance(1, 2) { edits.push(Edit::Out(t, src.below(2 * n))); }
    }
    if src.chance(1, 4) { edits.push(Edit::Join(0, first + src.below(n) as u32)); }
    edits
}
