//! Explicit deterministic automata read off the library's inspectable matchers or recorded from its compiler.
use crate::lib_api::Answer;
use crate::refnfa::RefDfa;
use crate::sym::*;
use concordance::*;
use std::collections::{BTreeSet, HashSet, VecDeque};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Listing { pub trans: Vec<Vec<(u64, u64, u32)>>, pub out: Vec<Option<u64>> }

pub fn listing<T: Sym, O: Out>(m: &dyn StateMachine<SymbolRange<T>, O>) -> Listing {
    let mut l = Listing::default();
    for s in 0..m.count_states() {
        l.trans.push(m.get_transitions_for_state(s).into_iter().map(|(r, t)| (r.lowest.rank(), r.highest.rank(), t)).collect());
        l.out.push(m.output_symbol_for_state(s).map(|o| o.orank()));
    }
    l
}

impl Listing {
    /// Ascending, disjoint, targets that exist, at least one state
    pub fn well_formed(&self) -> Result<(), String> {
        let n = self.trans.len();
        if n == 0 { return Err("there are no states".into()); }
        for (s, ts) in self.trans.iter().enumerate() {
            for t in ts {
                if t.0 > t.1 { return Err(format!("state {} has the empty range {:?}", s, t)); }
                if t.2 as usize >= n { return Err(format!("state {} has a transition to state {} of {}", s, t.2, n)); }
            }
            for w in ts.windows(2) { if w[0].1 >= w[1].0 { return Err(format!("state {}: transitions on {:?} and {:?} are not ascending and disjoint", s, (w[0].0, w[0].1), (w[1].0, w[1].1))); } }
        }
        Ok(())
    }
    pub fn step(&self, s: usize, sym: u64) -> Option<usize> { self.trans[s].iter().find(|t| t.0 <= sym && sym <= t.1).map(|t| t.2 as usize) }
    pub fn run(&self, w: &[u64]) -> Answer {
        let mut s = 0;
        let mut best = self.out[0].map(|o| (0, o));
        for (i, sym) in w.iter().enumerate() {
            match self.step(s, *sym) { None => return best, Some(t) => { s = t; if let Some(o) = self.out[s] { best = Some((i + 1, o)); } } }
        }
        best
    }
    /// Walks this automaton and the reference together; a difference is reported with a word that shows it
    pub fn equivalent(&self, r: &mut RefDfa, max: u64, cap: usize) -> Result<bool, String> {
        let mut seen: HashSet<(Option<usize>, usize)> = HashSet::new();
        let mut q: VecDeque<(Option<usize>, usize, Vec<u64>)> = VecDeque::new();
        seen.insert((Some(0), 0));
        q.push_back((Some(0), 0, vec![]));
        while let Some((l, s, w)) = q.pop_front() {
            let o = l.and_then(|x| self.out[x]);
            if o != r.outs[s] { return Err(format!("after {:?} the output is {:?}, expected {:?}", w, o, r.outs[s])); }
            let mut reps: BTreeSet<u64> = r.atoms.iter().flat_map(|a| [a.0, a.1]).collect();
            if let Some(x) = l { for t in &self.trans[x] { reps.extend([t.0, t.1, t.0.saturating_sub(1), t.1.saturating_add(1).min(max)]); } }
            for sym in reps {
                let t = l.and_then(|x| self.step(x, sym));
                let s2 = r.step(s, sym);
                if t.is_none() && r.is_dead(s2) { continue; }
                if seen.insert((t, s2)) {
                    if seen.len() > cap { return Ok(false); }
                    let mut w2 = w.clone(); w2.push(sym);
                    q.push_back((t, s2, w2));
                }
            }
        }
        Ok(true)
    }
}
