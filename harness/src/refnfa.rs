//! Reference automata on ranks: a nondeterministic automaton with empty moves, its simulation, and a lazily built
//! subset automaton used to choose words that cover its structure.

use crate::sym::{Out, Sym};
use concordance::*;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};

#[derive(Clone, Default, Debug)]
pub struct RefNfa {
    pub trans: Vec<Vec<(u64, u64, usize)>>,
    pub eps: Vec<Vec<usize>>,
    pub out: Vec<Vec<u64>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RunResult {
    /// Longest accepted length and the lowest output for it
    pub best: Option<(usize, u64)>,
    /// Number of symbols after which no state is left (the symbol that killed the run included), if that happened
    pub dead_after: Option<usize>,
}

impl RefNfa {
    pub fn new() -> RefNfa { RefNfa::default() }
    pub fn state(&mut self) -> usize { self.trans.push(vec![]); self.eps.push(vec![]); self.out.push(vec![]); self.trans.len() - 1 }
    pub fn states(&self) -> usize { self.trans.len() }

    pub fn closure(&self, kernel: &[usize]) -> Vec<usize> {
        if self.states() > 4096 {
            let mut seen: HashSet<usize> = HashSet::new();
            let mut stack = kernel.to_vec();
            while let Some(s) = stack.pop() { if seen.insert(s) { stack.extend(self.eps[s].iter().copied()); } }
            let mut res: Vec<usize> = seen.into_iter().collect();
            res.sort();
            return res;
        }
        let mut seen = vec![false; self.states()];
        let mut stack = kernel.to_vec();
        let mut res = vec![];
        while let Some(s) = stack.pop() {
            if seen[s] { continue; }
            seen[s] = true;
            res.push(s);
            stack.extend(self.eps[s].iter().copied());
        }
        res.sort();
        res
    }
    fn step(&self, set: &[usize], sym: u64) -> Vec<usize> {
        let mut k: Vec<usize> = set.iter().flat_map(|s| self.trans[*s].iter()).filter(|t| t.0 <= sym && sym <= t.1).map(|t| t.2).collect();
        k.sort(); k.dedup();
        k
    }
    fn out_of(&self, set: &[usize]) -> Option<u64> { set.iter().flat_map(|s| self.out[*s].iter()).min().copied() }

    /// Longest accepted prefix of the word, by simulation from state 0
    pub fn run(&self, word: &[u64]) -> RunResult {
        let mut set = self.closure(&[0]);
        let mut best = self.out_of(&set).map(|o| (0, o));
        for (i, s) in word.iter().enumerate() {
            set = self.closure(&self.step(&set, *s));
            if set.is_empty() { return RunResult { best, dead_after: Some(i + 1) }; }
            if let Some(o) = self.out_of(&set) { best = Some((i + 1, o)); }
        }
        RunResult { best, dead_after: None }
    }

    /// Elementary ranges: no transition distinguishes two symbols of one of them
    pub fn atoms(&self, max: u64) -> Vec<(u64, u64)> {
        let mut starts: BTreeSet<u64> = BTreeSet::new();
        starts.insert(0);
        for t in self.trans.iter().flatten() {
            starts.insert(t.0);
            if t.1 < max { starts.insert(t.1 + 1); }
        }
        let v: Vec<u64> = starts.into_iter().collect();
        (0..v.len()).map(|i| (v[i], if i + 1 < v.len() { v[i + 1] - 1 } else { max })).collect()
    }
}

/// The subset automaton, built as far as it is needed
pub struct RefDfa<'a> {
    nfa: &'a RefNfa,
    pub atoms: Vec<(u64, u64)>,
    pub sets: Vec<Vec<usize>>,
    pub outs: Vec<Option<u64>>,
    index: HashMap<Vec<usize>, usize>,
    next: HashMap<(usize, usize), usize>,
}

impl<'a> RefDfa<'a> {
    pub fn new(nfa: &'a RefNfa, max: u64) -> RefDfa<'a> {
        let mut r = RefDfa { nfa, atoms: nfa.atoms(max), sets: vec![], outs: vec![], index: HashMap::new(), next: HashMap::new() };
        let s = nfa.closure(&[0]);
        r.add(s);
        r
    }
    fn add(&mut self, set: Vec<usize>) -> usize {
        if let Some(i) = self.index.get(&set) { return *i; }
        self.outs.push(self.nfa.out_of(&set));
        self.sets.push(set.clone());
        self.index.insert(set, self.sets.len() - 1);
        self.sets.len() - 1
    }
    pub fn atom_of(&self, sym: u64) -> usize { self.atoms.partition_point(|a| a.0 <= sym) - 1 }
    pub fn step(&mut self, state: usize, sym: u64) -> usize {
        let a = self.atom_of(sym);
        if let Some(t) = self.next.get(&(state, a)) { return *t; }
        let set = self.nfa.closure(&self.nfa.step(&self.sets[state], sym));
        let t = self.add(set);
        self.next.insert((state, a), t);
        t
    }
    pub fn is_dead(&self, state: usize) -> bool { self.sets[state].is_empty() }

    /// Builds everything reachable; false if there are more than `cap` subsets
    pub fn build(&mut self, cap: usize) -> bool {
        let mut i = 0;
        while i < self.sets.len() {
            if self.sets.len() > cap { return false; }
            for a in 0..self.atoms.len() { let s = self.atoms[a].0; self.step(i, s); }
            i += 1;
        }
        self.sets.len() <= cap
    }
}

/// Explores the library's matcher (through its inspectable form) in parallel with the reference automaton and
/// returns words: first those on which the two differ, then a sample of words covering every pair of states and
/// both ends of every elementary range.  The words are only suggestions; verdicts come from running them.
pub fn cover_words<T: Sym, O: Out>(dfa: &SymbolRangeDfa<T, O>, r: &mut RefDfa, cap_pairs: usize, cap_words: usize) -> (Vec<Vec<u64>>, bool) {
    let max = T::MAX;
    let n_states = dfa.count_states();
    let mut seen: HashMap<(Option<StateId>, usize), usize> = HashMap::new();
    let mut access: Vec<Vec<u64>> = vec![vec![]];
    let mut queue = VecDeque::new();
    let mut suspicious = vec![];
    let mut words: Vec<Vec<u64>> = vec![];
    let mut complete = true;
    seen.insert((Some(0), 0), 0);
    queue.push_back((Some(0), 0, 0usize));
    let differ = |l: Option<StateId>, s: usize, r: &RefDfa| l.filter(|x| *x < n_states).and_then(|x| dfa.output_symbol_for_state(x)).map(|o| o.orank()) != r.outs[s];
    if differ(Some(0), 0, r) { suspicious.push(vec![]); }
    while let Some((l, s, at)) = queue.pop_front() {
        let lib: Vec<(u64, u64, StateId)> = match l { Some(x) if x < n_states => dfa.get_transitions_for_state(x).into_iter().map(|(g, t)| (g.lowest.rank(), g.highest.rank(), t)).collect(), _ => vec![] };
        let mut reps: BTreeSet<u64> = BTreeSet::new();
        for a in &r.atoms { reps.insert(a.0); reps.insert(a.1); }
        for t in &lib { reps.insert(t.0); reps.insert(t.1); if t.0 > 0 { reps.insert(t.0 - 1); } if t.1 < max { reps.insert(t.1 + 1); } }
        for sym in reps {
            let t = lib.iter().find(|t| t.0 <= sym && sym <= t.1).map(|t| t.2);
            let s2 = r.step(s, sym);
            if t.is_none() && r.is_dead(s2) {
                if words.len() < cap_words { let mut w = access[at].clone(); w.push(sym); words.push(w); }
                continue;
            }
            let mut w = access[at].clone();
            w.push(sym);
            if !seen.contains_key(&(t, s2)) {
                if differ(t, s2, r) && suspicious.len() < 20 { suspicious.push(w.clone()); }
                if seen.len() >= cap_pairs { complete = false; } else {
                    seen.insert((t, s2), access.len());
                    queue.push_back((t, s2, access.len()));
                    access.push(w.clone());
                }
            }
            if words.len() < cap_words { words.push(w); }
        }
    }
    // Access words of all pairs too (the deepest matter most)
    for w in access.into_iter().rev().take(cap_words / 4) { words.push(w); }
    suspicious.extend(words);
    (suspicious, complete)
}

impl<'a> RefDfa<'a> {
    /// Longest match of the word from a position on
    pub fn run_at(&mut self, word: &[u64], pos: usize) -> RunResult {
        let mut s = 0;
        let mut best = self.outs[0].map(|o| (0, o));
        for (i, sym) in word[pos..].iter().enumerate() {
            s = self.step(s, *sym);
            if self.is_dead(s) { return RunResult { best, dead_after: Some(i + 1) }; }
            if let Some(o) = self.outs[s] { best = Some((i + 1, o)); }
        }
        RunResult { best, dead_after: None }
    }
    /// Left-to-right maximal munch, skipping one symbol wherever no non-empty match starts
    pub fn scan(&mut self, word: &[u64]) -> Vec<(usize, usize, u64)> {
        let mut pos = 0;
        let mut v = vec![];
        while pos < word.len() {
            match self.run_at(word, pos).best {
                Some((n, o)) if n > 0 => { v.push((pos, pos + n, o)); pos += n; }
                _ => pos += 1,
            }
        }
        v
    }
}
