//! Checks shared by several properties.
use crate::lib_api::*;
use crate::pat::*;
use crate::refnfa::*;
use crate::runner::*;
use crate::sym::*;
use concordance::*;

#[derive(Default)]
pub struct SetStats { pub hit: u64, pub miss: u64, pub strict: u64, pub ties: u64, pub empty: u64, pub words: u64 }

/// What a set of patterns answers for a word, by both reference semantics
pub fn expect_set(pats: &[(Pat, u64)], nfa: &RefNfa, w: &[u64]) -> Result<Answer, String> {
    let want = longest_of(pats, w);
    let by_nfa = nfa.run(w).best;
    if want != by_nfa { return harness_bug(format!("the two reference semantics differ on {:?} for {:?}: {:?} / {:?}", w, pats, want, by_nfa)); }
    Ok(want)
}

/// Compares a prepared matcher with the reference on the given words and on cover words
pub fn compare<T: Sym, O: Out>(what: &str, dfa: &SymbolRangeDfa<T, O>, pats: &[(Pat, u64)], nfa: &RefNfa, r: &mut RefDfa, words: &[Vec<u64>], cover: usize, obs: &mut Obs) -> Result<SetStats, String> {
    let mut st = SetStats::default();
    let mut all = vec![];
    if cover > 0 {
        let (w, complete) = cover_words(dfa, r, 1200, cover);
        obs.label_if(complete, "whole product automaton explored");
        all.extend(w);
    }
    all.extend(words.iter().cloned());
    for w in &all {
        let want = expect_set(pats, nfa, w)?;
        let got = run(dfa, w)?;
        if got != want { return Err(format!("{}: word {}: got {:?}, expected {:?} (length, output rank)", what, show(w), got, want)); }
        match want { Some((n, _)) => { st.hit += 1; if n < w.len() { st.strict += 1 } if n == 0 { st.empty += 1 } } None => st.miss += 1 }
        if let Some((n, _)) = want { if pats.len() > 1 && pats.iter().filter(|p| p.0.longest(w) == Some(n)).count() > 1 { st.ties += 1 } }
    }
    st.words = all.len() as u64;
    obs.ran(all.len() as u64);
    Ok(st)
}

/// Compares a matcher with a reference automaton only (no pattern behind it)
pub fn compare_nfa<T: Sym, O: Out>(what: &str, dfa: &SymbolRangeDfa<T, O>, nfa: &RefNfa, r: &mut RefDfa, words: &[Vec<u64>], cover: usize, obs: &mut Obs) -> Result<SetStats, String> {
    let mut st = SetStats::default();
    let mut all = vec![];
    if cover > 0 { let (w, complete) = cover_words(dfa, r, 1500, cover); obs.label_if(complete, "whole product automaton explored"); all.extend(w); }
    all.extend(words.iter().cloned());
    for w in &all {
        let want = nfa.run(w).best;
        let got = run(dfa, w)?;
        if got != want { return Err(format!("{}: word {}: got {:?}, expected {:?} (length, output rank)", what, show(w), got, want)); }
        match want { Some((n, _)) => { st.hit += 1; if n < w.len() { st.strict += 1 } if n == 0 { st.empty += 1 } } None => st.miss += 1 }
    }
    st.words = all.len() as u64;
    obs.ran(all.len() as u64);
    Ok(st)
}
