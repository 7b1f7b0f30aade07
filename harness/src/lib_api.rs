//! Thin helpers around the library's public matching interface.

use crate::pat::Pat;
use crate::sym::{Out, Sym};
use concordance::*;
use std::cell::RefCell;
use std::rc::Rc;

pub type Answer = Option<(usize, u64)>;

pub fn action_answer<'a, O: Out, S>(a: MatchAction<'a, O, S>) -> Result<Answer, String> {
    match a { MatchAction::Accept(n, o) => Ok(Some((n, o.orank()))), MatchAction::Reject => Ok(None), MatchAction::More(_) => Err("matching ended in `More`".into()) }
}

/// Runs a prepared matcher on a word
pub fn run<T: Sym, O: Out>(dfa: &SymbolRangeDfa<T, O>, word: &[u64]) -> Result<Answer, String> {
    let v: Vec<T> = crate::sym::to_syms(word);
    let mut r = (&v).read_symbols();
    action_answer(match_pattern(dfa.start(), &mut r))
}

pub fn token_matcher<T: Sym, O: Out>(pats: &[(Pat, u64)]) -> TokenMatcher<T, O> {
    let mut m = TokenMatcher::new();
    for (p, o) in pats { m.add_pattern(p.to_lib::<T>(), O::oof(*o)); }
    m
}
pub fn prepare_set<T: Sym, O: Out>(pats: &[(Pat, u64)]) -> SymbolRangeDfa<T, O> {
    let m = token_matcher(pats);
    (&m).prepare_to_match()
}

#[derive(Default, Debug, Clone)]
pub struct Pulls { pub symbols: usize, pub ends: usize }

/// A source that counts what is taken from it
pub struct Counting<T> { items: Vec<T>, pos: usize, pub pulls: Rc<RefCell<Pulls>> }
impl<T: Clone> Counting<T> {
    pub fn new(items: Vec<T>) -> (Counting<T>, Rc<RefCell<Pulls>>) {
        let p = Rc::new(RefCell::new(Pulls::default()));
        (Counting { items, pos: 0, pulls: p.clone() }, p)
    }
}
impl<T: Clone> SymbolReader<T> for Counting<T> {
    fn next_symbol(&mut self) -> Option<T> {
        match self.items.get(self.pos) {
            Some(x) => { self.pos += 1; self.pulls.borrow_mut().symbols += 1; Some(x.clone()) }
            None => { self.pulls.borrow_mut().ends += 1; None }
        }
    }
}

pub fn show(w: &[u64]) -> String {
    if w.len() > 40 { format!("{:?}.. ({} symbols)", &w[..40], w.len()) } else { format!("{:?}", w) }
}
