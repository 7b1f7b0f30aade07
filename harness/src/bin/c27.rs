//! C27 Running a match drives any matcher by its protocol
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_out;
use harness::pat::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Ans { Reject, Accept(u64, u64) }
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Via { Plain, Boxed, Mapped, OnTape, Half, Chars }
/// The matcher answers `answer` after `after` symbols (0: before the first one), and `finished` when it is finished before that.
/// The source gives None after each number of symbols in `gaps` (and goes on afterwards).
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { out: OutTy, input: Vec<u64>, gaps: Vec<usize>, after: usize, answer: Ans, finished: Ans, via: Via, rounds: u8 }

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev { Read(Option<u64>), Next(u64), Finish }
type Log = Rc<RefCell<Vec<Ev>>>;

struct Source { input: Vec<u64>, gaps: Vec<usize>, pos: usize, log: Log }
impl SymbolReader<char> for Source {
    fn next_symbol(&mut self) -> Option<char> {
        let r = if let Some(i) = self.gaps.iter().position(|g| *g == self.pos) { self.gaps.remove(i); None } else { self.input.get(self.pos).copied() };
        if r.is_some() { self.pos += 1; }
        self.log.borrow_mut().push(Ev::Read(r));
        r.map(char::of)
    }
}
/// A matcher of our own.  Deliberately neither `Clone` nor `Copy`.
struct Scripted<'a, O> { seen: usize, after: usize, answer: Ans, finished: Ans, outs: &'a [O], log: Log }
fn act<'a, O: 'static, S>(a: Ans, outs: &'a [O]) -> MatchAction<'a, O, S> { match a { Ans::Reject => Reject, Ans::Accept(n, o) => Accept(n as usize, &outs[o as usize]) } }
impl<'a, O: 'static> MatchingState<'a, char, O> for Scripted<'a, O> {
    fn next(mut self, symbol: char) -> MatchAction<'a, O, Self> {
        self.log.borrow_mut().push(Ev::Next(symbol.rank()));
        self.seen += 1;
        if self.seen >= self.after { act(self.answer, self.outs) } else { More(self) }
    }
    fn finish(self) -> MatchAction<'a, O, Self> { self.log.borrow_mut().push(Ev::Finish); act(self.finished, self.outs) }
}

fn check<O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let outs: Vec<O> = (0..8).map(O::oof).collect();
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut source = Source { input: c.input.clone(), gaps: c.gaps.clone(), pos: 0, log: log.clone() };
    // What is left of the source, as a model: items and gaps
    let (mut pos, mut gaps) = (0, c.gaps.clone());
    let mut run = |rd: &mut dyn SymbolReader<char>, round: usize, lazy: bool, obs: &mut Obs| -> Res {
        log.borrow_mut().clear();
        let begin: MatchAction<O, Scripted<O>> = if c.after == 0 { act(c.answer, &outs) } else { More(Scripted { seen: 0, after: c.after, answer: c.answer, finished: c.finished, outs: &outs, log: log.clone() }) };
        let got = match_pattern(begin, rd);
        let mut want = vec![];
        let mut ans = c.answer;
        for i in 0..c.after {
            let x = if let Some(k) = gaps.iter().position(|g| *g == pos) { gaps.remove(k); None } else { c.input.get(pos).copied() };
            if x.is_some() { pos += 1; }
            want.push(Ev::Read(x));
            match x { Some(s) => want.push(Ev::Next(s)), None => { want.push(Ev::Finish); ans = c.finished; obs.label("finished because the source ended"); if i > 0 { obs.nontrivial = true } break } }
            if i > 0 { obs.nontrivial = true; }
        }
        let log = log.borrow();
        let (l, w): (Vec<Ev>, Vec<Ev>) = if lazy { (log.iter().filter(|e| !matches!(e, Ev::Read(_))).cloned().collect(), want.iter().filter(|e| !matches!(e, Ev::Read(_))).cloned().collect()) } else { (log.clone(), want) };
        if l != w { return Err(format!("round {}: what happened is {:?}, expected {:?}", round, l, w)); }
        let g = match got { Accept(n, o) => { if !outs.iter().any(|x| std::ptr::eq(x, o)) { return Err("the output is not the matcher's own".into()); } Ans::Accept(n as u64, o.orank()) } Reject => Ans::Reject, More(_) => return Err("matching ended in `More`".into()) };
        if g != ans { return Err(format!("round {}: answer {:?}, the matcher gave {:?}", round, g, ans)); }
        obs.ran(1);
        Ok(())
    };
    let n = c.rounds as usize;
    match c.via {
        Via::Plain => for i in 0..n { run(&mut source, i, false, obs)? },
        Via::Boxed => { let mut b: Box<dyn SymbolReader<char>> = Box::new(source); for i in 0..n { run(&mut b, i, false, obs)? } }
        Via::Mapped => { let mut m = source.map_symbols(|x: char| x.rank()).map_symbols(|r: u64| char::of(r)); for i in 0..n { run(&mut m, i, false, obs)? } }
        // (a tape takes the first end it sees for the end)
        Via::OnTape => { let mut t = Tape::new(source); run(&mut t, 0, false, obs)? }
        Via::Half => { let (mut a, b) = source.split(); for i in 0..n { run(&mut a, i, false, obs)? } drop(b) }
        Via::Chars => { let s: String = c.input.iter().map(|x| char::of(*x)).collect(); let mut r = (&s[..]).read_symbols(); if c.gaps.is_empty() { for i in 0..n { run(&mut r, i, true, obs)? } } }
    }
    obs.label_if(c.after == 0, "answered before any symbol");
    obs.label_if(matches!(c.answer, Ans::Accept(k, _) if k as usize > c.after), "claims more symbols than it was given");
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_out!(c.out, O => check::<O>(c, obs)) }
fn gen_ans(s: &mut Src) -> Ans { if s.chance(1, 3) { Ans::Reject } else { Ans::Accept(match s.below(4) { 0 => 0, 1 => s.below(1 << 40), 2 => usize::MAX as u64, _ => s.below(9) }, s.below(8)) } }
fn gen_len(src: &mut Src, max: usize) -> Case {
    let input = src.list(0, max, max as u64 / 2, |s| gen_rank(s, Ty::Char));
    let n = input.len() as u64 + 2;
    let gaps = if src.chance(1, 3) { src.list(1, 3, 1, |s| s.below(n) as usize) } else { vec![] };
    let after = match src.below(4) { 0 => src.below(4), _ => src.below(n + 3) } as usize;
    Case { out: gen_out_ty(src), input, gaps, after, answer: gen_ans(src), finished: gen_ans(src), via: *src.pick(&[Via::Plain, Via::Boxed, Via::Mapped, Via::OnTape, Via::Half, Via::Chars]), rounds: src.range(1, 4) as u8 }
}
fn gen(src: &mut Src) -> Case { gen_len(src, 20) }
fn gen_long(src: &mut Src) -> Case { let k = if src.chance(1, 20) { 100_000 } else { 600 }; let mut c = gen_len(src, 12); let mut i = 0; while c.input.len() < k && !c.input.is_empty() { let x = c.input[i * 7 % c.input.len()]; c.input.push(x ^ 1); i += 1; } c.after = src.below(c.input.len() as u64 + 4) as usize; c }
fn gen_exh(src: &mut Src) -> Case {
    let n = src.below(5);
    let input = (0..n).map(|i| 97 + i).collect();
    let gaps = if src.chance(1, 2) { vec![src.below(n + 1) as usize] } else { vec![] };
    let after = src.below(7) as usize;
    let a = [Ans::Reject, Ans::Accept(0, 1), Ans::Accept(2, 2), Ans::Accept(after as u64 + 3, 3)];
    Case { out: OutTy::U32, input, gaps, after, answer: a[src.below(4) as usize], finished: a[src.below(3) as usize], via: *src.pick(&[Via::Plain, Via::Boxed, Via::Mapped, Via::OnTape, Via::Half, Via::Chars]), rounds: src.range(1, 2) as u8 }
}

/// A matcher of our own that does the real thing, by simulation of the reference automaton
struct Sim<'a> { nfa: &'a harness::refnfa::RefNfa, set: Vec<usize>, n: usize, best: Option<(usize, u64)>, outs: &'a [u64] }
impl<'a> Sim<'a> {
    fn done(&self) -> MatchAction<'a, u64, Self> { match self.best { Some((n, o)) => Accept(n, &self.outs[o as usize]), None => Reject } }
    fn here(&mut self) { if let Some(o) = self.set.iter().flat_map(|s| self.nfa.out[*s].iter()).min() { self.best = Some((self.n, *o)); } }
}
impl<'a> MatchingState<'a, u8, u64> for Sim<'a> {
    fn next(mut self, x: u8) -> MatchAction<'a, u64, Self> {
        let k: Vec<usize> = self.set.iter().flat_map(|s| self.nfa.trans[*s].iter()).filter(|t| t.0 <= x as u64 && x as u64 <= t.1).map(|t| t.2).collect();
        self.set = self.nfa.closure(&k);
        self.n += 1;
        if self.set.is_empty() { return self.done(); }
        self.here();
        More(self)
    }
    fn finish(self) -> MatchAction<'a, u64, Self> { self.done() }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Real { pats: Vec<(Pat, u64)>, words: Vec<Vec<u64>> }
fn test_real(c: &Real, obs: &mut Obs) -> Res {
    let nfa = build_set(&c.pats, false);
    let outs: Vec<u64> = (0..8).collect();
    for w in &c.words {
        let items: Vec<u8> = to_syms(w);
        let mut s = Sim { nfa: &nfa, set: nfa.closure(&[0]), n: 0, best: None, outs: &outs };
        s.here();
        let got = match match_pattern(More(s), &mut (&items).read_symbols()) { Accept(n, o) => Some((n, *o)), Reject => None, More(_) => return Err("matching ended in `More`".into()) };
        let want = longest_of(&c.pats, w);
        if got != want { return Err(format!("a matcher of our own on {:?}: {:?}, expected {:?}", w, got, want)); }
        if want.map(|x| x.0 > 0 && x.0 < w.len()).unwrap_or(false) { obs.nontrivial = true; }
        obs.ran(1);
    }
    Ok(())
}
fn gen_real(src: &mut Src) -> Real {
    let alpha: Vec<u64> = vec![97, 98, 99];
    let pats = src.list(1, 3, 1, |s| (gen_pat(s, &alpha, SMALL), s.below(8)));
    let words = src.list(1, 6, 4, |s| gen_word(s, &pats, &alpha, 255, 14));
    Real { pats, words }
}

fn main() {
    main_with(Property {
        id: "C27",
        rule: "the matcher is given at least two symbols, or one and then the end (for a matcher that simulates a token set: it backs up to an earlier accept)",
        assumptions: &["finishing a match never asks for more symbols, as the protocol requires"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(200_000, 200_000), gen_exh, test),
            sub("random", Mode::Random(3_000_000, 9_000_000), gen, test),
            sub("long", Mode::Random(48_000, 144_000), gen_long, test),
            sub("own-matcher", Mode::Random(600_000, 1_800_000), gen_real, test_real),
            harness::deep_sub!("C27"),
        ],
    });
}
