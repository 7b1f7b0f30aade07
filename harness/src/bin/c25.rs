//! C25 Matching looks ahead no further than it must and never past its answer
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::tok::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Via { Plain, Boxed, Mapped, OnTape, Half, OtherHalf, Twice }
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Op { Token, Skip, Symbol }
/// The input is `head`, then `cycle` again and again (a finite input if `cycle` is empty)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, pats: Vec<(Pat, u64)>, head: Vec<u64>, cycle: Vec<u64>, via: Via, ops: Vec<Op> }

const FAR: usize = 1500;

impl Case {
    fn at(&self, i: usize) -> Option<u64> { if i < self.head.len() { Some(self.head[i]) } else if self.cycle.is_empty() { None } else { Some(self.cycle[(i - self.head.len()) % self.cycle.len()]) } }
}

/// A source that counts what is taken from it and, past `fuse` symbols, behaves like an interactive source that has nothing
/// more to give: reading it any further would block for ever (here: panic)
struct Live<T> { given: Rc<RefCell<Pulls>>, input: Rc<dyn Fn(usize) -> Option<T>>, fuse: usize }
impl<T> SymbolReader<T> for Live<T> {
    fn next_symbol(&mut self) -> Option<T> {
        let mut p = self.given.borrow_mut();
        match (self.input)(p.symbols) {
            None => { p.ends += 1; None }
            Some(x) => {
                if p.symbols >= self.fuse { let n = p.symbols; drop(p); panic!("symbol {} was asked for, but the answer was settled after {} symbols", n + 1, self.fuse); }
                p.symbols += 1;
                Some(x)
            }
        }
    }
}
struct LiveSource<T>(Live<T>);
impl<'a, T: 'a> SymbolSource<'a, T> for LiveSource<T> { type SymbolReader = Live<T>; fn read_symbols(self) -> Live<T> { self.0 } }

fn with_reader<T: Sym, X>(via: Via, mut l: Live<T>, f: impl for<'x> FnOnce(Box<dyn SymbolReader<T> + 'x>) -> X) -> X {
    match via {
        Via::Plain => f(Box::new(l)),
        Via::Boxed => f(Box::new(Box::new(l) as Box<dyn SymbolReader<T>>)),
        Via::Mapped => f(Box::new(l.map_symbols(|x: T| x.rank()).map_symbols(|r| T::of(r)))),
        Via::OnTape => f(Box::new(Tape::new(l))),
        Via::Half => { let (a, b) = l.split(); drop(b); f(Box::new(a)) }
        Via::OtherHalf => { let (_a, b) = l.split(); f(Box::new(b)) }
        Via::Twice => { let (mut a, b) = l.split(); let (_c, d) = a.split(); drop(b); f(Box::new(Tape::new(d))) }
    }
}

/// How far a match at `pos` may look: the number of symbols, or None if it may go on to the end of the (finite) input.
/// Err if it may go on for ever.
fn bound(c: &Case, relaxed: &mut RefDfa, pos: usize) -> Result<Option<usize>, ()> {
    let mut s = 0;
    for i in 0..FAR {
        match c.at(pos + i) {
            None => return Ok(None),
            Some(x) => { s = relaxed.step(s, x); if relaxed.is_dead(s) { return Ok(Some(i + 1)); } }
        }
    }
    Err(())
}

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let relaxed = build_set(&c.pats, true);
    let mut rx = RefDfa::new(&relaxed, T::MAX);
    if !rx.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let dfa: SymbolRangeDfa<T, O> = prepare_set(&c.pats);
    let cc = c.clone();
    let input: Rc<dyn Fn(usize) -> Option<T>> = Rc::new(move |i| cc.at(i).map(T::of));
    let endless = !c.cycle.is_empty();
    let (mut strict, mut bounded, mut tokens) = (0, 0, 0);

    // A single match from the beginning
    if let Ok(b) = bound(c, &mut rx, 0) {
        let n = b.unwrap_or(c.head.len());
        let w: Vec<u64> = (0..n).map(|i| c.at(i).unwrap()).collect();
        // The answer itself is the subject of other properties: here, the one the matcher gives for exactly the look-ahead
        let want = run(&dfa, &w)?;
        if b.is_some() { bounded += 1; strict += want.map(|x| x.0 + 1 < n).unwrap_or(true) as u32; }
        let pulls = Rc::new(RefCell::new(Pulls::default()));
        let got = with_reader(c.via, Live { given: pulls.clone(), input: input.clone(), fuse: n }, |mut src| action_answer(match_pattern(dfa.start(), &mut src)))?;
        let p = pulls.borrow().clone();
        if got != want { return Err(format!("match of {} (then {}): got {:?}, expected {:?}", show(&w), if b.is_some() { "anything" } else { "the end" }, got, want)); }
        if p.symbols > n || (b.is_some() && p.ends > 0) || p.ends > 1 { return Err(format!("match of {}: took {} symbols and read the end {} times; the answer was settled after {}", show(&w), p.symbols, p.ends, n)); }
        // Through the functions that take a source: only the length is reported
        let pulls = Rc::new(RefCell::new(Pulls::default()));
        let got = matches_prepared(LiveSource(Live { given: pulls.clone(), input: input.clone(), fuse: n }), &dfa);
        if got != want.map(|x| x.0) { return Err(format!("matches_prepared on {}: got {:?}, expected {:?}", show(&w), got, want)); }
        let p = pulls.borrow().clone();
        if p.symbols > n || (b.is_some() && p.ends > 0) || p.ends > 1 { return Err(format!("matches_prepared on {}: took {} symbols and read the end {} times; the answer was settled after {}", show(&w), p.symbols, p.ends, n)); }
        if let [(pat, _)] = &c.pats[..] {
            let pulls = Rc::new(RefCell::new(Pulls::default()));
            let got = matches(LiveSource(Live { given: pulls.clone(), input: input.clone(), fuse: n }), pat.to_lib::<T>());
            if got != want.map(|x| x.0) { return Err(format!("matches on {}: got {:?}, expected {:?}", show(&w), got, want)); }
        }
        // What follows cannot change the answer
        if b.is_some() {
            for tail in [vec![], vec![w[n - 1]; 3], c.head.clone(), c.cycle.clone()] {
                let mut v = w.clone(); v.extend(tail);
                let got = run(&dfa, &v)?;
                if got != want { return Err(format!("match of {}: got {:?}, but after {} symbols the answer had to be {:?} whatever follows", show(&v), got, n, want)); }
            }
        }
    } else { obs.label("look-ahead without end: not run"); }

    // Tokens and skipped symbols from one stream; the source never has to give more than the furthest look-ahead so far
    let furthest = Rc::new(RefCell::new(0usize));
    let pulls = Rc::new(RefCell::new(Pulls::default()));
    let live = Live { given: pulls.clone(), input: input.clone(), fuse: usize::MAX };
    with_reader(c.via, live, |src| -> Res {
        let mut t: Tokenizer<T, O, _> = Tokenizer::new_prepared(src, &dfa);
        let (mut pos, mut end_needed) = (0, false);
        for (i, op) in c.ops.iter().enumerate() {
            let before = pos;
            match op {
                Op::Skip => {
                    let got = t.skip_input().map(|s| s.rank());
                    if got != c.at(pos) { return Err(format!("operation {}: skipping at {}: got {:?}, expected {:?}", i, pos, got, c.at(pos))); }
                    if got.is_some() { pos += 1; let f = (*furthest.borrow()).max(pos); *furthest.borrow_mut() = f; } else { end_needed = true; }
                }
                Op::Token | Op::Symbol => {
                    let b = match bound(c, &mut rx, pos) { Ok(b) => b, Err(()) => { obs.label("look-ahead without end: not run"); break; } };
                    let n = b.unwrap_or(c.head.len() - pos.min(c.head.len()));
                    let w: Vec<u64> = (pos..pos + n).map(|i| c.at(i).unwrap()).collect();
                    let want = run(&dfa, &w)?.filter(|x| x.0 > 0);
                    let f = (*furthest.borrow()).max(pos + n); *furthest.borrow_mut() = f;
                    if b.is_none() { end_needed = true; } else { bounded += 1; strict += want.map(|x| x.0 + 1 < n).unwrap_or(true) as u32; }
                    let got = if *op == Op::Token { t.next_token().map(|(g, o)| (g.start, g.end, Some(o.orank()))) } else { SymbolReader::next_symbol(&mut t).map(|o| (pos, t.get_source_position(), Some(o.orank()))) };
                    let exp = want.map(|x| (pos, pos + x.0, Some(x.1)));
                    if got != exp { return Err(format!("operation {}: token at {}: got {:?}, expected {:?}", i, pos, got, exp)); }
                    if let Some(x) = want { pos += x.0; tokens += 1; }
                }
            }
            let p = pulls.borrow().clone();
            let f = *furthest.borrow();
            if p.symbols > f { return Err(format!("operation {} ({:?} at {}): {} symbols have been taken from the source, {} were needed so far", i, op, before, p.symbols, f)); }
            if p.ends > end_needed as usize { return Err(format!("operation {} ({:?} at {}): the end of the source was read {} times{}", i, op, before, p.ends, if end_needed { "" } else { " although nothing had to look that far" })); }
        }
        Ok(())
    })?;
    obs.ran(c.ops.len() as u64 + 3);
    obs.label_if(endless, "endless source");
    obs.label_if(strict > 0, "looked beyond the end of the match");
    obs.label_if(tokens > 20, "more than 20 tokens");
    obs.label_if(pulls.borrow().symbols > 200, "more than 200 symbols taken");
    obs.nontrivial = bounded > 0 && (strict > 0 || tokens >= 2);
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char, String>(c, obs), Ty::I32 => check::<i32, RevOut>(c, obs), Ty::Pair => check::<Pair, u32>(c, obs), _ => check::<u8, u32>(c, obs) }
}

fn gen_of(src: &mut Src, parts: usize, limit: usize, ops: usize) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I32, Ty::Pair]);
    let m = max_rank(ty);
    let alpha = gen_small_alpha(src, ty);
    let mut pats = gen_tokens(src, &alpha);
    if src.chance(1, 4) { pats.truncate(1); }
    let head = gen_input(src, &pats, &alpha, m, parts, limit);
    let cycle = if src.chance(2, 3) { let mut c = gen_input(src, &pats, &alpha, m, 3, 25); if c.is_empty() || src.chance(1, 2) { c.push(*src.pick(&[alpha[0], alpha[alpha.len() - 1].saturating_add(1).min(m), m, 0])); } c } else { vec![] };
    let via = *src.pick(&[Via::Plain, Via::Boxed, Via::Mapped, Via::OnTape, Via::Half, Via::OtherHalf, Via::Twice]);
    let bias = src.below(2);
    // A refused token is normally followed by a skip
    let ops = src.list(0, ops, ops as u64 / 2, |s| if bias == 0 { *s.pick(&[Op::Token, Op::Token, Op::Skip, Op::Symbol]) } else { *s.pick(&[Op::Token, Op::Skip]) });
    Case { ty, pats, head, cycle, via, ops }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 3, 30, 40) }
fn gen_long(src: &mut Src) -> Case { let k = if src.thorough { 5 } else { 1 }; gen_of(src, 30, 300 * k, 500 * k) }
fn gen_exh(src: &mut Src) -> Case {
    let p = enum_pat(src, if src.thorough { 4 } else { 3 }, 2);
    let mut pats = vec![(p, 1)];
    if src.below(2) == 1 { pats.push((Pat::Lit(vec![0, 1]), 0)); }
    let n = src.below(5);
    let head = (0..n).map(|_| src.below(3)).collect();
    let cycle = match src.below(4) { 0 => vec![], 1 => vec![2], 2 => vec![0], _ => vec![1, 0, 2] };
    Case { ty: Ty::U8, pats, head, cycle, via: Via::Plain, ops: vec![Op::Token, Op::Skip, Op::Token, Op::Token] }
}

/// Long look-aheads: the symbols taken are counted
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, u32>(c, obs, &|pats, dfa, _, words, want, obs| {
        let relaxed = build_set(pats, true);
        for (w, e) in words.iter().zip(want) {
            let dead = relaxed.run(w).dead_after;
            let n = dead.unwrap_or(w.len());
            let v: Rc<Vec<T>> = Rc::new(to_syms(w));
            let pulls = Rc::new(RefCell::new(Pulls::default()));
            let input: Rc<dyn Fn(usize) -> Option<T>> = Rc::new(move |i| v.get(i).cloned());
            let live = || Live { given: pulls.clone(), input: input.clone(), fuse: n };
            let got = action_answer(match_pattern(dfa.start(), &mut live()))?;
            let p = pulls.borrow().clone();
            if got != *e { return Err(format!("match of {}: got {:?}, expected {:?}", show(w), got, e)); }
            if p.symbols > n || p.ends > dead.is_none() as usize { return Err(format!("match of {}: took {} symbols and read the end {} times; the answer was settled after {}", show(w), p.symbols, p.ends, n)); }
            *pulls.borrow_mut() = Pulls::default();
            let mut t: Tokenizer<T, u32, _> = Tokenizer::new_prepared(live(), dfa);
            let got = t.next_token().map(|(g, o)| (g.start, g.end, o.orank()));
            let want = e.filter(|x| x.0 > 0).map(|x| (0, x.0, x.1));
            if got != want { return Err(format!("first token of {}: got {:?}, expected {:?}", show(w), got, want)); }
            // What was looked at is kept, and is not asked for again
            let mut at = got.map(|x| x.1).unwrap_or(0);
            while at < n { let s = t.skip_input().map(|s| s.rank()); if s != Some(w[at]) { return Err(format!("skipping at {} of {}: got {:?}, expected {}", at, show(w), s, w[at])); } at += 1; }
            let p = pulls.borrow().clone();
            if p.symbols > n || p.ends > dead.is_none() as usize { return Err(format!("first token of {}: took {} symbols and read the end {} times; the answer was settled after {}", show(w), p.symbols, p.ends, n)); }
            obs.label_if(n > 65_536, "look-ahead over more than 65536 symbols");
        }
        Ok(())
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }

fn main() {
    main_with(Property {
        id: "C25",
        rule: "some match or token read has its answer settled before the end of the input, and it looks beyond the end of its match or at least two tokens are read",
        assumptions: &["the look-ahead allowed is that of an automaton that follows a bounded repetition for one copy more than its bound and parts that can never match", "a match that would have to look ahead more than 1500 symbols on an endless source is not run"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(700_000, 8_000_000), gen_exh, test),
            sub("random", Mode::Random(500_000, 4_000_000), gen, test),
            sub("long", Mode::Random(40_000, 300_000), gen_long, test),
            sub("huge", Mode::Random(80, 1_000), gen_huge, test_huge),
            harness::deep_sub!("C25"),
        ],
    });
}
