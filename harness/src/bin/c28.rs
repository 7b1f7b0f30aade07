//! C28 Streams are worked through in bounded memory
use harness::pat::*;
use harness::refnfa::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::tok::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;

thread_local! { static LIVE: Cell<i64> = Cell::new(0); static MOST: Cell<i64> = Cell::new(0); }
/// A symbol (or an output) that is counted for as long as it exists
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Counted(u32);
fn counted(x: u32) -> Counted { LIVE.with(|l| l.set(l.get() + 1)); Counted(x) }
impl Clone for Counted { fn clone(&self) -> Counted { counted(self.0) } }
impl Drop for Counted { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl Countable for Counted { fn next(&self) -> Counted { counted(self.0 + 1) } fn prev(&self) -> Counted { counted(self.0 - 1) } }
fn live() -> i64 { LIVE.with(|l| l.get()) }
fn look() { let n = live(); MOST.with(|m| if n > m.get() { m.set(n) }) }

/// A source that makes its symbols as they are asked for, and looks at how many there are then
struct Source<'a> { input: &'a [u64], pos: usize }
impl<'a> SymbolReader<Counted> for Source<'a> {
    fn next_symbol(&mut self) -> Option<Counted> {
        look();
        let x = *self.input.get(self.pos)?;
        self.pos += 1;
        Some(counted(x as u32))
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Work {
    /// Tokens: by iterating, by hand, or as a stream of outputs; over this many adaptors
    Tokens { how: u8, adaptors: Vec<u8> },
    /// A second tokenizer over the outputs of the first
    Tower { second: Vec<(Pat, u64)>, by_hand: bool },
    /// Again and again: read, go back (never beyond the cut), cut if wanted
    Tape { rounds: Vec<(u64, u64, bool)> },
    /// Again and again: how far each half reads. Then, at some point of the input, one half may be dropped
    Split { rounds: Vec<(u64, u64)>, drop_at: Option<(bool, u64)>, nested: bool },
    /// One match, or step by step with copies kept now and then
    Match { steps: bool },
    Adaptors { adaptors: Vec<u8> },
}
/// The input is made of `blocks` in an order that depends on `order`, `n` symbols or a few more
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { pats: Vec<(Pat, u64)>, blocks: Vec<Vec<u64>>, order: u64, n: u64, work: Work }
impl Case {
    fn input(&self) -> Vec<u64> {
        let mut v = vec![];
        let mut x = self.order | 1;
        while (v.len() as u64) < self.n {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = &self.blocks[(x >> 33) as usize % self.blocks.len()];
            if b.is_empty() { v.push(0); } else { v.extend(b); }
        }
        v
    }
}
const SLACK: i64 = 1024;
/// What may be held on to while `need` symbols have to be
fn allowed(need: usize) -> i64 { 8 * need as i64 + SLACK }

fn adapt<'a>(mut r: Box<dyn SymbolReader<Counted> + 'a>, adaptors: &[u8]) -> Box<dyn SymbolReader<Counted> + 'a> {
    for k in adaptors {
        r = match k % 4 {
            0 => Box::new(r),
            1 => Box::new(r.map_symbols(|x: Counted| x)),
            2 => Box::new(r.map_symbols(|x: Counted| x.0).map_symbols(|x: u32| counted(x))),
            _ => { let mut r = r; Box::new(std::iter::from_fn(move || r.next_symbol()).filter_map(|x: Counted| if x.0 == u32::MAX { None } else { Some(x) })) }
        };
    }
    r
}
fn machine(pats: &[(Pat, u64)]) -> SymbolRangeDfa<Counted, Counted> {
    fn lib(p: &Pat) -> Pattern<Counted> {
        // (By way of plain symbols, whose patterns are the same)
        fn c(p: Pattern<u32>) -> Pattern<Counted> { match p {
            Epsilon => Epsilon, Match(v) => Match(v.into_iter().map(counted).collect()), MatchRange(a, b) => MatchRange(counted(a), counted(b)),
            RepeatInfinite(n, p) => RepeatInfinite(n, Box::new(c(*p))), Repeat(r, p) => Repeat(r, Box::new(c(*p))),
            MatchAll(v) => MatchAll(v.into_iter().map(c).collect()), MatchAny(v) => MatchAny(v.into_iter().map(c).collect()) } }
        c(p.to_lib::<u32>())
    }
    let mut m = TokenMatcher::new();
    for (p, o) in pats { m.add_pattern(lib(p), counted(*o as u32)); }
    (&m).prepare_to_match()
}
/// Most symbols between the end of the last token and the furthest symbol looked at, and the outputs of the tokens; None if it would take too long
fn need(pats: &[(Pat, u64)], w: &[u64], stop: bool) -> Option<(usize, Vec<u64>)> {
    let (nfa, relaxed) = (build_set(pats, false), build_set(pats, true));
    let (mut r, mut x) = (RefDfa::new(&nfa, u32::MAX as u64), RefDfa::new(&relaxed, u32::MAX as u64));
    if !r.build(300) || !x.build(300) { return None; }
    let (mut pos, mut last, mut most, mut outs, mut steps) = (0, 0, 0, vec![], 0);
    while pos < w.len() {
        let far = pos + x.run_at(&w[..w.len().min(pos + 30_000)], pos).dead_after.unwrap_or(w.len() - pos);
        steps += far - pos;
        if steps > 3_000_000 { return None; }
        most = most.max(far - last);
        match r.run_at(&w[..far], pos).best {
            Some((n, o)) if n > 0 => { pos += n; last = pos; outs.push(o); }
            _ => { if stop { break; } pos += 1 }
        }
    }
    Some((most, outs))
}
fn settle(what: &str, base: i64, need: usize, n: usize, obs: &mut Obs) -> Res {
    let most = MOST.with(|m| m.get()) - base;
    obs.ran(n as u64);
    let ok = allowed(need);
    obs.nontrivial = n as i64 > 2 * ok;
    if most > ok { return Err(format!("{}: {} symbols were held at once, with at most {} still needed ({} symbols read)", what, most, need, n)); }
    Ok(())
}
fn start() -> i64 { let b = live(); MOST.with(|m| m.set(b)); b }

/// Reads both halves to the end (or until they are dropped); how far they were apart at most
fn halves(a: Box<dyn SymbolReader<Counted> + '_>, b: Box<dyn SymbolReader<Counted> + '_>, rounds: &[(u64, u64)], drop_at: Option<(bool, u64)>, w: &[u64]) -> Result<usize, String> {
    let mut h = [Some(a), Some(b)];
    let (mut pos, mut gap) = ([0usize; 2], 0);
    let mut read = |h: &mut [Option<Box<dyn SymbolReader<Counted> + '_>>; 2], pos: &mut [usize; 2], k: usize, n: usize| -> Result<(), String> {
        if let Some(r) = h[k].as_mut() { for _ in 0..n { if let Some(s) = r.next_symbol() { if w.get(pos[k]) != Some(&(s.0 as u64)) { return Err(format!("half {}: symbol {} is {}, expected {:?}", k, pos[k], s.0, w.get(pos[k]))); } pos[k] += 1; } } }
        if h[0].is_some() && h[1].is_some() { gap = gap.max(pos[0].abs_diff(pos[1])); }
        look();
        Ok(())
    };
    for i in 0.. {
        if (0..2).all(|k| h[k].is_none() || pos[k] >= w.len()) { break; }
        let r = rounds[i % rounds.len()];
        read(&mut h, &mut pos, 0, r.0.max(1) as usize)?;
        read(&mut h, &mut pos, 1, r.1.max(1) as usize)?;
        // Every third round the one that is behind catches up
        if i % 3 == 2 && h[0].is_some() && h[1].is_some() { let k = (pos[0] > pos[1]) as usize; let n = pos[0].abs_diff(pos[1]); read(&mut h, &mut pos, k, n)?; }
        if let Some((first, at)) = drop_at { if pos[0].max(pos[1]) as u64 >= at && h[0].is_some() && h[1].is_some() { h[1 - first as usize] = None; } }
    }
    drop(read);
    Ok(gap)
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    if c.blocks.is_empty() { return harness_bug("no blocks".into()); }
    let w = c.input();
    LIVE.with(|l| l.set(0));
    match &c.work {
        Work::Tokens { how, adaptors } => {
            let stop = how % 4 == 2;
            let (need, outs) = match need(&c.pats, &w, stop) { Some(x) => x, None => { obs.label("skipped: too much look-ahead"); return Ok(()); } };
            let m = machine(&c.pats);
            let base = start();
            let mut t = Tokenizer::new_prepared(adapt(Box::new(Source { input: &w, pos: 0 }), adaptors), &m);
            let mut got = 0;
            match how % 4 {
                0 => { while let Some((_, o)) = t.next() { if outs.get(got) != Some(&(o.0 as u64)) { return Err(format!("token {} is {}, expected {:?}", got, o.0, outs.get(got))); } got += 1; look(); } }
                1 => loop { look(); match t.next_token() { Some(_) => got += 1, None => if t.at_end_of_reader() { break } else { t.skip_input(); } } },
                2 => { while let Some(o) = SymbolReader::next_symbol(&mut t) { if outs.get(got) != Some(&(o.0 as u64)) { return Err(format!("output {} is {}, expected {:?}", got, o.0, outs.get(got))); } got += 1; look(); } }
                _ => { got = t.by_ref().map(|t| t.0).filter(|r| r.start < r.end).count() }
            }
            if got != outs.len() { return Err(format!("{} tokens, expected {}", got, outs.len())); }
            look();
            settle("tokenizer", base, need, if stop { outs.len() } else { w.len() }, obs)?;
            drop(t);
            if live() != base { return Err(format!("{} symbols are still there after the tokenizer has gone", live() - base)); }
            obs.label_if(outs.len() > w.len() / 8, "many tokens");
            obs.label_if(need > 50, "more than 50 symbols needed at once");
        }
        Work::Tower { second, by_hand } => {
            let (n1, o1) = match need(&c.pats, &w, true) { Some(x) => x, None => { obs.label("skipped: too much look-ahead"); return Ok(()); } };
            let (n2, o2) = match need(second, &o1, false) { Some(x) => x, None => { obs.label("skipped: too much look-ahead"); return Ok(()); } };
            let (m1, m2) = (machine(&c.pats), machine(second));
            let base = start();
            let t1 = Tokenizer::new_prepared(Source { input: &w, pos: 0 }, &m1);
            let mut t2 = Tokenizer::new_prepared(t1, &m2);
            let mut got = 0;
            if *by_hand { loop { match t2.next_token() { Some(_) => got += 1, None => if t2.at_end_of_reader() { break } else { t2.skip_input(); } } } } else { while t2.next().is_some() { got += 1; } }
            if got != o2.len() { return Err(format!("{} tokens, expected {}", got, o2.len())); }
            settle("tokenizer over tokens", base, n1 + n2, o1.len(), obs)?;
        }
        Work::Tape { rounds } => {
            if rounds.is_empty() { return Ok(()); }
            let base = start();
            let mut t = Tape::new(Source { input: &w, pos: 0 });
            let (mut pos, mut far, mut cut, mut most, mut i) = (0usize, 0usize, 0usize, 0usize, 0usize);
            while pos < w.len() {
                let (read, back, doit) = rounds[i % rounds.len()];
                for _ in 0..read { match t.next_symbol() { Some(s) => { if s.0 as u64 != w[pos] { return Err(format!("symbol {} is {}, expected {}", pos, s.0, w[pos])); } pos += 1; far = far.max(pos); } None => break } }
                most = most.max(far - cut);
                if pos >= w.len() { break; }
                let b = (back as usize).min(pos - cut).min(read.saturating_sub(1) as usize);
                t.rewind(b);
                pos -= b;
                if doit { t.cut(); cut = pos; if t.buffer_size() != far - cut { return Err(format!("{} symbols retained after the cut, expected {}", t.buffer_size(), far - cut)); } }
                i += 1;
                if i > 4 * w.len() { break; }
            }
            settle("tape", base, most, w.len(), obs)?;
            drop(t);
            if live() != base { return Err(format!("{} symbols are still there after the tape has gone", live() - base)); }
            obs.label_if(most > 20, "long windows");
        }
        Work::Split { rounds, drop_at, nested } => {
            if rounds.iter().all(|r| r.0 + r.1 == 0) { return Ok(()); }
            let base = start();
            let mut src = Source { input: &w, pos: 0 };
            let gap = {
                let (mut a, b) = src.split();
                // (One half may itself be split; the other part of it is not used, and so must not hold anything up)
                if *nested { let (x, y) = a.split(); drop(y); halves(Box::new(x), Box::new(b), rounds, None, &w)? } else { halves(Box::new(a), Box::new(b), rounds, *drop_at, &w)? }
            };
            settle("split", base, gap, w.len(), obs)?;
            if live() != base { return Err(format!("{} symbols are still there after both halves have gone", live() - base)); }
            obs.label_if(drop_at.is_some() && !nested, "a half is dropped");
            obs.label_if(*nested, "a half of a half");
        }
        Work::Match { steps } => {
            let m = machine(&c.pats);
            let (nfa, relaxed) = (build_set(&c.pats, false), build_set(&c.pats, true));
            let (mut r, mut x) = (RefDfa::new(&nfa, u32::MAX as u64), RefDfa::new(&relaxed, u32::MAX as u64));
            if !r.build(300) || !x.build(300) { obs.label("skipped: reference automaton too large"); return Ok(()); }
            let want = r.run_at(&w, 0).best;
            let base = start();
            let mut src = Source { input: &w, pos: 0 };
            let got = if *steps {
                let mut s = m.start();
                let mut kept = None;
                let mut i = 0;
                loop {
                    s = match s { More(s) => { if i % 700 == 0 { kept = Some(s.clone()); } i += 1; match src.next_symbol() { Some(x) => s.next(x), None => s.finish() } } end => break end };
                }
            } else { match_pattern(m.start(), &mut src) };
            let got = match got { Accept(n, o) => Some((n, o.0 as u64)), Reject => None, More(_) => return Err("not finished".into()) };
            if got != want { return Err(format!("got {:?}, expected {:?}", got, want)); }
            let read = src.pos;
            settle("match", base, 1, read, obs)?;
            if live() != base { return Err(format!("{} symbols are still there after the match", live() - base)); }
        }
        Work::Adaptors { adaptors } => {
            let base = start();
            let mut r = adapt(Box::new(Source { input: &w, pos: 0 }), adaptors);
            for (i, x) in w.iter().enumerate() { match r.next_symbol() { Some(s) if s.0 as u64 == *x => {} s => return Err(format!("symbol {} is {:?}, expected {}", i, s, x)) } look(); }
            if r.next_symbol().is_some() { return Err("more symbols than there are".into()); }
            settle("adaptors", base, adaptors.len(), w.len(), obs)?;
        }
    }
    Ok(())
}

fn pats(src: &mut Src, alpha: &[u64]) -> Vec<(Pat, u64)> {
    let mut v = gen_tokens(src, alpha);
    for t in v.iter_mut() { t.1 %= 5; }
    // Mostly, every symbol starts some token
    if src.chance(5, 6) { for a in alpha { v.push((Pat::Lit(vec![*a]), a % 5)); } }
    v
}
fn gen(src: &mut Src) -> Case {
    let k = src.range(1, 5);
    let alpha: Vec<u64> = (0..k).collect();
    let mut p = pats(src, &alpha);
    let adaptors = |src: &mut Src| src.list(0, 4, 1, |s| s.below(4) as u8);
    let work = match src.weighted(&[5, 2, 4, 4, 2, 1]) {
        0 => Work::Tokens { how: src.below(4) as u8, adaptors: adaptors(src) },
        1 => Work::Tower { second: pats(src, &[0, 1, 2, 3, 4]), by_hand: src.chance(1, 2) },
        2 => { let big = src.chance(1, 3); Work::Tape { rounds: src.list(1, 6, 3, |s| { let r = s.range(1, if big { 120 } else { 12 }); (r, s.below(r + 1), s.chance(2, 3)) }) } }
        3 => { let big = src.chance(1, 3); Work::Split { rounds: src.list(1, 5, 2, |s| (s.below(if big { 60 } else { 5 }), s.below(if big { 60 } else { 5 }))), drop_at: if src.chance(1, 2) { Some((src.chance(1, 2), src.below(9_000))) } else { None }, nested: src.chance(1, 4) } }
        4 => { p = vec![(Pat::Star(src.below(3) as u32, Box::new(Pat::Range(0, k - src.below(2).min(k - 1)))), 1), p.swap_remove(0)]; Work::Match { steps: src.chance(1, 2) } }
        _ => Work::Adaptors { adaptors: adaptors(src) },
    };
    let work = match work {
        // At least one cut, or nothing can be let go
        Work::Tape { mut rounds } => { if rounds.iter().all(|r| !r.2) { rounds[0].2 = true; } Work::Tape { rounds } }
        w => w,
    };
    let blocks: Vec<Vec<u64>> = src.list(1, 6, 3, |s| { let mut b = gen_input(s, &p, &alpha, 10, 6, 60); if b.is_empty() { b.push(0); } b });
    Case { pats: p, blocks, order: src.below(1 << 20), n: src.range(4_000, if src.thorough { 60_000 } else { 16_000 }), work }
}

fn main() {
    main_with(Property {
        id: "C28",
        rule: "the number of symbols read is more than twice the number that may be held",
        assumptions: &["held: 8 times as many as are still needed, and 1024 more (the symbols of the prepared matcher not counted)", "needed by a tokenizer: from the end of the last token (or the start) to the furthest symbol looked at, so symbols skipped since the last token are counted as needed", "token sets whose reference scan takes more than 3 million steps are skipped"],
        subs: vec![sub("random", Mode::Random(18_000, 100_000), gen, test)],
    });
}
