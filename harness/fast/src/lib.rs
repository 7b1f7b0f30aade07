//! Streams of more than 2^32 symbols (optimised, and without overflow checks): counters and positions of 32 bits end before them.
#![allow(warnings)]
extern crate concordance;
use concordance::*;
use std::cell::Cell;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// `Ok(false)`: given up for lack of time
type R = Result<bool, String>;
/// This machine may be slow or busy: after that time nothing is decided
const PATIENCE: Duration = Duration::from_secs(200);

/// `n` symbols: `gap - 1` times 7, then 8, and so on
struct Long { left: u64, phase: u32, gap: u32, until: Instant, late: Rc<Cell<bool>> }
impl Long { fn new(n: u64, gap: u32) -> (Long, Rc<Cell<bool>>) { let late = Rc::new(Cell::new(false)); (Long { left: n, phase: 0, gap, until: Instant::now() + PATIENCE, late: late.clone() }, late) } }
impl SymbolReader<u8> for Long {
    #[inline]
    fn next_symbol(&mut self) -> Option<u8> {
        if self.left == 0 { return None; }
        self.left -= 1;
        self.phase += 1;
        if self.phase < self.gap { return Some(7); }
        self.phase = 0;
        if self.left & 0xf_ffff < self.gap as u64 && Instant::now() > self.until { self.late.set(true); self.left = 0; }
        Some(8)
    }
}
/// What symbol number `i` is
fn symbol(i: u64, gap: u32) -> u8 { if i % gap as u64 == gap as u64 - 1 { 8 } else { 7 } }
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R { if got == want { Ok(true) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) } }

pub const SCENARIOS: &[(&str, fn(u64, u64) -> R)] = &[("C01", one_match), ("C05", tokens), ("C06", tape), ("C07", split), ("C23", steps)];
pub fn scenario(prop: &str) -> usize { SCENARIOS.iter().position(|s| s.0 == prop).expect("a scenario") }
pub fn run(i: usize, n: u64, k: u64) -> R { SCENARIOS[i].1(n, k) }

/// One match of them all
fn one_match(n: u64, k: u64) -> R {
    let gap = 200 + k as u32;
    let d = MatchRange(7u8, 8u8).repeat_forever((k % 3) as u32).prepare_to_match();
    let (mut src, late) = Long::new(n, gap);
    let got = match match_pattern(d.start(), &mut src) { Accept(len, _) => Some(len as u64), _ => None };
    if late.get() { return Ok(false); }
    eq("length of the match", got, Some(n))
}
/// Stepping by hand through a table; the last symbol of the longest match is nearly the last
fn steps(n: u64, k: u64) -> R {
    let gap = 200 + k as u32;
    let mut b = SymbolRangeDfaBuilder::new();
    b.start_state(); b.transition(SymbolRange::new(7u8, 7), 0); b.transition(SymbolRange::new(8u8, 8), 1);
    b.start_state(); b.transition(SymbolRange::new(7u8, 7), 0); b.accept(5u32);
    let d = b.build();
    let (mut src, late) = Long::new(n, gap);
    let mut a = d.start();
    while let More(s) = a { a = match src.next_symbol() { Some(x) => s.next(x), None => s.finish() }; }
    if late.get() { return Ok(false); }
    eq("length and output of the match", match a { Accept(len, o) => Some((len as u64, *o)), _ => None }, Some((n - n % gap as u64, 5)))
}
fn tape(n: u64, k: u64) -> R {
    let gap = 200 + k as u32;
    let (src, late) = Long::new(n, gap);
    let mut t = Tape::new(src);
    let mut at = 0u64;
    let (mut since, mut back) = (0u32, 0u64);
    let every = 300 + 50 * k as u32;
    while let Some(x) = t.next_symbol() {
        at += 1;
        since += 1;
        if since == every {
            since = 0;
            eq("position", t.get_source_position() as u64, at)?;
            if at & 0xff < 0x20 { t.rewind(9); at -= 9; for _ in 0..9 { eq("a symbol read again", t.next_symbol(), Some(symbol(at, gap)))?; at += 1; } }
            t.cut();
            eq("retained after the cut", t.buffer_size(), 0)?;
        }
    }
    if late.get() { return Ok(false); }
    eq("position at the end", (t.get_source_position() as u64, t.at_end_of_reader()), (n, true))?;
    let most = since as u64;
    eq("retained", t.buffer_size() as u64, most)?;
    t.rewind(most as usize);
    for i in n - most..n { eq("a symbol read again", t.next_symbol(), Some(symbol(i, gap)))?; }
    eq("position at the end", t.get_source_position() as u64, n)
}
/// Tokens of `gap` symbols each; what is left over at the end is none
fn tokens(n: u64, k: u64) -> R {
    let gap = 200 + k as u32;
    let d = exactly(&[7u8][..]).repeat_forever(1).append(&vec![8u8]).prepare_to_match();
    let (src, late) = Long::new(n, gap);
    let mut t = Tokenizer::new_prepared(src, &d);
    let mut at = 0u64;
    for (r, _) in &mut t {
        if (r.start as u64, r.end as u64) != (at, at + gap as u64) { return if late.get() { Ok(false) } else { Err(format!("token at {:?}, expected {:?}", r, at..at + gap as u64)) }; }
        at += gap as u64;
    }
    if late.get() { return Ok(false); }
    eq("end of the last token", at, n - n % gap as u64)?;
    eq("position at the end", (t.get_source_position() as u64, t.at_end_of_reader()), (n, true))
}
fn split(n: u64, k: u64) -> R {
    let gap = 200 + k as u32;
    let (mut src, late) = Long::new(n + 1, gap);
    let lead = 300 + 50 * k;
    {
        let (mut a, mut b) = src.split();
        let mut at = 0u64;
        while at < n {
            let m = lead.min(n - at);
            let (mut sum, mut sum2) = (0u64, 0u64);
            for _ in 0..m { sum += a.next_symbol().map(|x| x as u64).unwrap_or(0); }
            for _ in 0..m { sum2 += b.next_symbol().map(|x| x as u64).unwrap_or(0); }
            if late.get() { return Ok(false); }
            let eights = (at + m) / gap as u64 - at / gap as u64;
            if (sum, sum2) != (7 * m + eights, 7 * m + eights) { return Err(format!("sums of the symbols {}..{} in both halves: got {:?}, expected {}", at, at + m, (sum, sum2), 7 * m + eights)); }
            at += m;
        }
    }
    eq("the next symbol of the original", src.next_symbol(), Some(symbol(n, gap)))
}
