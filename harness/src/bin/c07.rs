//! C07 Both halves of a split stream read the whole stream independently
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    /// Read this many symbols from a half (0 or 1)
    Read(u8, u32),
    Drop(u8),
    /// Split a half again, run a history on its halves, and carry on with the half
    Nest(u8, Vec<Op>),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { len: u64, before: u64, ops: Vec<Op> }

/// A symbol that counts how many copies of it exist
struct Live { n: u64, count: Rc<Cell<i64>> }
impl Live { fn new(n: u64, count: &Rc<Cell<i64>>) -> Live { count.set(count.get() + 1); Live { n, count: count.clone() } } }
impl Clone for Live { fn clone(&self) -> Live { Live::new(self.n, &self.count) } }
impl Drop for Live { fn drop(&mut self) { self.count.set(self.count.get() - 1) } }

struct Numbers { len: u64, next: Rc<Cell<u64>>, count: Rc<Cell<i64>> }
impl SymbolReader<Live> for Numbers {
    fn next_symbol(&mut self) -> Option<Live> {
        let n = self.next.get();
        if n < self.len { self.next.set(n + 1); Some(Live::new(n, &self.count)) } else { None }
    }
}
type Reader<'a> = Box<dyn SymbolReader<Live> + 'a>;

struct Ctx<'c> { len: u64, next: &'c Cell<u64>, count: &'c Cell<i64>, ops: u64, lag: u64, drops_apart: u64, nested: u64 }

/// Runs a history on the two halves of `r`, which is at position `pos`. `up` has, for each split further up, from the
/// outermost in, the position of the other half and whether it is still there.
/// Returns the position `r` should be at afterwards.
fn exec(r: &mut Reader, pos: u64, ops: &[Op], x: &mut Ctx, up: &[(u64, bool)], depth: usize) -> Result<u64, String> {
    let mut at = [pos, pos];
    {
        let (a, b) = r.split();
        let mut half: [Option<Reader>; 2] = [Some(Box::new(a)), Some(Box::new(b))];
        for (i, op) in ops.iter().enumerate() {
            x.ops += 1;
            let was = at;
            let here = |h: u8| format!("operation {} at depth {} (half {}, halves were at {:?})", i, depth, h, was);
            match op {
                Op::Read(h, n) => {
                    let k = *h as usize & 1;
                    if let Some(r) = half[k].as_mut() {
                        for _ in 0..*n {
                            let got = r.next_symbol().map(|s| s.n);
                            let want = if at[k] < x.len { Some(at[k]) } else { None };
                            if got != want { return Err(format!("{}: read {:?}, expected {:?}", here(*h), got, want)); }
                            if want.is_some() { at[k] += 1 }
                        }
                    }
                }
                Op::Drop(h) => { let k = *h as usize & 1; if half[k].is_some() { if half[1 - k].is_some() && at[k] != at[1 - k] { x.drops_apart += 1 } half[k] = None; } }
                Op::Nest(h, sub) => {
                    let k = *h as usize & 1;
                    if depth < 3 {
                        let mut chain = up.to_vec();
                        chain.push((at[1 - k], half[1 - k].is_some()));
                        let p = at[k];
                        if let Some(r) = half[k].as_mut() { x.nested += 1; at[k] = exec(r, p, sub, x, &chain, depth + 1)?; }
                    }
                }
            }
            // What the live halves of this split and of those further up still have to read
            let mut front = at[0].max(at[1]);
            let live = (0..2).filter(|k| half[*k].is_some()).map(|k| at[k]).min();
            let mut need = live.map(|m| front - m).unwrap_or(0);
            x.lag = x.lag.max(need);
            for (other, there) in up.iter().rev() {
                let f = front.max(*other);
                need += f - if *there { front.min(*other) } else { front };
                front = f;
            }
            if x.next.get() != front { return Err(format!("{}: {} symbols were taken from the original, the half furthest ahead is at {}", here(9), x.next.get(), front)); }
            if x.count.get() as u64 > need { return Err(format!("{}: {} symbols are retained, but the live halves have only {} still to read", here(9), x.count.get(), need)); }
        }
    }
    Ok(at[0].max(at[1]))
}

fn test(c: &Case, obs: &mut Obs) -> Res {
    let next = Rc::new(Cell::new(0));
    let count = Rc::new(Cell::new(0));
    let mut r: Reader = Box::new(Numbers { len: c.len, next: next.clone(), count: count.clone() });
    let before = c.before.min(c.len);
    for _ in 0..before { r.next_symbol(); }
    let mut x = Ctx { len: c.len, next: &next, count: &count, ops: 0, lag: 0, drops_apart: 0, nested: 0 };
    let mut pos = exec(&mut r, before, &c.ops, &mut x, &[], 0)?;
    if count.get() != 0 { return Err(format!("{} symbols are still retained after both halves are gone", count.get())); }
    // The original carries on from there
    loop {
        let got = r.next_symbol().map(|s| s.n);
        let want = if pos < c.len { Some(pos) } else { None };
        if got != want { return Err(format!("after both halves are gone the original gave {:?}, expected {:?}", got, want)); }
        if want.is_none() { break; }
        pos += 1;
    }
    obs.ran(x.ops);
    obs.label_if(x.drops_apart > 0, "a half dropped while the halves are at different positions");
    obs.label_if(x.nested > 0, "split again");
    obs.label_if(x.lag >= 8, "one half at least 8 symbols ahead");
    obs.nontrivial = x.lag > 0 && (x.drops_apart > 0 || x.nested > 0 || x.ops > 3);
    Ok(())
}

fn gen_ops(src: &mut Src, depth: usize, max: usize, burst: u64) -> Vec<Op> {
    src.list(0, max, 7, |s| match s.weighted(&[10, 2, if depth < 3 { 2 } else { 0 }]) {
        0 => { let h = s.below(2) as u8; Op::Read(h, 1 + s.below(burst) as u32) }
        1 => Op::Drop(s.below(2) as u8),
        _ => { let h = s.below(2) as u8; Op::Nest(h, gen_ops(s, depth + 1, 8, burst)) }
    })
}
fn gen(src: &mut Src) -> Case {
    let len = src.below(40);
    let burst = [3, 1, 12][src.below(3) as usize];
    Case { len, before: src.below(4), ops: gen_ops(src, 0, 30, burst) }
}
fn gen_long(src: &mut Src) -> Case {
    let k = if src.thorough { 8 } else { 1 };
    let len = src.below(4000 * k);
    let ops = src.list(0, 200 * k as usize, 60, |s| match s.weighted(&[30, 1]) { 0 => { let h = s.below(2) as u8; Op::Read(h, 1 + s.below(60) as u32) } _ => Op::Nest(s.below(2) as u8, gen_ops(s, 1, 8, 40)) });
    Case { len, before: 0, ops }
}
/// Every short history with single reads, drops and a nested split
fn gen_exh(src: &mut Src) -> Case {
    let len = [0, 1, 2, 5][src.below(4) as usize];
    let n = if src.thorough { 8 } else { 6 };
    fn op(src: &mut Src, nest: bool) -> Option<Op> {
        Some(match src.below(if nest { 8 } else { 6 }) {
            0 => return None,
            1 => Op::Read(0, 1), 2 => Op::Read(1, 1), 3 => Op::Read(0, 2), 4 => Op::Drop(0), 5 => Op::Drop(1),
            6 => Op::Nest(0, vec![Op::Read(1, 1), Op::Drop(1), Op::Read(0, 1)]),
            _ => Op::Nest(1, vec![Op::Read(0, 1), Op::Drop(0), Op::Read(1, 2)]),
        })
    }
    let mut ops = vec![];
    for _ in 0..n { match op(src, true) { Some(o) => ops.push(o), None => break } }
    Case { len, before: 0, ops }
}

/// One half ahead of the other by tens of thousands of symbols
fn gen_huge(src: &mut Src) -> Case {
    let len = src.range(60_000, 160_000);
    let read = |s: &mut Src| { let h = s.below(2) as u8; Op::Read(h, match s.below(3) { 0 => gen_size(s), 1 => gen_size(s) / 2, _ => 1 + s.below(40) as u32 }) };
    let ops = src.list(2, 8, 5, |s| match s.weighted(&[10, 1, 1]) { 0 => read(s), 1 => Op::Drop(s.below(2) as u8), _ => Op::Nest(s.below(2) as u8, s.list(0, 4, 2, |s| if s.chance(1, 8) { Op::Drop(s.below(2) as u8) } else { read(s) })) });
    Case { len, before: src.below(3), ops }
}

/// A source that returns nothing now and then and goes on later (an interactive one, or one whose reading is interrupted):
/// read directly, it gives a symbol, or nothing, per read; so has each half
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Gappy { script: Vec<bool>, before: u64, ops: Vec<Op> }
struct Script { script: Rc<Vec<bool>>, at: Rc<Cell<usize>>, count: Rc<Cell<i64>> }
impl SymbolReader<Live> for Script {
    fn next_symbol(&mut self) -> Option<Live> {
        let i = self.at.get();
        self.at.set(i + 1);
        if *self.script.get(i)? { Some(Live::new(i as u64, &self.count)) } else { None }
    }
}
/// What the read number `i` of the source gives
fn given(s: &[bool], i: usize) -> Option<u64> { if s.get(i).copied().unwrap_or(false) { Some(i as u64) } else { None } }
fn exec_gappy(r: &mut Reader, pos: usize, ops: &[Op], s: &[bool], src_at: &Cell<usize>, depth: usize, runs: &mut u64) -> Result<usize, String> {
    let mut at = [pos, pos];
    {
        let (a, b) = r.split();
        let mut half: [Option<Reader>; 2] = [Some(Box::new(a)), Some(Box::new(b))];
        for (i, op) in ops.iter().enumerate() {
            *runs += 1;
            match op {
                Op::Read(h, n) => {
                    let k = *h as usize & 1;
                    if let Some(r) = half[k].as_mut() {
                        for _ in 0..*n {
                            let got = r.next_symbol().map(|s| s.n);
                            let want = given(s, at[k]);
                            if got != want { return Err(format!("operation {} at depth {}: read {} through half {} gave {:?}, the original gives {:?} for it (reads so far: {:?})", i, depth, at[k], k, got, want, at)); }
                            at[k] += 1;
                        }
                    }
                }
                Op::Drop(h) => half[*h as usize & 1] = None,
                Op::Nest(h, sub) => { let k = *h as usize & 1; let p = at[k]; if depth < 3 { if let Some(r) = half[k].as_mut() { at[k] = exec_gappy(r, p, sub, s, src_at, depth + 1, runs)?; } } }
            }
            if depth == 0 && src_at.get() != at[0].max(at[1]) { return Err(format!("operation {}: the original was read {} times, the half furthest ahead {} times", i, src_at.get(), at[0].max(at[1]))); }
        }
    }
    Ok(at[0].max(at[1]))
}
fn test_gappy(c: &Gappy, obs: &mut Obs) -> Res {
    let (at, count) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    let script = Rc::new(c.script.clone());
    let mut r: Reader = Box::new(Script { script: script.clone(), at: at.clone(), count: count.clone() });
    for _ in 0..c.before { r.next_symbol(); }
    let mut runs = 0;
    let pos = exec_gappy(&mut r, c.before as usize, &c.ops, &script, &at, 0, &mut runs)?;
    if count.get() != 0 { return Err(format!("{} symbols are still retained after both halves are gone", count.get())); }
    for i in pos..script.len() + 2 { let got = r.next_symbol().map(|s| s.n); if got != given(&script, i) { return Err(format!("after both halves are gone the original's read {} gave {:?}, expected {:?}", i, got, given(&script, i))); } }
    obs.ran(runs);
    let gap = c.script.windows(2).any(|w| !w[0] && w[1]);
    obs.label_if(gap, "nothing, then more");
    obs.nontrivial = gap && runs >= 3;
    Ok(())
}
fn gen_gappy(src: &mut Src) -> Gappy {
    let gap = src.range(2, 5);
    let script = src.list(0, 24, 10, |s| !s.chance(1, gap));
    Gappy { script, before: src.below(3), ops: gen_ops(src, 0, 20, 4) }
}

fn main() {
    main_with(Property {
        id: "C07",
        rule: "the halves are at different positions at some point, and a half is dropped then, is split again, or more than three operations are run",
        assumptions: &["not terminating is judged by CPU time (20 s for a case that takes microseconds)"],
        subs: vec![
            sub("short-histories-exhaustive", Mode::Exhaustive(4_000_000, 100_000_000), gen_exh, test),
            sub("random", Mode::Random(2_400_000, 28_800_000), gen, test),
            sub("long", Mode::Random(32_000, 384_000), gen_long, test),
            sub("gappy-source", Mode::Random(400_000, 4_800_000), gen_gappy, test_gappy),
            sub("huge", Mode::Random(100, 1_500), gen_huge, test),
            harness::deep_sub!("C07"),
            harness::billions_sub!("C07"),
        ],
    });
}
