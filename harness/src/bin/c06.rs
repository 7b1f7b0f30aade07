//! C06 A tape replays its source exactly under any reads, rewinds and cuts
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Op {
    /// Read up to this many symbols
    Read(u32),
    /// Go back this many symbols, or as many as the history allows if that is fewer
    Back(u32),
    /// Go back as far as possible
    BackAll,
    Cut,
    Grow,
    /// Go back this many more than the history allows: has to be refused (ends the history)
    TooFar(u64),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { len: u64, strings: bool, resumes: bool, ops: Vec<Op> }

/// Yields 0..len, then None; if `resumes`, it yields more symbols when it is read again after the end (which a tape must not do)
struct Numbers { next: u64, len: u64, resumes: bool, ended: bool, reads_after_end: Rc<Cell<u64>> }
impl Numbers {
    fn step(&mut self) -> Option<u64> {
        if self.ended { self.reads_after_end.set(self.reads_after_end.get() + 1); if self.resumes { return Some(999_999); } return None; }
        if self.next < self.len { self.next += 1; Some(self.next - 1) } else { self.ended = true; None }
    }
}
struct AsNum(Numbers);
impl SymbolReader<u64> for AsNum { fn next_symbol(&mut self) -> Option<u64> { self.0.step() } }
struct AsStr(Numbers);
impl SymbolReader<String> for AsStr { fn next_symbol(&mut self) -> Option<String> { self.0.step().map(|x| format!("#{}", x)) } }

fn drive<S: Clone + PartialEq + std::fmt::Debug, R: SymbolReader<S>>(c: &Case, mut t: Tape<S, R>, mk: &dyn Fn(u64) -> S, after: &Cell<u64>, obs: &mut Obs) -> Res {
    // Model: position, cut point, number of symbols fetched from the source, source has reported its end
    let (mut pos, mut cut, mut fetched, mut ended) = (0u64, 0u64, 0u64, false);
    let (mut wraps, mut backs, mut cuts, mut over) = (0, 0, 0, false);
    let step = |t: &mut Tape<S, R>, pos: &mut u64, fetched: &mut u64, ended: &mut bool, i: usize| -> Res {
        let want = if *pos < c.len { Some(mk(*pos)) } else { None };
        let got = t.next_symbol();
        if got != want { return Err(format!("operation {}: reading at position {} gave {:?}, expected {:?}", i, pos, got, want)); }
        if want.is_some() { *pos += 1; *fetched = (*fetched).max(*pos); } else { *ended = true; }
        Ok(())
    };
    let observe = |t: &mut Tape<S, R>, pos: u64, cut: u64, fetched: u64, ended: bool, i: usize, op: &str| -> Res {
        if t.get_source_position() as u64 != pos { return Err(format!("after operation {} ({}): position is {}, expected {}", i, op, t.get_source_position(), pos)); }
        if t.buffer_size() as u64 != fetched - cut { return Err(format!("after operation {} ({}): retained count is {}, expected {} (fetched {}, cut at {})", i, op, t.buffer_size(), fetched - cut, fetched, cut)); }
        let e = t.at_end_of_reader();
        if e && pos < c.len { return Err(format!("after operation {} ({}): the end is reported at position {} of {}", i, op, pos, c.len)); }
        if !e && ended && pos == c.len { return Err(format!("after operation {} ({}): the end is not reported although a read has returned nothing", i, op)); }
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Read(n) => for _ in 0..*n { step(&mut t, &mut pos, &mut fetched, &mut ended, i)?; },
            Op::Back(n) => { let k = (*n as u64).min(pos - cut); t.rewind(k as usize); pos -= k; if k > 0 { backs += 1 } }
            Op::BackAll => { let k = pos - cut; t.rewind(k as usize); pos = cut; if k > 0 { backs += 1 } }
            Op::Cut => { t.cut(); if pos > cut { cuts += 1 } cut = pos; }
            Op::Grow => t.resize(),
            Op::TooFar(n) => {
                over = true;
                let k = (pos - cut).saturating_add(*n).max(pos - cut + 1);
                if !panics(|| t.rewind(k as usize)) { return Err(format!("operation {}: rewinding by {} was accepted although only {} symbols can be gone back (position {}, cut at {}, fetched {})", i, k, pos - cut, pos, cut, fetched)); }
                obs.label("rewinding too far refused");
                obs.label_if(fetched > pos, "rewinding too far when already rewound");
                break;
            }
        }
        observe(&mut t, pos, cut, fetched, ended, i, &format!("{:?}", op))?;
        if fetched - cut >= 4 { wraps += 1 }
    }
    if !over {
        // Everything from the current position on, then the end, for good
        let mut n = 0;
        while pos < c.len { step(&mut t, &mut pos, &mut fetched, &mut ended, 1_000_000)?; n += 1; if n % 64 == 0 { observe(&mut t, pos, cut, fetched, ended, 1_000_000, "drain")?; } }
        for _ in 0..3 { step(&mut t, &mut pos, &mut fetched, &mut ended, 1_000_001)?; observe(&mut t, pos, cut, fetched, ended, 1_000_001, "end")?; }
        // ... and back to the cut and through once more
        t.rewind((pos - cut) as usize);
        let want: Vec<S> = (cut..c.len).map(mk).collect();
        pos = cut;
        observe(&mut t, pos, cut, fetched, ended, 1_000_002, "rewind to the cut")?;
        let got = t.to_vec();
        if got != want { return Err(format!("after everything was read and the tape rewound to {}: read {} symbols, expected {}; first difference at {:?}", cut, got.len(), want.len(), (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)))); }
        if after.get() > 0 { return Err(format!("the source was read {} times after it had ended", after.get())); }
    }
    obs.ran(c.ops.len() as u64);
    obs.label_if(cuts > 0 && backs > 0, "cuts and rewinds");
    obs.label_if(c.ops.iter().any(|o| matches!(o, Op::Grow)), "explicit buffer growth");
    obs.label_if(c.len > 200, "more than 200 symbols");
    obs.nontrivial = (backs > 0 && wraps > 0) || over;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    let after = Rc::new(Cell::new(0));
    let n = Numbers { next: 0, len: c.len, resumes: c.resumes, ended: false, reads_after_end: after.clone() };
    if c.strings { drive(c, Tape::new(AsStr(n)), &|x| format!("#{}", x), &after, obs) } else { drive(c, Tape::new(AsNum(n)), &|x| x, &after, obs) }
}

fn gen(src: &mut Src) -> Case {
    let len = match src.below(3) { 0 => src.below(12), 1 => src.below(60), _ => src.below(300) };
    let big = 1 + match src.below(3) { 0 => 3, 1 => 9, _ => 40 };
    let mut ops = src.list(0, 60, 16, |s| match s.weighted(&[6, 4, 1, 3, 1]) {
        0 => Op::Read(1 + s.below(big) as u32),
        1 => Op::Back(s.below(big) as u32),
        2 => Op::BackAll,
        3 => Op::Cut,
        _ => Op::Grow,
    });
    if ops.iter().filter(|o| **o == Op::Grow).count() > 4 { ops.retain(|o| *o != Op::Grow) }
    if src.chance(1, 4) { let n = match src.below(4) { 0 => 1, 1 => 1 + src.below(6), 2 => src.below(600), _ => [u64::MAX, u64::MAX / 2, 1 << 32, 1 << 63][src.below(4) as usize] }; ops.push(Op::TooFar(n)); }
    Case { len, strings: src.chance(1, 4), resumes: src.chance(1, 2), ops }
}
fn gen_long(src: &mut Src) -> Case {
    let k = if src.thorough { 10 } else { 1 };
    let len = src.range(200, 5000 * k);
    let ops = src.list(20, 600 * k as usize, 150, |s| match s.weighted(&[8, 5, 1, 4]) {
        0 => Op::Read(1 + s.below(80) as u32),
        1 => Op::Back(s.below(90) as u32),
        2 => Op::BackAll,
        _ => Op::Cut,
    });
    Case { len, strings: false, resumes: src.chance(1, 2), ops }
}
/// Every sequence of up to 6 (8) operations on short sources
fn gen_exh(src: &mut Src) -> Case {
    let len = [0, 1, 3, 4, 5, 9][src.below(6) as usize];
    let n = if src.thorough { 8 } else { 6 };
    let mut ops = vec![];
    for _ in 0..n {
        match src.below(8) {
            0 => break,
            1 => ops.push(Op::Read(1)),
            2 => ops.push(Op::Read(3)),
            3 => ops.push(Op::Back(1)),
            4 => ops.push(Op::Back(2)),
            5 => ops.push(Op::Cut),
            6 => ops.push(Op::Grow),
            _ => { ops.push(Op::TooFar(1)); break; }
        }
    }
    Case { len, strings: false, resumes: true, ops }
}

/// More than 65536 symbols retained, and positions beyond
fn gen_huge(src: &mut Src) -> Case {
    let len = src.range(60_000, 200_000);
    let mut ops = src.list(2, 12, 6, |s| match s.weighted(&[6, 5, 1, 2, 1]) {
        0 => Op::Read(gen_size(s)),
        1 => Op::Back(if s.chance(1, 2) { gen_size(s) } else { s.below(300) as u32 }),
        2 => Op::BackAll,
        3 => Op::Cut,
        _ => Op::Read(1 + s.below(9) as u32),
    });
    if src.chance(1, 4) { ops.push(Op::TooFar(1 + src.below(3))); }
    Case { len, strings: false, resumes: src.chance(1, 2), ops }
}

fn main() {
    main_with(Property {
        id: "C06",
        rule: "the history goes back at least once while the tape holds four or more symbols (its initial buffer wraps or grows), or tries to go back too far",
        assumptions: &["after a rewind that was refused with a panic the tape is not used again", "whether the end is reported when all symbols are consumed but no read has returned nothing yet is left open"],
        subs: vec![
            sub("short-histories-exhaustive", Mode::Exhaustive(4_000_000, 100_000_000), gen_exh, test),
            sub("random", Mode::Random(1_600_000, 19_200_000), gen, test),
            sub("long", Mode::Random(16_000, 192_000), gen_long, test),
            sub("huge", Mode::Random(160, 2_000), gen_huge, test),
            harness::deep_sub!("C06"),
            harness::billions_sub!("C06"),
        ],
    });
}
