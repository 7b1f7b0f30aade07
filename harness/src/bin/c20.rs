//! C20 Every symbol reader delivers each source symbol once, in order
use harness::lib_api::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::Read;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Source { Iter, VecReader, Chars, BytesSlice, BytesNew, BytesBuffered, FilterMap, FilterMapDropping, Tagged, Own, Cursor }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Step {
    Map(u8, u32),
    /// A tape: after the given numbers of reads, go back this far (never beyond what was read)
    Tape(Vec<(u64, u64)>),
    Boxed,
    /// Split; the half that is not followed reads so many symbols now and, perhaps, the rest at the end
    Split(bool, u64, bool),
    /// Read this many symbols here
    Take(u64),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { source: Source, data: Vec<u32>, chunks: Vec<u64>, cap: u64, steps: Vec<Step>, singles: u64 }

/// A stream that arrives in pieces: 0 stands for an interruption
struct Pieces { data: Vec<u8>, at: usize, chunks: Vec<u64>, next: usize }
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let c = self.chunks.get(self.next).copied().unwrap_or(1 << 20);
        self.next += 1;
        if c == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted")); }
        let n = buf.len().min(c as usize).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

type R<'a> = Box<dyn SymbolReader<u32> + 'a>;
struct Log { calls: RefCell<Vec<u32>> }

/// Applies the remaining steps to a reader from which `expect` should come, and drains it
fn go<'a>(mut r: R<'a>, expect: Vec<u32>, steps: &[Step], singles: u64, obs: &mut Obs) -> Res {
    match steps.first() {
        None => {
            let k = (singles as usize).min(expect.len());
            for (i, want) in expect[..k].iter().enumerate() { let got = r.next_symbol(); if got != Some(*want) { return Err(format!("symbol {} of {} is {:?}, expected {:?}", i, expect.len(), got, want)); } }
            let rest = r.to_vec();
            if rest != expect[k..] { return Err(format!("after {} single reads the rest is {:?}, expected {:?}", k, show32(&rest), show32(&expect[k..]))); }
            for _ in 0..2 { let x = r.next_symbol(); if x.is_some() { return Err(format!("{:?} came after the end", x)); } }
            obs.ran(expect.len() as u64 + 3);
            Ok(())
        }
        Some(Step::Take(n)) => {
            let n = (*n as usize).min(expect.len());
            for want in &expect[..n] { let got = r.next_symbol(); if got != Some(*want) { return Err(format!("read {:?}, expected {:?}", got, want)); } }
            go(r, expect[n..].to_vec(), &steps[1..], singles, obs)
        }
        Some(Step::Boxed) => go(Box::new(Box::new(r) as R<'a>), expect, &steps[1..], singles, obs),
        Some(Step::Map(kind, k)) => {
            let log = Rc::new(Log { calls: RefCell::new(vec![]) });
            let l2 = log.clone();
            let k = *k;
            let (m, e2): (R<'a>, Vec<u32>) = match kind % 4 {
                0 => (Box::new(r.map_symbols(move |x: u32| { l2.calls.borrow_mut().push(x); x.wrapping_add(k) })), expect.iter().map(|x| x.wrapping_add(k)).collect()),
                1 => { let mut n = 0u32; (Box::new(r.map_symbols(move |x: u32| { l2.calls.borrow_mut().push(x); n += 1; x ^ n })), expect.iter().enumerate().map(|(i, x)| x ^ (i as u32 + 1)).collect()) }
                2 => (Box::new(r.map_symbols(move |x: u32| { l2.calls.borrow_mut().push(x); format!("{}", x) }).map_symbols(|s: String| s.len() as u32 * 1000 + s.bytes().map(|b| b as u32).sum::<u32>())), expect.iter().map(|x| { let s = format!("{}", x); s.len() as u32 * 1000 + s.bytes().map(|b| b as u32).sum::<u32>() }).collect()),
                _ => (Box::new(r.map_symbols(move |x: u32| { l2.calls.borrow_mut().push(x); (x, k) }).map_symbols(|p: (u32, u32)| p.0.rotate_left(3) ^ p.1)), expect.iter().map(|x| x.rotate_left(3) ^ k).collect()),
            };
            go(m, e2, &steps[1..], singles, obs)?;
            let calls = log.calls.borrow();
            if calls[..] != expect[..] { return Err(format!("a mapping was applied to {:?}, expected each symbol once, in order: {:?}", show32(&calls), show32(&expect))); }
            Ok(())
        }
        Some(Step::Tape(moves)) => {
            let mut t = Tape::new(r);
            let mut at = 0usize;
            for (fwd, back) in moves {
                for _ in 0..*fwd { let got = t.next_symbol(); let want = expect.get(at).copied(); if got != want { return Err(format!("tape at {}: {:?}, expected {:?}", at, got, want)); } if want.is_some() { at += 1 } }
                let b = (*back as usize).min(at);
                t.rewind(b);
                at -= b;
            }
            let rest = expect[at..].to_vec();
            go(Box::new(t), rest, &steps[1..], singles, obs)
        }
        Some(Step::Split(second, lead, drain)) => {
            let (a, b) = r.split();
            let (mut other, main) = if *second { (a, b) } else { (b, a) };
            let k = (*lead as usize).min(expect.len());
            for want in &expect[..k] { let got = other.next_symbol(); if got != Some(*want) { return Err(format!("the half running ahead read {:?}, expected {:?}", got, want)); } }
            go(Box::new(main), expect.clone(), &steps[1..], singles, obs)?;
            if *drain { let rest = other.to_vec(); if rest != expect[k..] { return Err(format!("the other half's rest is {:?}, expected {:?}", show32(&rest), show32(&expect[k..]))); } }
            Ok(())
        }
    }
}
fn show32(v: &[u32]) -> String { if v.len() > 30 { format!("{:?}.. ({})", &v[..30], v.len()) } else { format!("{:?}", v) } }

fn test(c: &Case, obs: &mut Obs) -> Res {
    let bytes: Vec<u8> = c.data.iter().map(|x| *x as u8).collect();
    let b32: Vec<u32> = bytes.iter().map(|b| *b as u32).collect();
    let text: String = c.data.iter().map(|x| char::of(*x as u64 % (char::MAX_RANK + 1))).collect();
    let t32: Vec<u32> = text.chars().map(|x| x as u32).collect();
    let pieces = || Pieces { data: bytes.clone(), at: 0, chunks: c.chunks.clone(), next: 0 };
    let cap = (c.cap as usize).max(1);
    // The plain source first, collected in one go
    let direct = |got: Vec<u32>, want: &[u32]| if got == want { Ok(()) } else { Err(format!("{:?} collected: {:?}, expected {:?}", c.source, show32(&got), show32(want))) };
    let to32 = |v: Vec<u8>| v.into_iter().map(|x| x as u32).collect::<Vec<u32>>();
    let (s, n) = (&c.steps[..], c.singles);
    match c.source {
        Source::Iter => { direct((&c.data).read_symbols().to_vec(), &c.data)?; go(Box::new((&c.data).read_symbols()), c.data.clone(), s, n, obs)? }
        Source::VecReader => { direct(VecReader::from_vec(c.data.clone()).to_vec(), &c.data)?; go(Box::new(VecReader::from_vec(c.data.clone())), c.data.clone(), s, n, obs)? }
        Source::Chars => { direct(text[..].read_symbols().to_vec().into_iter().map(|x| x as u32).collect(), &t32)?; go(Box::new(text[..].read_symbols().map_symbols(|x| x as u32)), t32.clone(), s, n, obs)? }
        Source::BytesSlice => { direct(to32(ByteSymbolReader::from(&bytes[..]).to_vec()), &b32)?; go(Box::new(ByteSymbolReader::from(&bytes[..]).map_symbols(|x| x as u32)), b32.clone(), s, n, obs)? }
        Source::BytesNew => { direct(to32(ByteSymbolReader::new(pieces().bytes()).to_vec()), &b32)?; go(Box::new(ByteSymbolReader::new(pieces().bytes()).map_symbols(|x| x as u32)), b32.clone(), s, n, obs)? }
        Source::BytesBuffered => { let b = || std::io::BufReader::with_capacity(cap, pieces()); direct(to32(ByteSymbolReader::from(b()).to_vec()), &b32)?; go(Box::new(ByteSymbolReader::from(b()).map_symbols(|x| x as u32)), b32.clone(), s, n, obs)? }
        Source::Cursor => { let b = || std::io::Cursor::new(bytes.clone()); direct(to32(ByteSymbolReader::from(b()).to_vec()), &b32)?; go(Box::new(ByteSymbolReader::from(b().take(bytes.len() as u64)).map_symbols(|x| x as u32)), b32.clone(), s, n, obs)? }
        Source::FilterMap => { let w: Vec<u32> = c.data.iter().map(|x| x / 2).collect(); direct(ReaderToVector::to_vec(&mut c.data.iter().filter_map(|x| Some(*x / 2))), &w)?; go(Box::new(c.data.iter().filter_map(|x| Some(*x / 2))), w, s, n, obs)? }
        Source::FilterMapDropping => { let w: Vec<u32> = c.data.iter().copied().filter(|x| x % 3 != 0).collect(); direct(ReaderToVector::to_vec(&mut c.data.iter().filter_map(|x| if x % 3 != 0 { Some(*x) } else { None })), &w)?; go(Box::new(c.data.iter().filter_map(|x| if x % 3 != 0 { Some(*x) } else { None })), w, s, n, obs)? }
        Source::Tagged => {
            let mut t: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut (&c.data).read_symbols());
            let mut want: Vec<u32> = c.data.clone();
            if c.data.len() >= 2 { let a = cap % (c.data.len() - 1); let b = (a + 1 + c.singles as usize % 4).min(c.data.len()); t.tag(5, a..b); want.splice(a..b, [1_000_000 + (b - a) as u32]); }
            let f = |x: TagSymbol<u32, u32>| match x { TagSymbol::Untagged(x) => x, TagSymbol::Tagged(_, s) => 1_000_000 + s.len() as u32 };
            direct((&t).read_symbols().to_vec().into_iter().map(f).collect(), &want)?;
            go(Box::new((&t).read_symbols().map_symbols(f)), want, s, n, obs)?
        }
        Source::Own => {
            let (r, pulls) = Counting::new(c.data.clone());
            go(Box::new(r), c.data.clone(), s, n, obs)?;
            if pulls.borrow().symbols != c.data.len() { return Err(format!("{} symbols were taken from a source of {}", pulls.borrow().symbols, c.data.len())); }
        }
    }
    // The same steps straight on the concrete types, without boxing
    let mut t = Tape::new(ByteSymbolReader::from(&bytes[..]).map_symbols(|x| x as u32 + 1));
    let k = bytes.len() / 2;
    for b in &bytes[..k] { if t.next_symbol() != Some(*b as u32 + 1) { return Err("tape over a mapped byte reader".into()); } }
    t.rewind(k);
    if t.to_vec() != b32.iter().map(|x| x + 1).collect::<Vec<_>>() { return Err("tape over a mapped byte reader, rewound and collected".into()); }
    obs.label(match c.source { Source::Iter => "vector by reference", Source::VecReader => "vector by value", Source::Chars => "string", Source::BytesSlice | Source::Cursor => "bytes in memory", Source::BytesNew => "bytes in pieces", Source::BytesBuffered => "bytes in pieces, buffered", Source::FilterMap | Source::FilterMapDropping => "filtered iterator", Source::Tagged => "tagged stream", Source::Own => "own reader" });
    obs.label_if(c.steps.len() >= 3, "three or more adaptors");
    obs.label_if(matches!(c.source, Source::BytesNew | Source::BytesBuffered) && c.chunks.contains(&0), "interrupted reads");
    obs.nontrivial = c.data.len() >= 3 && c.steps.iter().any(|s| !matches!(s, Step::Boxed));
    Ok(())
}
trait M { const MAX_RANK: u64; }
impl M for char { const MAX_RANK: u64 = <char as Sym>::MAX; }

const SOURCES: [Source; 11] = [Source::Iter, Source::VecReader, Source::Chars, Source::BytesSlice, Source::BytesNew, Source::BytesBuffered, Source::FilterMap, Source::FilterMapDropping, Source::Tagged, Source::Own, Source::Cursor];
fn gen_of(src: &mut Src, len: usize, steps: usize) -> Case {
    let source = *src.pick(&SOURCES);
    let chars = source == Source::Chars;
    let data: Vec<u32> = src.list(0, len, 14, |s| if chars { gen_rank(s, Ty::Char) as u32 } else { match s.below(4) { 0 => s.below(4) as u32, 1 => 255 - s.below(3) as u32, _ => s.below(1000) as u32 } });
    let chunks = src.list(0, 30, 5, |s| s.below(5));
    let steps = src.list(0, steps, 2, |s| match s.weighted(&[4, 4, 1, 3, 2]) {
        0 => { let k = s.below(4) as u8; Step::Map(k, s.below(100) as u32) }
        1 => Step::Tape(s.list(0, 5, 2, |s| { let f = s.below(14); (f, s.below(14)) })),
        2 => Step::Boxed,
        3 => { let a = s.chance(1, 2); let l = s.below(12); Step::Split(a, l, s.chance(1, 2)) }
        _ => Step::Take(s.below(6)),
    });
    Case { source, data, chunks, cap: src.range(1, 9), steps, singles: src.below(12) }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 30, 5) }
fn gen_long(src: &mut Src) -> Case { let mut c = gen_of(src, 2000, 4); if c.data.len() < 40 { let n = src.range(40, 3000); c.data = (0..n as u32).map(|x| x * 7 % 300).collect(); } for s in &mut c.steps { if let Step::Tape(m) = s { for x in m.iter_mut() { x.0 *= 17; x.1 *= 13; } } } c }
/// Every source with 0 to 4 symbols and every stack of up to two adaptors from a fixed list
fn gen_exh(src: &mut Src) -> Case {
    let source = *src.pick(&SOURCES);
    let data = (0..src.below(5)).map(|x| x as u32 * 5 + 1).collect();
    let n = src.below(3);
    let steps = (0..n).map(|_| match src.below(9) { 0 => Step::Map(0, 3), 1 => Step::Map(1, 0), 2 => Step::Map(2, 0), 3 => Step::Boxed, 4 => Step::Tape(vec![(2, 1)]), 5 => Step::Tape(vec![(5, 5), (1, 0)]), 6 => Step::Split(false, 1, true), 7 => Step::Split(true, 0, false), _ => Step::Take(1) }).collect();
    let chunks = match src.below(3) { 0 => vec![], 1 => vec![0, 1, 0, 0, 2], _ => vec![1, 1, 1, 0, 1] };
    Case { source, data, chunks, cap: 1 + src.below(2), steps, singles: src.below(3) }
}
/// Sources of tens of thousands of symbols
fn gen_huge(src: &mut Src) -> Case {
    let mut c = gen_of(src, 3, 3);
    let n = gen_size(src);
    c.data = (0..n).map(|x| (x ^ (x >> 8)) * 7 % 250).collect();
    c.chunks = c.chunks.iter().map(|x| x * 977).collect();
    c.cap = 1 + c.cap * 911;
    for s in &mut c.steps { match s { Step::Tape(m) => for x in m.iter_mut() { x.0 *= 6_000; x.1 *= 5_501; }, Step::Take(n) => *n *= 14_000, Step::Split(_, n, _) => *n *= 6_001, _ => {} } }
    c.singles *= 5_000;
    c
}
/// A source that pauses: it reports no symbol now and goes on later, like a file that is still being written
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Pausing { answers: Vec<Option<u8>>, source: u8, steps: Vec<u8>, reads: Vec<u8>, tape: bool }
struct Scripted { answers: Vec<Option<u8>>, next: usize, asked: Rc<RefCell<usize>>, blocks: bool }
impl SymbolReader<u8> for Scripted { fn next_symbol(&mut self) -> Option<u8> { *self.asked.borrow_mut() += 1; let a = self.answers.get(self.next).copied().flatten(); self.next += 1; a } }
impl Read for Scripted { fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { if buf.is_empty() { return Ok(0); } let within = self.next < self.answers.len(); Ok(match self.next_symbol() { Some(b) => { buf[0] = b; 1 } None if self.blocks && within => return Err(std::io::Error::new(std::io::ErrorKind::WouldBlock, "nothing there yet")), None => 0 }) } }
impl Iterator for Scripted { type Item = u8; fn next(&mut self) -> Option<u8> { self.next_symbol() } }
fn paused<'a>(mut r: R<'a>, want: Vec<Option<u32>>, steps: &[u8], c: &Pausing, obs: &mut Obs) -> Res {
    match steps.first() {
        Some(0) => go_on(Box::new(r.map_symbols(|x| x.wrapping_mul(3) + 1)), want.into_iter().map(|x| x.map(|x| x.wrapping_mul(3) + 1)).collect(), &steps[1..], c, obs),
        Some(1) => { let mut k = 0; let mut j = 0; go_on(Box::new(r.map_symbols(move |x| { k += 1; x ^ k })), want.into_iter().map(|x| x.map(|x| { j += 1; x ^ j })).collect(), &steps[1..], c, obs) }
        Some(2) => go_on(Box::new(Box::new(r) as R<'a>), want, &steps[1..], c, obs),
        Some(n) => {
            // Split: the other half runs ahead, behind or is dropped
            let (mut a, b) = r.split();
            let lead = *n as usize - 3;
            for (i, w) in want.iter().take(lead).enumerate() { let got = a.next_symbol(); if got != *w { return Err(format!("the half running ahead read {:?} at {}, expected {:?}", got, i, w)); } }
            if lead % 2 == 1 { drop(a); return go_on(Box::new(b), want, &steps[1..], c, obs); }
            go_on(Box::new(b), want.clone(), &steps[1..], c, obs)?;
            for (i, w) in want.iter().enumerate().skip(lead) { let got = a.next_symbol(); if got != *w { return Err(format!("the half left behind read {:?} at {}, expected {:?}", got, i, w)); } }
            Ok(())
        }
        None => {
            if c.tape {
                // A tape ends with the first pause
                let end = want.iter().position(|x| x.is_none()).unwrap_or(want.len());
                let mut t = Tape::new(r);
                for (i, w) in want.iter().enumerate() { let w = if i < end { *w } else { None }; let got = t.next_symbol(); if got != w { return Err(format!("a tape over a pausing source read {:?} at {}, expected {:?}", got, i, w)); } }
                return Ok(());
            }
            let mut at = 0;
            let mut k = 0;
            while at < want.len() {
                // Single reads, and now and then everything up to the next pause
                let mode = c.reads.get(k % c.reads.len().max(1)).copied().unwrap_or(0);
                k += 1;
                obs.ran(1);
                if mode == 0 || want[at..].iter().all(|x| x.is_some()) {
                    let got = r.next_symbol();
                    if got != want[at] { return Err(format!("read {} gave {:?}, expected {:?}", at, got, want[at])); }
                    at += 1;
                } else {
                    let n = want[at..].iter().position(|x| x.is_none()).unwrap();
                    let got = r.to_vec();
                    let w: Vec<u32> = want[at..at + n].iter().map(|x| x.unwrap()).collect();
                    if got != w { return Err(format!("collecting from read {} gave {:?}, expected {:?}", at, got, w)); }
                    at += n + 1;
                }
            }
            Ok(())
        }
    }
}
fn go_on<'a>(r: R<'a>, want: Vec<Option<u32>>, steps: &[u8], c: &Pausing, obs: &mut Obs) -> Res { paused(r, want, steps, c, obs) }
fn test_paused(c: &Pausing, obs: &mut Obs) -> Res {
    let asked = Rc::new(RefCell::new(0));
    let s = Scripted { answers: c.answers.clone(), next: 0, asked: asked.clone(), blocks: c.source == 3 };
    let want: Vec<Option<u32>> = c.answers.iter().map(|x| x.map(|x| x as u32)).collect();
    let r: R = match c.source { 0 => Box::new(s.map_symbols(|x| x as u32)), 1 | 3 => Box::new(ByteSymbolReader::from(s).map_symbols(|x| x as u32)), _ => Box::new(s.filter_map(|x| Some(x as u32))) };
    paused(r, want, &c.steps, c, obs)?;
    if !c.tape && *asked.borrow() != c.answers.len() { return Err(format!("the source was asked {} times, expected {}", asked.borrow(), c.answers.len())); }
    let first = c.answers.iter().position(|x| x.is_none());
    obs.nontrivial = first.map(|f| c.answers[f..].iter().any(|x| x.is_some())).unwrap_or(false);
    obs.label_if(c.steps.iter().any(|s| *s > 2), "split");
    obs.label(match c.source { 0 => "own reader", 1 => "byte stream", 3 => "byte stream that would block", _ => "filtered iterator" });
    Ok(())
}
fn gen_paused(src: &mut Src) -> Pausing {
    let answers = src.list(1, 24, 6, |s| if s.chance(1, 3) { None } else { Some(s.below(200) as u8) });
    Pausing { answers, source: src.below(4) as u8, steps: src.list(0, 5, 2, |s| s.below(8) as u8), reads: src.list(1, 4, 2, |s| s.below(2) as u8), tape: src.chance(1, 5) }
}

fn main() {
    main_with(Property {
        id: "C20",
        rule: "the source has at least three symbols and the stack at least one adaptor besides boxes",
        assumptions: &["a byte stream that fails with an error other than an interruption or that it would block is not covered", "a source that goes on after having reported its end is read through mappings, boxes, splits and, up to that end, a tape; the other adaptors and sources are covered for sources that stay at their end"],
        subs: vec![
            sub("short-exhaustive", Mode::Exhaustive(500_000, 1_000_000), gen_exh, test),
            sub("random", Mode::Random(7_200_000, 21_600_000), gen, test),
            sub("pausing-sources", Mode::Random(1_800_000, 5_400_000), gen_paused, test_paused),
            sub("long", Mode::Random(216_000, 648_000), gen_long, test),
            sub("huge", Mode::Random(200, 2_500), gen_huge, test),
            harness::deep_sub!("C20"),
        ],
    });
}
