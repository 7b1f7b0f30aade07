//! Very long inputs, compiled without optimisation and run on a small stack: whatever uses stack in proportion to its
//! input fails here. Every scenario has a simple shape, so that its result is known without a reference.
#![allow(warnings)]
extern crate concordance;
use concordance::overlapping_symbols::*;
use concordance::*;
use std::cell::Cell;
use std::io::Read;
use std::rc::Rc;

type R = Result<(), String>;

/// Small, so that a stack frame for every part of the input overflows it at lengths for which quadratic work is still affordable
const STACK: usize = 512 << 10;
/// For the scenarios made of joins: visiting the states that are joined may well take quadratic time, so these are shorter
const SMALL_STACK: usize = 128 << 10;
fn on_stack(size: usize, f: impl FnOnce() -> R + Send + 'static) -> R {
    match std::thread::Builder::new().stack_size(size).spawn(f).unwrap().join() {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into()))),
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { let cut = |s: String| -> String { s.chars().take(200).collect() }; Err(format!("{}: got {}, expected {}", what, cut(format!("{:?}", got)), cut(format!("{:?}", want)))) }
}

pub const SCENARIOS: &[(&str, fn(u64, u64) -> R)] = &[
    ("C01", star), ("C01", literal), ("C01", repeat), ("C01", optional_parts), ("C03", tokens_prepared), ("C04", by_hand), ("C05", unmatched), ("C05", all_matched), ("C06", tape), ("C07", split), ("C07", split_one_sided),
    ("C08", partition_nested), ("C08", partition_stairs), ("C09", lookup), ("C10", joins), ("C10", join_ring), ("C11", literal), ("C11", joined_chain), ("C12", literal), ("C13", fix), ("C14", appended), ("C15", serde),
    ("C16", tags), ("C16", one_by_one), ("C17", tokenize), ("C20", filtered), ("C20", interrupted), ("C20", collected), ("C21", star), ("C22", table), ("C23", steps), ("C24", listing), ("C25", star), ("C26", tower), ("C27", own_matcher), ("C27", own_matcher_ends),
];
pub fn scenarios(prop: &str) -> Vec<usize> { (0..SCENARIOS.len()).filter(|i| SCENARIOS[*i].0 == prop).collect() }
pub fn run(i: usize, n: u64, k: u64) -> R { let f = SCENARIOS[i].1; on_stack(STACK, move || f(n, k)) }

fn star(n: u64, k: u64) -> R {
    let mut v: Vec<u8> = vec![7; n as usize];
    eq("matches", matches(&v, MatchRange(7u8, 8u8).repeat_forever((k % 3) as u32)), Some(v.len()))?;
    v.push(9);
    eq("matches_prepared", matches_prepared(&v, &MatchRange(7u8, 8u8).repeat_forever((k % 3) as u32).append(exactly(&vec![10u8]).repeat(0..2)).prepare_to_match()), Some(v.len() - 1))
}
fn literal(n: u64, k: u64) -> R {
    let mut v: Vec<u16> = (0..n).map(|i| (i % (k + 2)) as u16).collect();
    let p = exactly(&v).prepare_to_match();
    eq("states", p.count_states() as u64, n + 1)?;
    eq("the literal", matches_prepared(&v, &p), Some(v.len()))?;
    v.pop();
    eq("one symbol short", matches_prepared(&v, &p), None)
}
fn repeat(n: u64, k: u64) -> R {
    let n = n / 2;
    let p = MatchRange(3u8, 4u8).repeat((k % 5) as u32..n as u32).prepare_to_match();
    eq("more than the bound", matches_prepared(&vec![3u8; n as usize + 3], &p), Some(n as usize - 1))?;
    eq("within the bound", matches_prepared(&vec![4u8; n as usize / 2], &p), Some(n as usize / 2))
}
fn optional_parts(n: u64, k: u64) -> R {
    // Each part can be left out: long chains of joins
    let n = n / 160 + 2;
    let p: Pattern<u8> = MatchAll((0..n).map(|i| exactly(&vec![i as u8]).repeat(0..2)).collect());
    let v: Vec<u8> = (0..n).filter(|i| i % (k + 1) == 0).map(|i| i as u8).collect();
    eq("parts left out", matches(&v, p), Some(v.len()))
}
fn tokens_prepared(n: u64, k: u64) -> R {
    let mut t: TokenMatcher<u8, u32> = TokenMatcher::new();
    let v: Vec<u8> = vec![1; n as usize / 2];
    t.add_pattern(exactly(&v), (k % 3) as u32);
    t.add_pattern(exactly(&vec![1u8]).repeat_forever(0), 1);
    let p = t.prepare_to_match();
    let long = vec![1u8; v.len() + (k % 2) as usize];
    let got = match match_pattern(p.start(), &mut (&long).read_symbols()) { Accept(len, o) => Some((len, *o)), _ => None };
    eq("longest and lowest", got, Some((long.len(), if k % 2 == 0 { (k % 3).min(1) as u32 } else { 1 })))
}
fn by_hand(n: u64, k: u64) -> R {
    let mut v: Vec<u8> = vec![9; n as usize];
    v.extend(vec![1; n as usize]);
    let mut t = Tokenizer::new((&v).read_symbols(), exactly(&vec![1u8]).repeat_forever(1));
    for i in 0..n { if i % (k + 1) == 0 { eq("token", t.next_token().map(|t| t.0), None)?; } eq("skipped", t.skip_input(), Some(9))?; }
    eq("token", t.next_token().map(|t| t.0), Some(n as usize..2 * n as usize))?;
    eq("token", t.next_token().map(|t| t.0), None)?;
    eq("end", t.at_end_of_reader(), true)
}
fn unmatched(n: u64, k: u64) -> R {
    let mut v: Vec<u8> = vec![9; n as usize];
    v.push(1);
    v.extend(vec![9; k as usize]);
    let t = Tokenizer::new((&v).read_symbols(), exactly(&vec![1u8]));
    eq("tokens", t.map(|t| t.0).collect::<Vec<_>>(), vec![n as usize..n as usize + 1])
}
fn all_matched(n: u64, k: u64) -> R {
    let v: Vec<u8> = vec![1; n as usize];
    let t = Tokenizer::new((&v).read_symbols(), exactly(&vec![1u8]).repeat(1..k as u32 + 2));
    let step = k as usize + 1;
    eq("tokens", t.map(|t| t.0).collect::<Vec<_>>(), (0..(v.len() + step - 1) / step).map(|i| i * step..((i + 1) * step).min(v.len())).collect())
}
fn tape(n: u64, k: u64) -> R {
    let v: Vec<u32> = (0..n as u32).collect();
    let mut t = Tape::new((&v).read_symbols());
    for _ in 0..k { t.next_symbol(); }
    t.cut();
    let rest = t.to_vec();
    eq("first reading", &rest[..], &v[k.min(n) as usize..])?;
    t.rewind(rest.len());
    eq("second reading", t.to_vec() == rest, true)?;
    eq("position", t.get_source_position(), v.len())?;
    t.cut();
    eq("retained", t.buffer_size(), 0)
}
fn split(n: u64, k: u64) -> R {
    let v: Vec<u32> = (0..n as u32).collect();
    let mut src = (&v).read_symbols();
    {
        let (mut a, mut b) = src.split();
        for _ in 0..k { b.next_symbol(); }
        eq("first half", a.to_vec() == v, true)?;
        if k % 2 == 0 { drop(a); }
        eq("second half", b.to_vec() == v[k.min(n) as usize..].to_vec(), true)?;
    }
    eq("original", src.next_symbol(), None)
}
fn split_one_sided(n: u64, k: u64) -> R {
    let v: Vec<u32> = (0..n as u32).collect();
    let mut src = (&v).read_symbols();
    {
        let (mut a, mut b) = src.split();
        for i in 0..n - 1 { eq("read", b.next_symbol(), Some(i as u32))?; }
        if k % 2 == 0 { drop(b); drop(a); } else { drop(a); drop(b); }
    }
    eq("original", src.next_symbol(), Some(n as u32 - 1))
}
fn ranges(m: &SymbolMap<u32>) -> Vec<(u32, u32)> { m.find_overlapping_ranges(&SymbolRange::new(0, u32::max_value())).iter().map(|r| (r.lowest, r.highest)).collect() }
fn partition_nested(n: u64, k: u64) -> R {
    let n = n as u32 / 8;
    let mut m = SymbolMap::new();
    for i in 0..n { m.add_range(&SymbolRange::new(10 * n + i, 20 * n - i)); }
    let mut want: Vec<(u32, u32)> = (0..n - 1).map(|i| (10 * n + i, 10 * n + i)).collect();
    want.push((11 * n - 1, 19 * n + 1));
    want.extend((0..n - 1).rev().map(|i| (20 * n - i, 20 * n - i)));
    eq("nested ranges", ranges(&m.to_non_overlapping_map()), want)
}
fn partition_stairs(n: u64, k: u64) -> R {
    let n = n as u32 / 8;
    let step = k as u32 + 2;
    let mut m = SymbolMap::new();
    for i in (0..n).rev() { m.add_range(&SymbolRange::new(i * step, (i + 1) * step)); }
    let mut want = vec![];
    // Neighbours share one symbol
    for i in 0..n { if i > 0 { want.push((i * step, i * step)); } want.push((if i > 0 { i * step + 1 } else { 0 }, if i + 1 < n { (i + 1) * step - 1 } else { n * step })); }
    eq("stairs", ranges(&m.to_non_overlapping_map()), want)
}
fn lookup(n: u64, k: u64) -> R {
    let n = n as u32 / 2;
    let mut m = SymbolMap::new();
    for i in 0..n { m.add_range(&SymbolRange::new(3 * i, 3 * i + 1)); }
    m.add_range(&SymbolRange::new(0, 3 * n));
    let at = 3 * (n / (k as u32 + 2));
    let got: Vec<(u32, u32)> = m.find_overlapping_ranges(&SymbolRange::new(at, at + 2)).iter().map(|r| (r.lowest, r.highest)).collect();
    eq("one and the one around all", got, vec![(0, 3 * n), (at, at + 1)])?;
    eq("all", ranges(&m).len(), n as usize + 1)
}
fn joins(n: u64, k: u64) -> R { on_stack(SMALL_STACK, move || joins_on(n, k)) }
fn joins_on(n: u64, k: u64) -> R {
    let n = n as u32 / 6;
    let mut m: Ndfa<u32, u32> = Ndfa::new();
    for i in 0..n { if k % 2 == 0 { m.join_states(i, i + 1) } else { m.join_states(n - 1 - i, n - i) } }
    m.set_output_symbol(n, 5);
    m.add_transition(n, 77, 3);
    eq("output", m.output_symbol_for_state(k as u32), Some(&5))?;
    eq("outputs", m.output_symbols_for_state(k as u32), vec![&5])?;
    eq("transitions", m.get_transitions_for_state(k as u32), vec![(77, 3)])
}
fn join_ring(n: u64, k: u64) -> R { on_stack(SMALL_STACK, move || join_ring_on(n, k)) }
fn join_ring_on(n: u64, k: u64) -> R {
    let n = n as u32 / 6;
    let mut m: Ndfa<u32, u32> = Ndfa::new();
    for i in 0..n { m.join_states(i, (i + 1) % n); m.join_states(i, i); }
    m.set_output_symbol(n - 1, 5);
    m.add_transition(n / 2, 77, 3);
    for s in [0, n / 2 + 1, n - 1] { eq("outputs", m.output_symbols_for_state(s), vec![&5])?; eq("transitions", m.get_transitions_for_state(s), vec![(77, 3)])?; }
    Ok(())
}
fn joined_chain(n: u64, k: u64) -> R { on_stack(SMALL_STACK, move || joined_chain_on(n, k)) }
fn joined_chain_on(n: u64, k: u64) -> R {
    let n = n as u32 / 6;
    let mut m: Ndfa<SymbolRange<u32>, u32> = Ndfa::new();
    m.add_transition(0, SymbolRange::new(1, 1), 1);
    for i in 1..n { m.join_states(i, i + 1); }
    m.set_output_symbol(n, 5);
    m.set_output_symbol(n / 2, 4 + k as u32);
    m.add_transition(n, SymbolRange::new(2, 2), 1);
    let d = DfaCompiler::build(m, SymbolRangeDfaBuilder::new());
    let got = match match_pattern(d.start(), &mut (&vec![1u32, 2, 2]).read_symbols()) { Accept(len, o) => Some((len, *o)), _ => None };
    eq("through the joins", got, Some((3, (4 + k as u32).min(5))))
}
fn fix(n: u64, k: u64) -> R {
    let n = n as u32 / 8;
    let mut m: Ndfa<SymbolRange<u32>, u32> = Ndfa::new();
    for i in 0..n { m.add_transition(i, SymbolRange::new(i % 7, 6 + k as u32), i + 1); }
    m.set_output_symbol(n, 1);
    m.fix_overlapping_ranges();
    eq("states", m.count_states(), n + 1)?;
    for i in 0..n {
        let mut t: Vec<(u32, u32)> = m.get_transitions_for_state(i).iter().map(|t| (t.0.lowest, t.0.highest)).collect();
        t.sort();
        let top = 6 + k as u32;
        let from = i % 7;
        if t.is_empty() || t[0].0 != from || t[t.len() - 1].1 != top || t.windows(2).any(|w| w[0].1 + 1 != w[1].0) { return Err(format!("state {}: {:?}", i, t)); }
    }
    Ok(())
}
fn appended(n: u64, k: u64) -> R {
    let n = n / 2;
    let mut p: Pattern<u8> = exactly(&vec![1u8]);
    // (Appending copies what there is)
    for i in 0..n / 8 { p = if i % 2 == 0 { p.append(MatchRange(1u8, 2u8)) } else { p.append(exactly(&vec![1u8])) }; }
    eq("appended", matches(&vec![1u8; n as usize / 8 + 1 + k as usize], p), Some(n as usize / 8 + 1))
}
fn serde(n: u64, k: u64) -> R {
    let v: Vec<u16> = (0..n / 2).map(|i| (i % (k + 2)) as u16).collect();
    let p = exactly(&v).prepare_to_match();
    let s = serde_json::to_string(&p).map_err(|e| e.to_string())?;
    let back: SymbolRangeDfa<u16, ()> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    eq("read back", matches_prepared(&v, &back), Some(v.len()))?;
    eq("written again", serde_json::to_string(&back).map_err(|e| e.to_string())? == s, true)
}
fn tags(n: u64, k: u64) -> R {
    let v: Vec<u32> = (0..n as u32).collect();
    let s: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut (&v).read_symbols());
    let step = k as usize + 2;
    let t = s.with_tags((0..v.len() / step).map(|i| (i * step..i * step + 2, i as u32)));
    eq("length", t.len(), v.len() - v.len() / step)?;
    eq("original", s.len(), v.len())?;
    match t[0] { TagSymbol::Tagged(0, ref inner) => eq("tagged", inner.len(), 2), _ => Err("not tagged".into()) }
}
fn one_by_one(n: u64, k: u64) -> R {
    let n = n as u32 / 8;
    let mut s: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut (&(0..n).collect::<Vec<_>>()).read_symbols());
    for i in 0..n / 2 { let at = i as usize; s.tag(i, at..at + 2); }
    eq("length", s.len() as u32, n - n / 2)?;
    for i in 0..(n / 2) as usize { match s[i] { TagSymbol::Tagged(t, ref inner) if t == i as u32 => eq("tagged", &inner[0], &TagSymbol::Untagged(2 * i as u32))?, _ => return Err("not tagged".into()) } }
    Ok(())
}
fn tokenize(n: u64, k: u64) -> R {
    let v: Vec<u32> = (0..n as u32 / 2).collect();
    let s: TaggedStream<u32, u32> = TaggedStream::from_reader(&mut (&v).read_symbols());
    let mut t: TokenMatcher<u32, u32> = TokenMatcher::new();
    t.add_pattern(exactly(&vec![1u32, 2]), 1);
    let m = t.prepare_to_match();
    let step = k as u32 + 3;
    let r = s.tokenize(&m, move |x| match x { TagSymbol::Untagged(c) => c % step, _ => 0 });
    let tokens = (0..v.len().saturating_sub(1)).filter(|i| v[*i] % step == 1 && v[*i + 1] % step == 2).count();
    eq("length", r.len(), v.len() - tokens)
}
fn filtered(n: u64, k: u64) -> R {
    let every = n / (k + 1) + 1;
    let mut r = (0..n).filter_map(move |x| if x % every == 0 { Some(x as u32) } else { None });
    eq("filtered", SymbolReader::next_symbol(&mut r), Some(0))?;
    eq("filtered", r.map_symbols(|x: u32| x as u64).to_vec(), (1..n).filter(|x| x % every == 0).collect())
}
struct Pieces { left: u64, interrupts: u64 }
impl Read for Pieces {
    fn read(&mut self, to: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts > 0 { self.interrupts -= 1; return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
        if self.left == 0 || to.is_empty() { return Ok(0); }
        self.left -= 1;
        to[0] = (self.left % 251) as u8;
        Ok(1)
    }
}
fn interrupted(n: u64, k: u64) -> R {
    let mut r = ByteSymbolReader::from(Pieces { left: k + 5, interrupts: n });
    eq("bytes", r.to_vec(), (0..k + 5).rev().map(|x| (x % 251) as u8).collect())?;
    let mut r = ByteSymbolReader::from(Pieces { left: n, interrupts: k });
    eq("count", r.to_vec().len() as u64, n)
}
fn collected(n: u64, k: u64) -> R {
    let v: Vec<u32> = (0..n as u32).collect();
    eq("by value", VecReader::from_vec(v.clone()).to_vec() == v, true)?;
    let mut b: Box<dyn SymbolReader<u32>> = Box::new(VecReader::from_vec(v.clone()));
    for i in 0..k { eq("boxed", b.next_symbol(), Some(i as u32))?; }
    eq("boxed, mapped", b.map_symbols(|x| x + 1).to_vec() == v[k as usize..].iter().map(|x| x + 1).collect::<Vec<_>>(), true)?;
    let s = "ab\u{e9}".repeat(n as usize / 3);
    eq("string", s.as_str().read_symbols().to_vec() == s.chars().collect::<Vec<_>>(), true)
}
fn table(n: u64, k: u64) -> R {
    let n = n as u32 / 2;
    let mut b = SymbolRangeDfaBuilder::new();
    for i in 0..n { b.start_state(); b.transition(SymbolRange::new(0u32, k as u32), i + 1); if i == n / 2 { b.accept(i); } }
    b.start_state();
    b.accept(n);
    let d: SymbolRangeDfa<u32, u32> = b.build();
    eq("states", d.count_states(), n + 1)?;
    let mut b = SymbolRangeDfaBuilder::new();
    b.start_state();
    for i in 0..2_000 { b.transition(SymbolRange::new(i as u32, i as u32), if i % (k + 2) == 0 { 1 } else { 0 }); }
    b.start_state();
    b.accept(1u32);
    let wide: SymbolRangeDfa<u32, u32> = b.build();
    for i in 0..2_000u32 { eq("wide state", matches_prepared(&vec![i], &wide), if i as u64 % (k + 2) == 0 { Some(1) } else { None })?; }
    let got = match match_pattern(d.start(), &mut (&vec![k as u32; n as usize - 1]).read_symbols()) { Accept(len, o) => Some((len, *o)), _ => None };
    eq("chain", got, Some((n as usize / 2, n / 2)))
}
fn steps(n: u64, k: u64) -> R {
    let d = exactly(&vec![1u8, 2]).repeat_forever(1).prepare_to_match();
    let mut s = match d.start() { More(s) => s, _ => return Err("did not start".into()) };
    for i in 0..n {
        s = match s.next(if i % 2 == 0 { 1 } else { 2 }) { More(s) => s, _ => return Err(format!("ended after {}", i)) };
        if i % (97 + k) == 1 { match s.clone().finish() { Accept(len, _) => eq("copy", len as u64, (i + 1) / 2 * 2)?, _ => return Err("the copy does not match".into()) } }
    }
    match s.finish() { Accept(len, _) => eq("finish", len as u64, n / 2 * 2), _ => Err("does not match".into()) }
}
fn listing(n: u64, k: u64) -> R {
    let v: Vec<u16> = (0..n / 2).map(|i| (i % (k + 2)) as u16).collect();
    let d = exactly(&v).prepare_to_match();
    let mut at = 0;
    for s in &v {
        let t = d.get_transitions_for_state(at);
        if t.len() != 1 || !t[0].0.includes(s) { return Err(format!("state {}: {:?}", at, t)); }
        at = t[0].1;
    }
    eq("output", d.output_symbol_for_state(at), Some(&()))?;
    let again = DfaCompiler::build(d, SymbolRangeDfaBuilder::new());
    eq("compiled again", matches_prepared(&v, &again), Some(v.len()))
}
fn tower(n: u64, k: u64) -> R {
    let v: Vec<u8> = vec![1; n as usize];
    let (a, b) = (k as usize % 3 + 1, k as usize % 2 + 1);
    let first = Tokenizer::new((&v).read_symbols(), exactly(&vec![1u8; a]));
    let low = first.map_symbols(|_: ()| 6u32);
    let mut t: TokenMatcher<u32, u8> = TokenMatcher::new();
    t.add_pattern(exactly(&vec![6u32; b]), 3);
    let second = Tokenizer::new(low, &t);
    eq("tokens", second.map(|t| t.0).collect::<Vec<_>>().len(), n as usize / a / b)
}
struct Own { left: u64, seen: u64, bad: Rc<Cell<bool>> }
static ANSWER: u32 = 12;
impl<'a> MatchingState<'a, u32, u32> for Own {
    fn next(mut self, s: u32) -> MatchAction<'a, u32, Self> {
        if s as u64 != self.seen { self.bad.set(true); }
        self.seen += 1;
        self.left -= 1;
        if self.left == 0 { Accept(self.seen as usize, &ANSWER) } else { More(self) }
    }
    fn finish(self) -> MatchAction<'a, u32, Self> { Accept(self.seen as usize + 1_000_000_000, &ANSWER) }
}
fn own(n: u64, left: u64) -> Result<(usize, bool, Option<u32>), String> {
    let v: Vec<u32> = (0..n as u32).collect();
    let bad = Rc::new(Cell::new(false));
    let mut r = (&v).read_symbols();
    match match_pattern(More(Own { left: left, seen: 0, bad: bad.clone() }), &mut r) { Accept(c, _) => Ok((c, bad.get(), SymbolReader::next_symbol(&mut r))), _ => Err("no answer".into()) }
}
fn own_matcher(n: u64, k: u64) -> R { eq("answer", own(n, n - k)?, ((n - k) as usize, false, if k == 0 { None } else { Some((n - k) as u32) })) }
fn own_matcher_ends(n: u64, k: u64) -> R { eq("answer", own(n, n + k + 1)?, (n as usize + 1_000_000_000, false, None)) }
