//! C26 A token stream is a stream like any other
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::runner::*;
use harness::src::Src;
use harness::tok::*;
use concordance::*;
use serde::{Deserialize, Serialize};

/// What is put between one stage and the next
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Link { Plain, Boxed, Map(u32), Tape(u64, u64), Split(bool, u64), Collected }
/// A tokenizer (from the token set, or from a prepared matcher), what follows it, and how many outputs are taken off it first
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Stage { pats: Vec<(Pat, u64)>, prepared: bool, link: Link, take: u64 }
/// What is done with the last stage's outputs
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum End { Collect, OneByOne, Match, Scan, Hand, Tagged, Pair }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { input: Vec<u64>, stages: Vec<Stage>, last: Vec<(Pat, u64)>, end: End }

type R<'a> = Box<dyn SymbolReader<u32> + 'a>;

/// The outputs of the tokens from the start on, up to the first place where no token starts
fn prefix_tokens(pats: &[(Pat, u64)], w: &[u64]) -> Option<(Vec<u64>, usize)> {
    let nfa = build_set(pats, false);
    let mut r = RefDfa::new(&nfa, u32::MAX as u64);
    if !r.build(300) { return None; }
    let (mut pos, mut v) = (0, vec![]);
    while pos < w.len() { match r.run_at(w, pos).best { Some((n, o)) if n > 0 => { v.push(o); pos += n; } _ => break } }
    Some((v, pos))
}
fn short(v: &[u64]) -> String { show(v) }
fn ranks(v: Vec<u32>) -> Vec<u64> { v.into_iter().map(|x| x as u64).collect() }

fn go(mut r: R, expect: &[u64], stages: &[Stage], depth: usize, c: &Case, obs: &mut Obs) -> Res {
    let s = match stages.first() { Some(s) => s, None => return end(r, expect, depth, c, obs) };
    // Expected at this level: first the link, then the tokens
    let whole = expect;
    let after_link = |f: &dyn Fn(u64) -> u64| whole.iter().map(|x| f(*x)).collect::<Vec<u64>>();
    match &s.link {
        Link::Plain => stage(r, expect, s, stages, depth, c, obs),
        Link::Boxed => stage(Box::new(Box::new(r) as R), expect, s, stages, depth, c, obs),
        Link::Map(k) => { let k = *k; let e = after_link(&|x| (x as u32).wrapping_mul(3).wrapping_add(k) as u64 % 7); stage(Box::new(r.map_symbols(move |x: u32| x.wrapping_mul(3).wrapping_add(k) % 7)), &e, s, stages, depth, c, obs) }
        Link::Tape(a, b) => {
            let mut t = Tape::new(r);
            let a = (*a as usize).min(expect.len());
            for i in 0..a { let got = t.next_symbol(); if got != Some(expect[i] as u32) { return Err(format!("tape on stage {}: symbol {} is {:?}, expected {}", depth, i, got, expect[i])); } }
            let b = (*b as usize).min(a);
            t.rewind(b);
            stage(Box::new(t), &expect[a - b..], s, stages, depth, c, obs)
        }
        Link::Split(second, lead) => {
            let (x, y) = r.split();
            let (mut other, main) = if *second { (x, y) } else { (y, x) };
            let k = (*lead as usize).min(expect.len());
            for i in 0..k { let got = other.next_symbol(); if got != Some(expect[i] as u32) { return Err(format!("half of stage {}: symbol {} is {:?}, expected {}", depth, i, got, expect[i])); } }
            stage(Box::new(main), expect, s, stages, depth, c, obs)?;
            let rest = ranks(other.to_vec());
            if rest != expect[k..] { return Err(format!("the other half of stage {} continued with {}, expected {}", depth, short(&rest), short(&expect[k..]))); }
            Ok(())
        }
        Link::Collected => {
            let got = ranks(r.to_vec());
            if got != expect { return Err(format!("stage {} collected gives {}, expected {}", depth, short(&got), short(expect))); }
            for _ in 0..2 { let x = r.next_symbol(); if x.is_some() { return Err(format!("stage {}: {:?} came after the end", depth, x)); } }
            stage(Box::new(VecReader::from_vec(got.into_iter().map(|x| x as u32).collect())), expect, s, stages, depth, c, obs)
        }
    }
}
fn stage(r: R, input: &[u64], s: &Stage, stages: &[Stage], depth: usize, c: &Case, obs: &mut Obs) -> Res {
    let (outs, used) = match prefix_tokens(&s.pats, input) { Some(x) => x, None => { obs.label("skipped: reference automaton too large"); return Ok(()); } };
    let m = token_matcher::<u32, u32>(&s.pats);
    let dfa = (&m).prepare_to_match();
    let mut t = if s.prepared { Tokenizer::new_prepared(r, &dfa) } else { Tokenizer::new(r, &m) };
    let k = (s.take as usize).min(outs.len());
    for (i, want) in outs[..k].iter().enumerate() { let got = SymbolReader::next_symbol(&mut t); if got != Some(*want as u32) { return Err(format!("stage {}: output {} is {:?}, expected {}", depth, i, got, want)); } }
    obs.ran(outs.len() as u64);
    obs.label_if(used < input.len(), "a stage ends early because no token starts");
    if outs.len() >= 2 && depth > 0 { obs.nontrivial = true; }
    obs.label_if(depth >= 2 && !outs.is_empty(), "three or more stages with tokens");
    go(Box::new(t), &outs[k..], &stages[1..], depth + 1, c, obs)
}
fn end(mut r: R, expect: &[u64], depth: usize, c: &Case, obs: &mut Obs) -> Res {
    let nfa = build_set(&c.last, false);
    let mut rd = RefDfa::new(&nfa, u32::MAX as u64);
    if !rd.build(300) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let dfa = prepare_set::<u32, u32>(&c.last);
    let differ = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{} on {} stages: got {}, expected {}", what, depth, got, want)) };
    match c.end {
        End::Collect => { let got = ranks(r.to_vec()); differ("collecting", short(&got), short(expect))?; if got != expect { return Err("collected lists differ".into()); } }
        End::OneByOne => {
            for (i, w) in expect.iter().enumerate() { let g = r.next_symbol(); if g != Some(*w as u32) { return Err(format!("output {} of {} stages is {:?}, expected {}", i, depth, g, w)); } }
            for _ in 0..3 { let g = r.next_symbol(); if g.is_some() { return Err(format!("{:?} came after the end of {} stages", g, depth)); } }
        }
        End::Match => { let got = action_answer(match_pattern(dfa.start(), &mut r))?; differ("matching", format!("{:?}", got), format!("{:?}", rd.run_at(expect, 0).best))?; }
        End::Scan => {
            let got: Vec<(usize, usize, u64)> = Tokenizer::new_prepared(r, &dfa).map(|(p, o)| (p.start, p.end, o as u64)).take(expect.len() + 1).collect();
            differ("scanning", format!("{:?}", got), format!("{:?}", rd.scan(expect)))?;
        }
        End::Hand => {
            let mut t = Tokenizer::new_prepared(r, &dfa);
            let (mut got, mut left) = (vec![], 3 * expect.len() + 3);
            loop {
                left -= 1;
                if left == 0 { return Err("reading by hand does not come to an end".into()); }
                match t.next_token() { Some((p, o)) => got.push((p.start, p.end, o as u64)), None => if t.at_end_of_reader() { break } else { t.skip_input(); } }
            }
            if t.get_source_position() != expect.len() { return Err(format!("position {} at the end of {} outputs", t.get_source_position(), expect.len())); }
            differ("reading by hand", format!("{:?}", got), format!("{:?}", rd.scan(expect)))?;
        }
        End::Tagged => {
            let t: TaggedStream<u32, u32> = TaggedStream::from_tokenized_reader(&mut r, &dfa);
            let (mut want, mut at) = (vec![], 0);
            for (a, b, o) in rd.scan(expect) { for x in &expect[at..a] { want.push((None, vec![*x])); } want.push((Some(o), expect[a..b].to_vec())); at = b; }
            for x in &expect[at..] { want.push((None, vec![*x])); }
            let got: Vec<(Option<u64>, Vec<u64>)> = (&t).read_symbols().to_vec().into_iter().map(|s| match s {
                TagSymbol::Untagged(x) => (None, vec![x as u64]),
                TagSymbol::Tagged(o, inner) => (Some(o as u64), (0..inner.len()).map(|i| match &inner[i] { TagSymbol::Untagged(x) => *x as u64, _ => u64::MAX }).collect()),
            }).collect();
            differ("tagging", format!("{:?}", got), format!("{:?}", want))?;
        }
        End::Pair => {
            // Two matchers on the two halves, one after the other
            let (mut a, mut b) = r.split();
            let want = format!("{:?}", rd.run_at(expect, 0).best);
            differ("matching the first half", format!("{:?}", action_answer(match_pattern(dfa.start(), &mut a))?), want.clone())?;
            drop(a);
            differ("matching the second half", format!("{:?}", action_answer(match_pattern(dfa.start(), &mut b))?), want)?;
        }
    }
    obs.ran(expect.len() as u64 + 1);
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { go(Box::new(VecReader::from_vec(c.input.iter().map(|x| *x as u32).collect())), &c.input, &c.stages, 0, c, obs) }

/// A token set that takes most inputs over the alphabet, with few outputs so that the next stage has something to work on
fn stage_pats(src: &mut Src, alpha: &[u64]) -> Vec<(Pat, u64)> {
    let mut v = gen_tokens(src, alpha);
    for t in v.iter_mut() { t.1 %= 4; }
    if src.chance(7, 8) { let all = src.chance(4, 5); for a in alpha { if all || src.chance(5, 6) { v.push((Pat::Lit(vec![*a]), a % 5)); } } }
    v
}
fn gen_link(src: &mut Src) -> Link {
    match src.weighted(&[4, 2, 2, 3, 3, 1]) { 0 => Link::Plain, 1 => Link::Boxed, 2 => Link::Map(src.below(9) as u32), 3 => Link::Tape(src.below(14), src.below(14)), 4 => Link::Split(src.chance(1, 2), src.below(12)), _ => Link::Collected }
}
fn gen_of(src: &mut Src, max_stages: usize, parts: usize, limit: usize) -> Case {
    let n = src.range(1, 4);
    let mut alpha: Vec<u64> = (0..n).collect();
    let mut stages: Vec<Stage> = vec![];
    let k = if src.below(8) == 0 { 1 } else { src.usize(2, max_stages) };
    let mut first = alpha.clone();
    for i in 0..k {
        let link = gen_link(src);
        if let Link::Map(k) = link { alpha = alpha.iter().map(|x| (3 * x + k as u64) % 7).collect::<std::collections::BTreeSet<_>>().into_iter().collect(); }
        if i == 0 { first = alpha.clone(); }
        let pats = stage_pats(src, &alpha);
        alpha = pats.iter().map(|p| p.1).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        stages.push(Stage { pats, prepared: src.chance(1, 2), link, take: if src.chance(1, 4) { src.below(5) } else { 0 } });
    }
    let mut input = gen_input(src, &stages[0].pats, &first, 1000, parts, limit);
    if let Link::Map(k) = stages[0].link { for x in input.iter_mut() { if *x < 7 { *x = (*x + 70 - k as u64) * 5 % 7 } } }
    let last = gen_tokens(src, &alpha);
    let end = *src.pick(&[End::Collect, End::OneByOne, End::Match, End::Scan, End::Hand, End::Tagged, End::Pair]);
    Case { input, stages, last, end }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 3, 10, 60) }
fn gen_long(src: &mut Src) -> Case { gen_of(src, 3, 200, if src.thorough { 8000 } else { 1500 }) }
fn gen_deep(src: &mut Src) -> Case { gen_of(src, 8, 24, 200) }

fn main() {
    main_with(Property {
        id: "C26",
        rule: "the second or a later stage yields at least two tokens",
        assumptions: &["stages whose reference automaton has more than 300 subset states are skipped"],
        subs: vec![
            sub("random", Mode::Random(450_000, 1_800_000), gen, test),
            sub("long", Mode::Random(18_000, 72_000), gen_long, test),
            sub("many-stages", Mode::Random(90_000, 360_000), gen_deep, test),
            harness::deep_sub!("C26"),
        ],
    });
}
