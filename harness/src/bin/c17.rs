//! C17 Tokenising a tagged stream tags exactly the tokens of its mapped symbols
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::tok::*;
use harness::tree::*;
use concordance::*;
use serde::{Deserialize, Serialize};

/// One pass: the token set, and how elements are mapped onto its symbols
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Level { pats: Vec<(Pat, u64)>, base: u64, k: u64, k2: u64, by_len: bool, on_result: bool }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: u8, input: Vec<u64>, levels: Vec<Level> }

fn map_node(l: &Level, n: &Node, calls: usize) -> u64 {
    let _ = calls;
    l.base + match n { Node::U(x) => x % l.k, Node::T(t, v) => l.k + (t + if l.by_len { v.len() as u64 } else { 0 }) % l.k2 }
}
fn check<B: Sym, D: Sym, G: Out>(c: &Case, obs: &mut Obs) -> Res {
    let mut s: TaggedStream<B, G> = from_ranks(&c.input);
    let mut m: Vec<Node> = c.input.iter().map(|x| Node::U(*x)).collect();
    let (mut untouched, mut multi) = (false, false);
    let mut deep = 0;
    for (i, l) in c.levels.iter().enumerate() {
        let nfa = build_set(&l.pats, false);
        let mut r = RefDfa::new(&nfa, D::MAX);
        if !r.build(400) { obs.label("level skipped: reference automaton too large"); continue; }
        let dfa: SymbolRangeDfa<D, G> = prepare_set(&l.pats);
        let mapped: Vec<u64> = m.iter().map(|n| map_node(l, n, 0)).collect();
        let toks: Vec<(usize, usize, u64)> = r.scan(&mapped);
        let want = tagged(&m, &toks);
        let mut log: Vec<Node> = vec![];
        let res = s.tokenize(&dfa, |x: TagSymbol<B, G>| { let n = node_of(&x); let k = map_node(l, &n, log.len()); log.push(n); D::of(k) });
        if log != m { return Err(format!("level {}: the mapping was applied to {:?}, expected every element once in order: {:?}", i, log, m)); }
        same(&format!("level {}: symbols {}", i, show(&mapped)), &res, &want)?;
        same(&format!("level {}: the original", i), &s, &m)?;
        obs.ran(1);
        // A mapping that depends on how often it was called makes repeated or reordered calls visible in the result too
        if i == 0 {
            let mapped2: Vec<u64> = (0..m.len()).map(|j| l.base + (mapped[j] - l.base + j as u64) % (l.k + l.k2)).collect();
            let want2 = tagged(&m, &r.scan(&mapped2));
            let mut j = 0;
            let res2 = s.tokenize(&dfa, |x: TagSymbol<B, G>| { let k = l.base + (map_node(l, &node_of(&x), j) - l.base + j as u64) % (l.k + l.k2); j += 1; D::of(k) });
            same("a mapping with state", &res2, &want2)?;
            obs.ran(1);
        }
        untouched |= want.len() > toks.len() && !toks.is_empty();
        multi |= toks.len() >= 2;
        if flatten(&read_index(&res)) != c.input { return Err(format!("level {}: flattened, the result is {:?}", i, flatten(&read_index(&res)))); }
        if l.on_result { s = res; m = want; }
        deep = deep.max(depth(&m));
    }
    // Straight from a reader, with tokens over the base symbols
    if let Some(l) = c.levels.first() {
        let nfa = build_set(&l.pats, false);
        let mut r = RefDfa::new(&nfa, B::MAX);
        if l.base + l.k + l.k2 <= B::MAX && r.build(400) {
            let dfa: SymbolRangeDfa<B, G> = prepare_set(&l.pats);
            let ranks: Vec<u64> = c.input.iter().map(|x| l.base + x % l.k).collect();
            let v: Vec<B> = to_syms(&ranks);
            let plain: Vec<Node> = ranks.iter().map(|x| Node::U(*x)).collect();
            let want = tagged(&plain, &r.scan(&ranks));
            let direct: TaggedStream<B, G> = TaggedStream::from_tokenized_reader(&mut (&v).read_symbols(), &dfa);
            same("from_tokenized_reader", &direct, &want)?;
            let two: TaggedStream<B, G> = TaggedStream::from_reader(&mut VecReader::from_vec(v)).tokenize(&dfa, |x| match x { TagSymbol::Untagged(b) => b, TagSymbol::Tagged(..) => panic!("there are no tags yet") });
            if direct != two { return Err(format!("from_tokenized_reader gives {:?}, reading first and tokenising after gives {:?}", read_index(&direct), read_index(&two))); }
            obs.ran(2);
        }
    }
    obs.label_if(deep >= 2, "tags nested two deep");
    obs.label_if(deep >= 3, "tags nested three deep");
    obs.label_if(multi, "several tokens at one level");
    obs.nontrivial = untouched && multi;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty % 4 { 0 => check::<u8, u8, u32>(c, obs), 1 => check::<char, u32, String>(c, obs), 2 => check::<u8, Pair, RevOut>(c, obs), _ => check::<i64, char, i64>(c, obs) }
}
fn gen_level(src: &mut Src) -> Level {
    let base = src.below(90);
    let k = src.range(1, 4); let k2 = src.range(1, 3);
    let alpha: Vec<u64> = (base..base + k + if src.chance(2, 3) { k2 } else { 0 }).collect();
    let pats = gen_tokens(src, &alpha);
    Level { pats, base, k, k2, by_len: src.chance(1, 3), on_result: src.chance(5, 6) }
}
fn gen_of(src: &mut Src, levels: usize, len: usize) -> Case {
    let levels: Vec<Level> = src.list(1, levels, 3, gen_level);
    let l = &levels[0];
    let alpha: Vec<u64> = (l.base..l.base + l.k).collect();
    // Inputs made of fragments of the first level's tokens
    let input: Vec<u64> = gen_input(src, &l.pats, &alpha, l.base + l.k, 10, len).iter().map(|x| (x % 200).saturating_sub(l.base) % 100).collect();
    Case { ty: src.below(4) as u8, input, levels }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 5, 50) }
fn gen_long(src: &mut Src) -> Case { gen_of(src, 4, 800) }
/// Every input of up to 5 (7) symbols over three, under every pair of a few token sets applied one after the other
fn gen_exh(src: &mut Src) -> Case {
    let n = src.below(if src.thorough { 8 } else { 6 });
    let input = (0..n).map(|_| src.below(3)).collect();
    let mut sets = || -> Vec<(Pat, u64)> { match src.below(6) {
        0 => vec![(Pat::Lit(vec![0]), 0)],
        1 => vec![(Pat::Star(1, Box::new(Pat::Lit(vec![1]))), 1)],
        2 => vec![(Pat::Lit(vec![0, 1]), 0), (Pat::Range(0, 1), 1)],
        3 => vec![(Pat::Lit(vec![0]), 0), (Pat::Lit(vec![0, 1, 0, 2]), 1)],
        4 => vec![(Pat::Star(0, Box::new(Pat::Range(0, 3))), 0)],
        _ => vec![(Pat::All(vec![Pat::Range(3, 4), Pat::Range(0, 4)]), 2), (Pat::Lit(vec![2, 2]), 0)],
    } };
    let a = sets(); let b = sets();
    let l = |p, by_len| Level { pats: p, base: 0, k: 3, k2: 2, by_len, on_result: true };
    Case { ty: 0, input, levels: vec![l(a, false), l(b, true)] }
}
/// Streams of tens of thousands of elements
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res {
    let pats = c.pats();
    let dfa: SymbolRangeDfa<u32, u32> = prepare_set(&pats);
    let nfa = build_set(&pats, false);
    for w in c.words() {
        let mut r = RefDfa::new(&nfa, <u32 as Sym>::MAX);
        if !cheap(&mut r, &w) { obs.label("skipped: too much look-ahead that fails"); continue; }
        let toks = r.scan(&w);
        let m: Vec<Node> = w.iter().map(|x| Node::U(*x)).collect();
        let want = tagged(&m, &toks);
        let v: Vec<u32> = to_syms(&w);
        let direct: TaggedStream<u32, u32> = TaggedStream::from_tokenized_reader(&mut (&v).read_symbols(), &dfa);
        same_huge("from_tokenized_reader", &direct, &want)?;
        let s: TaggedStream<u32, u32> = from_ranks(&w);
        let mut n = 0usize;
        let mut bad = None;
        let res = s.tokenize(&dfa, |x| { if node_of(&x) != m[n.min(m.len() - 1)] { bad.get_or_insert(n); } n += 1; match x { TagSymbol::Untagged(b) => b, TagSymbol::Tagged(..) => 0 } });
        if n != m.len() || bad.is_some() { return Err(format!("the mapping was applied {} times to {} elements; first wrong one: {:?}", n, m.len(), bad)); }
        same_huge("tokenize", &res, &want)?;
        // Tokens become symbols of a second pass: their lengths
        let d2: SymbolRangeDfa<u32, u32> = prepare_set(&[(Pat::Star(1, Box::new(Pat::Range(65_536, u32::MAX as u64))), 1), (Pat::Star(1, Box::new(Pat::Range(2, 65_535))), 2)]);
        let len = |n: &Node| match n { Node::U(_) => 0u64, Node::T(_, v) => v.len() as u64 };
        let nfa2 = build_set(&[(Pat::Star(1, Box::new(Pat::Range(65_536, u32::MAX as u64))), 1), (Pat::Star(1, Box::new(Pat::Range(2, 65_535))), 2)], false);
        let lens: Vec<u64> = want.iter().map(len).collect();
        let want2 = tagged(&want, &RefDfa::new(&nfa2, <u32 as Sym>::MAX).scan(&lens));
        let res2 = res.tokenize(&d2, |x| match x { TagSymbol::Untagged(_) => 0, TagSymbol::Tagged(_, s) => s.len() as u32 });
        same_huge("tokenised by the lengths of the tokens", &res2, &want2)?;
        obs.ran(3);
        obs.label_if(toks.iter().any(|t| t.1 - t.0 > 65_535), "a token of more than 65535 symbols");
        obs.label_if(w.len() > 65_536, "more than 65536 symbols");
        obs.nontrivial |= w.len() > 240 && toks.len() >= 2;
    }
    Ok(())
}
fn same_huge<B: Sym, G: Out>(what: &str, s: &TaggedStream<B, G>, m: &[Node]) -> Res {
    let v = read_index(s);
    if v == m { Ok(()) } else { let i = (0..).find(|i| v.get(*i) != m.get(*i)).unwrap(); Err(format!("{}: {} elements, expected {}; they differ at {}", what, v.len(), m.len(), i)) }
}

fn main() {
    main_with(Property {
        id: "C17",
        rule: "at some level tokens were tagged while other elements stayed as they were, and at some level two or more tokens were tagged",
        assumptions: &["levels whose reference automaton has more than 400 subset states are skipped"],
        subs: vec![
            sub("short-exhaustive", Mode::Exhaustive(200_000, 2_000_000), gen_exh, test),
            sub("random", Mode::Random(360_000, 1_440_000), gen, test),
            sub("long", Mode::Random(36_000, 144_000), gen_long, test),
            sub("huge", Mode::Random(60, 800), gen_huge_small, test_huge),
            harness::deep_sub!("C17"),
        ],
    });
}
