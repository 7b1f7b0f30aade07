//! C04 Pulling tokens by hand keeps position, end state and input consistent
use harness::common::*;
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::tok::*;
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Op { Token, Symbol, Skip, IterNext, Query }
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Make { Prepared, Owned, FromSet }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, pats: Vec<(Pat, u64)>, input: Vec<u64>, ops: Vec<Op>, make: Make }

fn drive<T: Sym, O: Out, R: SymbolReader<T>>(c: &Case, r: &mut RefDfa, nfa: &RefNfa, t: &mut Tokenizer<T, O, R>, obs: &mut Obs) -> Res {
    let w = &c.input;
    let (mut pos, mut end_seen) = (0usize, false);
    let (mut tokens, mut refused, mut lookahead) = (0, 0, 0);
    let mut i = 0;
    // After the given history the rest of the input is read alternately by token and skip, so that stale state shows
    let drain = w.len() * 2 + 4;
    while i < c.ops.len() + drain {
        let op = if i < c.ops.len() { c.ops[i] } else if i % 2 == 0 { Op::Token } else { Op::Skip };
        i += 1;
        let was = pos;
        let at = |what: &str| format!("operation {} ({}) at position {} of {}", i, what, was, show(w));
        let run = r.run_at(w, pos);
        let want = match run.best { Some((n, o)) if n > 0 => Some((pos, pos + n, o)), _ => None };
        match op {
            Op::Token => {
                let got = t.next_token().map(|(g, o)| (g.start, g.end, o.orank()));
                if got != want { return Err(format!("{}: got {:?}, expected {:?}", at("token read"), got, want)); }
                match want { Some((_, e, _)) => { let looked = run.dead_after.unwrap_or(w.len() - pos); if looked > e - pos + 1 { lookahead += 1 } pos = e; tokens += 1 } None => { if pos == w.len() { end_seen = true } else { refused += 1 } } }
            }
            Op::Symbol => {
                let got = SymbolReader::next_symbol(t).map(|o| o.orank());
                if got != want.map(|x| x.2) { return Err(format!("{}: got {:?}, expected {:?}", at("token read as a symbol"), got, want)); }
                match want { Some((_, e, _)) => { pos = e; tokens += 1 } None => { if pos == w.len() { end_seen = true } else { refused += 1 } } }
            }
            Op::Skip => {
                let got = t.skip_input().map(|s| s.rank());
                let want = w.get(pos).copied();
                if got != want { return Err(format!("{}: got {:?}, expected {:?}", at("skip"), got, want)); }
                if want.is_some() { pos += 1 } else { end_seen = true }
            }
            Op::IterNext => {
                let mut p = pos;
                let mut exp = None;
                while p < w.len() { match r.run_at(w, p).best { Some((n, o)) if n > 0 => { exp = Some((p, p + n, o)); break; } _ => p += 1 } }
                let got = Iterator::next(t).map(|(g, o)| (g.start, g.end, o.orank()));
                if got != exp { return Err(format!("{}: got {:?}, expected {:?}", at("iterator step"), got, exp)); }
                pos = match exp { Some((_, e, _)) => e, None => { end_seen = true; w.len() } };
            }
            Op::Query => {}
        }
        if t.get_source_position() != pos { return Err(format!("{}: afterwards the position is {}, expected {}", at(&format!("{:?}", op)), t.get_source_position(), pos)); }
        let e = t.at_end_of_reader();
        if e && pos < w.len() { return Err(format!("{}: the end is reported while symbols remain", at(&format!("{:?}", op)))); }
        if !e && pos == w.len() && end_seen { return Err(format!("{}: the end is not reported after a read at the end returned nothing", at(&format!("{:?}", op)))); }
    }
    let _ = nfa;
    obs.ran(i as u64);
    obs.label_if(lookahead > 0, "token found after look-ahead that failed");
    obs.label_if(refused > 0, "token read refused before the end");
    obs.label_if(w.len() > 60, "long input");
    obs.nontrivial = tokens >= 2 && (refused > 0 || lookahead > 0 || c.ops.contains(&Op::Skip));
    Ok(())
}

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let nfa = build_set(&c.pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    // (the two reference semantics must agree on this input)
    for p in [0, c.input.len() / 2] { expect_set(&c.pats, &nfa, &c.input[p..])?; }
    check_input::<T, O>(c, &nfa, &mut r, obs)
}
fn check_input<T: Sym, O: Out>(c: &Case, nfa: &RefNfa, r: &mut RefDfa, obs: &mut Obs) -> Res {
    let m = token_matcher::<T, O>(&c.pats);
    let items: Vec<T> = to_syms(&c.input);
    match c.make {
        Make::FromSet => { let mut t = Tokenizer::new((&items).read_symbols(), &m); drive(c, r, nfa, &mut t, obs) }
        Make::Owned => { let (src, _) = Counting::new(items); let mut t = Tokenizer::new(src, (&m).prepare_to_match()); drive(c, r, nfa, &mut t, obs) }
        Make::Prepared => {
            let dfa = (&m).prepare_to_match();
            let mut t = Tokenizer::new_prepared(VecReader::from_vec(items), &dfa);
            drive(c, r, nfa, &mut t, obs)
        }
    }
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char, String>(c, obs), Ty::I64 => check::<i64, RevOut>(c, obs), Ty::Pair => check::<Pair, u32>(c, obs), _ => check::<u8, u32>(c, obs) }
}

fn gen_len(src: &mut Src, parts: usize, limit: usize, ops: usize) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::I64, Ty::Pair]);
    let alpha = gen_small_alpha(src, ty);
    let pats = gen_tokens(src, &alpha);
    let input = gen_input(src, &pats, &alpha, max_rank(ty), parts, limit);
    let bias = src.below(3);
    let ops = src.list(0, ops, 30, |s| match bias {
        0 => *s.pick(&[Op::Token, Op::Skip, Op::Token, Op::Query, Op::Symbol, Op::IterNext]),
        1 => *s.pick(&[Op::Skip, Op::Skip, Op::Skip, Op::Token]),
        _ => *s.pick(&[Op::Token, Op::Token, Op::Symbol, Op::Skip]),
    });
    let make = *src.pick(&[Make::Prepared, Make::Owned, Make::FromSet]);
    Case { ty, pats, input, ops, make }
}
fn gen(src: &mut Src) -> Case { gen_len(src, 6, 60, 60) }
fn gen_long(src: &mut Src) -> Case { let k = if src.thorough { 4 } else { 1 }; gen_len(src, 60, 400 * k, 400 * k) }
/// Every operation sequence over small inputs for a few token sets
fn gen_exh(src: &mut Src) -> Case {
    let sets: [Vec<(Pat, u64)>; 5] = [
        vec![(Pat::Lit(vec![0]), 0), (Pat::Lit(vec![0, 0, 0, 1]), 1)],
        vec![(Pat::Star(1, Box::new(Pat::Lit(vec![0]))), 1), (Pat::Lit(vec![0]), 0)],
        vec![(Pat::Star(0, Box::new(Pat::Lit(vec![0]))), 0)],
        vec![(Pat::Lit(vec![0]), 2), (Pat::All(vec![Pat::Star(0, Box::new(Pat::Range(0, 1))), Pat::Lit(vec![1, 1])]), 1)],
        vec![],
    ];
    let pats = sets[src.below(5) as usize].clone();
    let n = src.below(6) as usize;
    let input = (0..n).map(|_| src.below(2)).collect();
    let k = src.below(5) as usize;
    let ops = (0..k).map(|_| [Op::Token, Op::Skip, Op::IterNext][src.below(3) as usize]).collect();
    Case { ty: Ty::U8, pats, input, ops, make: Make::Prepared }
}

/// Streams of tens of thousands of symbols, tokens as long
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct HCase { set: HugeSet, ops: Vec<Op>, make: Make }
fn test_huge(c: &HCase, obs: &mut Obs) -> Res {
    for w in &c.set.words {
        let k = Case { ty: c.set.ty, pats: c.set.pats(), input: expand(w), ops: c.ops.clone(), make: c.make };
        let nfa = build_set(&k.pats, false);
        let mut r = RefDfa::new(&nfa, max_rank(c.set.ty));
        if !cheap(&mut r, &k.input) { obs.label("skipped: too much look-ahead that fails"); continue; }
        let f = |o: &mut Obs| match k.ty { Ty::Char => check_input::<char, u32>(&k, &nfa, &mut RefDfa::new(&nfa, <char as Sym>::MAX), o), Ty::U32 => check_input::<u32, u32>(&k, &nfa, &mut RefDfa::new(&nfa, <u32 as Sym>::MAX), o), _ => check_input::<u8, u32>(&k, &nfa, &mut RefDfa::new(&nfa, <u8 as Sym>::MAX), o) };
        let was = obs.nontrivial;
        f(obs)?;
        obs.nontrivial |= was;
        obs.label_if(k.input.len() > 65_536, "more than 65536 symbols");
    }
    Ok(())
}
fn gen_hcase(src: &mut Src) -> HCase {
    let set = gen_huge_small(src);
    let ops = src.list(0, 40, 10, |s| *s.pick(&[Op::Token, Op::Skip, Op::Token, Op::Query, Op::Symbol, Op::IterNext]));
    HCase { set, ops, make: *src.pick(&[Make::Prepared, Make::Owned, Make::FromSet]) }
}

fn main() {
    main_with(Property {
        id: "C04",
        rule: "at least two tokens are read and the history also skips, is refused a token before the end, or has to back up after look-ahead that failed",
        assumptions: &["whether the end is reported when all symbols are consumed but no read has returned nothing yet is left open"],
        subs: vec![
            sub("short-histories-exhaustive", Mode::Exhaustive(400_000, 400_000), gen_exh, test),
            sub("random", Mode::Random(1_080_000, 4_320_000), gen, test),
            sub("long", Mode::Random(90_000, 360_000), gen_long, test),
            sub("huge", Mode::Random(60, 800), gen_hcase, test_huge),
            harness::deep_sub!("C04"),
        ],
    });
}
