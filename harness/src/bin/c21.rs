//! C21 All ways of preparing and running a pattern agree, and reuse is pure
use harness::common::*;
use harness::lib_api::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::rc::Rc;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, pat: Pat, words: Vec<Vec<u64>>, order: Vec<u64> }

type Dfa<T> = SymbolRangeDfa<T, ()>;

/// Every route from the pattern to a prepared matcher
fn routes<T: Sym>(p: &Pat) -> Vec<(&'static str, Dfa<T>)> {
    let lib = p.to_lib::<T>();
    let mut v: Vec<(&'static str, Dfa<T>)> = vec![];
    v.push(("the pattern", lib.clone().prepare_to_match()));
    v.push(("a reference to the pattern", { let r: &dyn ToPattern<T> = &lib; r.prepare_to_match() }));
    v.push(("a reference to a boxed pattern", { let b = Box::new(lib.clone()); let r: &dyn ToPattern<T> = &b; r.prepare_to_match() }));
    v.push(("the pattern's state machine", lib.to_ndfa(()).prepare_to_match()));
    v.push(("the state machine of a reference", { let r: &dyn ToPattern<T> = &lib; r.to_ndfa(()).prepare_to_match() }));
    v.push(("a token set with only it", { let mut m = TokenMatcher::new(); m.add_pattern(lib.clone(), ()); (&m).prepare_to_match() }));
    v.push(("a token set with only it, boxed", { let mut m = TokenMatcher::new(); m.add_pattern(Box::new(lib.clone()), ()); m.to_ndfa().prepare_to_match() }));
    v.push(("the compiler", DfaCompiler::build(lib.to_ndfa(()), SymbolRangeDfaBuilder::new())));
    v.push(("the compiler, made first", DfaCompiler::new(lib.to_ndfa(()), SymbolRangeDfaBuilder::new()).compile()));
    let by_hand = |start: StateId| {
        let mut n: Ndfa<SymbolRange<T>, ()> = Ndfa::new();
        if start > 0 { n.create_state(start); n.join_states(0, start); }
        let end = lib.compile(&mut n, start);
        n.set_output_symbol(end, ());
        n.fix_overlapping_ranges();
        n
    };
    v.push(("a machine built by hand", DfaCompiler::build(by_hand(0), SymbolRangeDfaBuilder::new())));
    v.push(("a machine built by hand from another state", { let b: Box<dyn StateMachine<SymbolRange<T>, ()>> = Box::new(by_hand(3)); b.prepare_to_match() }));
    v.push(("a shared machine built by hand", { let r: Rc<dyn StateMachine<SymbolRange<T>, ()>> = Rc::new(by_hand(0)); DfaCompiler::build(r.clone(), SymbolRangeDfaBuilder::new()) }));
    v.push(("an already prepared matcher", lib.clone().prepare_to_match().prepare_to_match()));
    v.push(("a copy of a prepared matcher", { let d: Dfa<T> = lib.clone().prepare_to_match(); let c = d.clone(); drop(d); c }));
    v.push(("exactly()", exactly(&lib).prepare_to_match()));
    if let Pat::Lit(x) = p {
        let s: Vec<T> = to_syms(x);
        v.push(("a reference to a vector", { let r: &dyn ToPattern<T> = &s; r.prepare_to_match() }));
        v.push(("a slice's state machine", s[..].to_ndfa(()).prepare_to_match()));
        v.push(("a token set with a vector", { let mut m = TokenMatcher::new(); m.add_pattern(s.clone(), ()); (&m).prepare_to_match() }));
        v.push(("exactly() of a slice", exactly(&s[..]).prepare_to_match()));
        let b: Box<dyn Any> = Box::new(s);
        if let Ok(c) = b.downcast::<Vec<char>>() {
            let text: String = c.iter().collect();
            for (n, d) in [("a string", (&text[..]).prepare_to_match()), ("a string's state machine", text[..].to_ndfa(()).prepare_to_match()), ("exactly() of a string", exactly(&text[..]).prepare_to_match())] {
                let d: Dfa<char> = d;
                v.push((n, *(Box::new(d) as Box<dyn Any>).downcast::<Dfa<T>>().expect("same type")));
            }
        }
    }
    v
}

fn len_of<'a, S>(a: MatchAction<'a, (), S>) -> Result<Option<usize>, String> { match a { Accept(n, _) => Ok(Some(n)), Reject => Ok(None), More(_) => Err("matching ended in `More`".into()) } }
/// Every way of running a prepared matcher on a word
fn runs<T: Sym>(d: &Dfa<T>, w: &[u64], route: usize) -> Result<Vec<(&'static str, Option<usize>)>, String> {
    let v: Vec<T> = to_syms(w);
    let mut r: Vec<(&'static str, Option<usize>)> = vec![];
    r.push(("matches_prepared", matches_prepared(&v, d)));
    r.push(("match_pattern over a vector", len_of(match_pattern(d.start(), &mut (&v).read_symbols()))?));
    r.push(("match_pattern over an owned vector", len_of(match_pattern(d.start(), &mut VecReader::from_vec(v.clone())))?));
    r.push(("stepping by hand", { let mut a = d.start(); for s in &v { a = match a { More(st) => st.next(s.clone()), x => x }; } if let More(st) = a { a = st.finish() } len_of(a)? }));
    if route % 3 == 0 {
        r.push(("matches with the prepared matcher", matches(&v, d.clone())));
        r.push(("match_pattern over an own reader", len_of(match_pattern(d.start(), &mut Counting::new(v.clone()).0))?));
        r.push(("match_pattern over a tape", { let mut t = Tape::new((&v).read_symbols()); for _ in 0..v.len() / 2 { t.next_symbol(); } t.rewind(v.len() / 2); len_of(match_pattern(d.start(), &mut t))? }));
        r.push(("match_pattern over a split reader", { let mut s = (&v).read_symbols(); let (a, mut b) = s.split(); b.next_symbol(); let mut m = a.map_symbols(|x| x); len_of(match_pattern(d.start(), &mut m))? }));
        r.push(("match_pattern over a boxed reader", { let mut b: Box<dyn SymbolReader<T>> = Box::new(VecReader::from_vec(v.clone())); len_of(match_pattern(d.start(), &mut b))? }));
        r.push(("match_pattern over a filtered iterator", len_of(match_pattern(d.start(), &mut v.iter().filter_map(|x| Some(x.clone()))))?));
        r.push(("the first token", { let mut t = Tokenizer::new_prepared(VecReader::from_vec(v.clone()), d); match t.next_token() { Some((g, ())) => { if g.start != 0 { return Err(format!("first token at {:?}", g)); } Some(g.end) } None => None } }));
        let (dc, wc): (&dyn Any, &dyn Any) = (d, &v);
        if let (Some(d), Some(w)) = (dc.downcast_ref::<Dfa<char>>(), wc.downcast_ref::<Vec<char>>()) {
            let s: String = w.iter().collect();
            r.push(("matches_prepared over a string", matches_prepared(&s[..], d)));
            r.push(("matches over a string", matches(&s[..], d.clone())));
            r.push(("match_pattern over a string", len_of(match_pattern(d.start(), &mut s[..].read_symbols()))?));
        }
        if let (Some(d), Some(w)) = (dc.downcast_ref::<Dfa<u8>>(), wc.downcast_ref::<Vec<u8>>()) {
            r.push(("match_pattern over bytes", len_of(match_pattern(d.start(), &mut ByteSymbolReader::from(&w[..])))?));
        }
    }
    Ok(r)
}
fn check<T: Sym>(c: &Case, obs: &mut Obs) -> Res {
    let pats = [(c.pat.clone(), 0u64)];
    let nfa = build_set(&pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(300) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let routes = routes::<T>(&c.pat);
    let mut words = c.words.clone();
    if let Some((_, d)) = routes.first() {
        // Words that cover the matcher, under the () output
        let d2: SymbolRangeDfa<T, u32> = c.pat.to_lib::<T>().to_ndfa(0u32).prepare_to_match();
        let _ = d;
        words.extend(cover_words(&d2, &mut r, 300, 16).0);
    }
    let want: Vec<Option<usize>> = words.iter().map(|w| expect_set(&pats, &nfa, w).map(|a| a.map(|x| x.0))).collect::<Result<_, _>>()?;
    let (mut hit, mut other) = (0, 0);
    for x in words.iter().zip(&want) { match x.1 { Some(n) => { hit += 1; if *n < x.0.len() { other += 1 } } None => other += 1 } }
    for (i, (name, d)) in routes.iter().enumerate() {
        for (w, want) in words.iter().zip(&want) {
            for (how, got) in runs(d, w, i + w.len())? {
                // A token is never empty
                let expected = if how == "the first token" { want.filter(|n| *n > 0) } else { *want };
                if got != expected { return Err(format!("prepared from {}, run by {}: word {}: {:?}, expected {:?}", name, how, show(w), got, expected)); }
                obs.ran(1);
            }
        }
    }
    // matches() with the pattern itself
    if let Some((w, want)) = words.first().zip(want.first()) {
        let v: Vec<T> = to_syms(w);
        let got = matches(&v, c.pat.to_lib::<T>());
        if got != *want { return Err(format!("matches with the pattern: word {}: {:?}, expected {:?}", show(w), got, want)); }
        let lib = c.pat.to_lib::<T>();
        let got = matches(&v, { let r: &dyn ToPattern<T> = &lib; r });
        if got != *want { return Err(format!("matches with a reference to the pattern: word {}: {:?}, expected {:?}", show(w), got, want)); }
    }
    // One matcher used over and over, in any order, with matches begun and left
    if let Some((_, d)) = routes.get(c.order.len() % routes.len()) {
        let mut open = vec![];
        for o in &c.order {
            let i = *o as usize % words.len();
            let v: Vec<T> = to_syms(&words[i]);
            match o % 5 {
                0 => { let mut a = d.start(); for s in v.iter().take(v.len() / 2) { a = match a { More(st) => st.next(s.clone()), x => x }; } open.push((a, i, v.len() / 2)); }
                1 if !open.is_empty() => {
                    let (mut a, j, at) = open.remove(0);
                    let v: Vec<T> = to_syms(&words[j]);
                    for s in &v[at..] { a = match a { More(st) => st.next(s.clone()), x => x }; }
                    if let More(st) = a { a = st.finish() }
                    let got = len_of(a)?;
                    if got != want[j] { return Err(format!("a match begun earlier and finished later: word {}: {:?}, expected {:?}", show(&words[j]), got, want[j])); }
                }
                _ => { let got = matches_prepared(&v, d); if got != want[i] { return Err(format!("after other uses: word {}: {:?}, expected {:?}", show(&words[i]), got, want[i])); } }
            }
            obs.ran(1);
        }
    }
    obs.nontrivial = hit > 0 && other > 0 && c.order.len() >= 3;
    obs.label_if(matches!(c.pat, Pat::Lit(_)), "literal");
    obs.label_if(c.pat.nullable(), "nullable");
    obs.label_if(c.pat.loops() > 0, "repetition");
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { match c.ty { Ty::Char => check::<char>(c, obs), Ty::I64 => check::<i64>(c, obs), Ty::Pair => check::<Pair>(c, obs), _ => check::<u8>(c, obs) } }
fn gen(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::Char, Ty::U8, Ty::I64, Ty::Pair]);
    let alpha = if src.chance(1, 4) { gen_alphabet(src, ty, 7) } else { let n = src.range(1, 4); let b = if ty == Ty::Char { 97 } else { 20 }; (b..b + n).collect() };
    let pat = if src.chance(1, 5) { Pat::Lit(src.list(0, 10, 4, |s| *s.pick(&alpha))) } else { gen_pat(src, &alpha, SMALL) };
    let pats = [(pat.clone(), 0)];
    let words = src.list(1, 5, 4, |s| gen_word(s, &pats, &alpha, max_rank(ty), 20));
    let order = src.list(0, 20, 8, |s| s.below(1000));
    Case { ty, pat, words, order }
}
fn gen_exh(src: &mut Src) -> Case {
    let pat = enum_pat(src, if src.thorough { 5 } else { 4 }, 2);
    Case { ty: Ty::Char, pat, words: all_words(2, 4), order: vec![5, 11, 0, 3, 17, 1, 6, 10, 2, 21, 30, 31] }
}
/// Patterns and inputs of tens of thousands, by every route
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, u32>(c, obs, &|pats, _, _, words, want, obs| {
        for (i, (name, d)) in routes::<T>(&pats[0].0).iter().enumerate() {
            let k = i % words.len();
            for (how, got) in runs(d, &words[k], i)? {
                let expected = if how == "the first token" { want[k].map(|a| a.0).filter(|n| *n > 0) } else { want[k].map(|a| a.0) };
                if got != expected { return Err(format!("prepared from {}, run by {}: word {}: {:?}, expected {:?}", name, how, show(&words[k]), got, expected)); }
                obs.ran(1);
            }
        }
        Ok(())
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }
/// One pattern after another in the same place: buffers written over, variables assigned again, allocations taken over
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Reuse { steps: Vec<(u8, Vec<u8>, Vec<u8>)> }
fn test_reuse(c: &Reuse, obs: &mut Obs) -> Res {
    let mut text = String::with_capacity(64);
    let mut input = String::with_capacity(64);
    let mut bytes: Vec<u8> = Vec::with_capacity(64);
    let mut pattern: Pattern<char> = Epsilon;
    let mut set: TokenMatcher<char, ()> = TokenMatcher::new();
    let mut prepared: Dfa<char> = "".prepare_to_match();
    let mut boxed: Box<Dfa<char>> = Box::new(prepared.clone());
    let mut machine: Box<dyn StateMachine<SymbolRange<char>, ()>> = text[..].to_ndfa(());
    let (mut hit, mut miss) = (0, 0);
    for (i, (kind, lit, word)) in c.steps.iter().enumerate() {
        let ch = |x: &u8| (b'a' + x % 3) as char;
        text.clear(); text.extend(lit.iter().map(ch));
        input.clear(); input.extend(word.iter().map(ch));
        bytes.clear(); bytes.extend(lit.iter().map(|x| b'a' + x % 3));
        let once = if input.starts_with(&text[..]) { Some(text.len()) } else { None };
        // One or more copies
        let many = once.map(|n| if n == 0 { 0 } else { let mut k = n; while input[k..].starts_with(&text[..]) { k += n; } k });
        let (how, got, want): (&str, Option<usize>, Option<usize>) = match kind % 12 {
            0 => ("matches with a string", matches(&input[..], &text[..]), once),
            1 => { prepared = (&text[..]).prepare_to_match(); ("a string prepared", matches_prepared(&input[..], &prepared), once) }
            2 => { prepared = exactly(&text[..]).prepare_to_match(); ("exactly() prepared", matches_prepared(&input[..], &prepared), once) }
            3 => { pattern = (&text[..]).into_pattern(); ("a pattern", matches(&input[..], { let r: &dyn ToPattern<char> = &pattern; r }), once) }
            4 => { pattern = exactly(&text[..]).repeat_forever(1); ("a repetition", matches(&input[..], pattern.clone()), many) }
            5 => { *boxed = exactly(&text[..]).repeat_forever(1).prepare_to_match(); ("a repetition prepared in a box", matches_prepared(&input[..], &boxed), many) }
            6 => { set = TokenMatcher::new(); set.add_pattern(exactly(&text[..]), ()); ("a token set", matches(&input[..], &set), once) }
            7 => { machine = text[..].to_ndfa(()); let d = DfaCompiler::build(std::mem::replace(&mut machine, Box::new(Ndfa::new())), SymbolRangeDfaBuilder::new()); ("a state machine", matches_prepared(&input[..], &d), once) }
            8 => { let w: Vec<u8> = input.bytes().collect(); ("a byte vector", matches(&w, { let r: &dyn ToPattern<u8> = &bytes; r }), once) }
            9 => { let w: Vec<u8> = input.bytes().collect(); ("a byte slice", matches(&w, exactly(&bytes[..])), once) }
            10 => { boxed = Box::new((&text[..]).prepare_to_match()); let t = Tokenizer::new_prepared(input[..].read_symbols(), &*boxed).next_token(); ("a token", t.map(|t| t.0.end), once.filter(|n| *n > 0)) }
            _ => { prepared = exactly(&text[..]).repeat_forever(1).prepare_to_match(); let t: Vec<_> = Tokenizer::new_prepared(input[..].read_symbols(), &prepared).collect(); ("the first of all tokens", t.first().filter(|t| t.0.start == 0).map(|t| t.0.end), many.filter(|n| *n > 0)) }
        };
        if got != want { return Err(format!("step {}: {} {:?} on {:?}: {:?}, expected {:?}", i, how, text, input, got, want)); }
        if want.is_some() { hit += 1 } else { miss += 1 }
        obs.ran(1);
    }
    let _ = (&pattern, &set, &machine);
    obs.nontrivial = hit >= 2 && miss >= 1;
    Ok(())
}
fn gen_reuse(src: &mut Src) -> Reuse {
    let len = src.range(1, 3) as usize;
    let few = src.chance(1, 2);
    let kinds = [src.below(12) as u8, src.below(12) as u8];
    let steps = src.list(2, 14, 6, |s| {
        let kind = if few { *s.pick(&kinds) } else { s.below(12) as u8 };
        let n = if s.chance(1, 6) { s.usize(0, 4) } else { len };
        let lit: Vec<u8> = (0..n).map(|_| s.below(2) as u8).collect();
        let mut word: Vec<u8> = vec![];
        while s.chance(2, 3) && word.len() < 12 { word.extend(&lit); if lit.is_empty() { break; } }
        for _ in 0..s.below(3) { word.push(s.below(3) as u8); }
        (kind, lit, word)
    });
    Reuse { steps }
}
/// One prepared matcher used by several threads at once (where its type can be shared between threads)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Shared { ty: Ty, pats: Vec<(Pat, u64)>, words: Vec<Vec<u64>>, starts: Vec<u64> }
struct Share<'a, D>(&'a D);
trait NotShared { fn threads<A>(&self, _: &[usize], _: A) -> Option<Vec<Res>> { None } }
impl<'a, D> NotShared for Share<'a, D> {}
impl<'a, D: Sync> Share<'a, D> {
    fn threads<A: Fn(&D, usize) -> Res + Sync>(&self, starts: &[usize], run: A) -> Option<Vec<Res>> {
        let d: &D = self.0;
        let gate = std::sync::Barrier::new(starts.len());
        let (run, gate) = (&run, &gate);
        Some(std::thread::scope(|s| {
            let all: Vec<_> = starts.iter().map(|k| s.spawn(move || { gate.wait(); run(d, *k) })).collect();
            all.into_iter().map(|t| t.join().unwrap_or_else(|p| Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))).collect()
        }))
    }
}
macro_rules! shared {
    ($t:ty, $c:expr, $obs:expr) => {{
        let c: &Shared = $c;
        let obs: &mut Obs = $obs;
        let nfa = build_set(&c.pats, false);
        let want: Vec<Answer> = c.words.iter().map(|w| expect_set(&c.pats, &nfa, w)).collect::<Result<_, _>>()?;
        let words: Vec<Vec<$t>> = c.words.iter().map(|w| to_syms(w)).collect();
        let d: SymbolRangeDfa<$t, u32> = prepare_set(&c.pats);
        let starts: Vec<usize> = c.starts.iter().map(|s| *s as usize).collect();
        let results = Share(&d).threads(&starts, |d: &SymbolRangeDfa<$t, u32>, k: usize| {
            for i in 0..60 {
                let j = (k + i * (1 + k % 3)) % words.len();
                let got = action_answer(match_pattern(d.start(), &mut (&words[j]).read_symbols()))?;
                if got != want[j] { return Err(format!("while other threads use the matcher: word {}: got {:?}, expected {:?} (length, output rank)", show(&c.words[j]), got, want[j])); }
            }
            Ok(())
        });
        match results {
            None => { obs.label("cannot be shared"); return Ok(()); }
            Some(r) => for x in r { x? },
        }
        obs.ran(60 * starts.len() as u64);
        let hit = want.iter().filter(|w| w.map(|a| a.0 > 0).unwrap_or(false)).count();
        obs.nontrivial = hit >= 2 && want.iter().any(|w| *w != want[0]) && starts.len() > 2;
        Ok(())
    }};
}
fn test_shared(c: &Shared, obs: &mut Obs) -> Res { match c.ty { Ty::Char => shared!(char, c, obs), Ty::U8 => shared!(u8, c, obs), _ => shared!(u32, c, obs) } }
fn gen_shared(src: &mut Src) -> Shared {
    let ty = *src.pick(&[Ty::Char, Ty::U8, Ty::U32]);
    let n = src.range(1, 6);
    let alpha: Vec<u64> = (97..97 + n).collect();
    let pats: Vec<(Pat, u64)> = src.list(1, 5, 3, |s| (gen_pat(s, &alpha, SMALL), s.below(4)));
    let words = src.list(2, 7, 5, |s| gen_word(s, &pats, &alpha, max_rank(ty), 30));
    let starts = src.list(2, 6, 4, |s| s.below(20));
    Shared { ty, pats, words, starts }
}

fn main() {
    main_with(Property {
        id: "C21",
        rule: "the words include one that is matched and one that is not or only in part, and the prepared matcher was reused at least three times",
        assumptions: &["patterns whose reference automaton has more than 300 subset states are skipped", "the routes through `matches` give lengths only"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(100_000, 1_000_000), gen_exh, test),
            sub("random", Mode::Random(96_000, 576_000), gen, test),
            sub("same-place", Mode::Random(120_000, 700_000), gen_reuse, test_reuse),
            sub("shared", Mode::Random(4_000, 60_000), gen_shared, test_shared),
            sub("huge", Mode::Random(24, 500), gen_huge_one, test_huge),
            harness::deep_sub!("C21"),
        ],
    });
}
