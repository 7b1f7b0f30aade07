//! C15 A prepared matcher survives serialisation unchanged
use harness::lib_api::*;
use harness::listing::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_out;
use harness::with_ty;
use concordance::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, out: OutTy, pats: Vec<(Pat, u64)>, hops: Vec<u8>, words: Vec<Vec<u64>> }

/// One trip through a format
fn hop<V: Serialize + DeserializeOwned>(v: &V, k: u8) -> Result<V, String> {
    let e = |x: &dyn Debug| format!("format {}: {:?}", k % 6, x);
    Ok(match k % 6 {
        0 => serde_json::from_str(&serde_json::to_string(v).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        1 => bincode::deserialize(&bincode::serialize(v).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        2 => serde_json::from_str(&serde_json::to_string_pretty(v).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        3 => serde_json::from_value(serde_json::to_value(v).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        4 => { let b = serde_json::to_vec(v).map_err(|x| e(&x))?; serde_json::from_reader(&b[..]).map_err(|x| e(&x))? }
        _ => { let b = bincode::serialize(&(v, 7u8)).map_err(|x| e(&x))?; let (v, n): (V, u8) = bincode::deserialize(&b).map_err(|x| e(&x))?; if n != 7 { return Err("format 5: what follows the value was not read back".into()); } v }
    })
}
fn forms<V: Serialize>(v: &V) -> Result<(String, Vec<u8>), String> { Ok((serde_json::to_string(v).map_err(|e| e.to_string())?, bincode::serialize(v).map_err(|e| e.to_string())?)) }

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let nfa = build_set(&c.pats, false);
    let mut r = RefDfa::new(&nfa, T::MAX);
    if !r.build(400) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let dfa: SymbolRangeDfa<T, O> = prepare_set(&c.pats);
    let (mut words, _) = cover_words(&dfa, &mut r, 600, 50);
    words.extend(c.words.iter().cloned());
    let first = forms(&dfa)?;
    let table = listing::<T, O>(&dfa);
    let answers: Vec<Answer> = words.iter().map(|w| run(&dfa, w)).collect::<Result<_, _>>()?;
    let mut cur: SymbolRangeDfa<T, O> = hop(&dfa, c.hops.first().copied().unwrap_or(0))?;
    for (i, k) in c.hops.iter().enumerate() {
        if i > 0 { cur = hop(&cur, *k)?; }
        let f = forms(&cur)?;
        if f.0 != first.0 { return Err(format!("after {} trips (formats {:?}) the JSON form is {}, was {}", i + 1, &c.hops[..=i], f.0, first.0)); }
        if f.1 != first.1 { return Err(format!("after {} trips (formats {:?}) the compact form differs", i + 1, &c.hops[..=i])); }
        let t = listing::<T, O>(&cur);
        if t != table { return Err(format!("after {} trips the matcher's listing is {:?}, was {:?}", i + 1, t, table)); }
        for (w, a) in words.iter().zip(&answers) {
            let b = run(&cur, w)?;
            if b != *a { return Err(format!("after {} trips (formats {:?}): word {}: {:?}, was {:?}", i + 1, &c.hops[..=i], show(w), b, a)); }
        }
        obs.ran(words.len() as u64 + 3);
    }
    // The ranges themselves
    for s in 0..dfa.count_states() {
        for (g, _) in dfa.get_transitions_for_state(s) {
            for k in &c.hops { let h = hop(&g, *k)?; if h != g { return Err(format!("range {:?} became {:?}", g, h)); } obs.ran(1); }
        }
    }
    obs.nontrivial = table.trans.len() >= 2 && answers.iter().any(|a| a.is_some()) && answers.iter().any(|a| a.is_none() || a.unwrap().0 == 0);
    obs.label_if(table.trans.iter().flatten().any(|t| t.1 == T::MAX), "a range up to the end of the type");
    obs.label_if(table.out.iter().flatten().collect::<std::collections::BTreeSet<_>>().len() > 1, "several outputs");
    obs.label_if(table.trans.len() > 10, "more than 10 states");
    obs.label_if(table.trans[0].is_empty(), "start state without transitions");
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty {
        Ty::U8 => with_out!(c.out, O => check::<u8, O>(c, obs)),
        Ty::Char => with_out!(c.out, O => check::<char, O>(c, obs)),
        t => if c.out == OutTy::Unit { with_ty!(t, T => check::<T, ()>(c, obs)) } else { with_ty!(t, T => check::<T, u32>(c, obs)) },
    }
}
fn gen(src: &mut Src) -> Case {
    let ty = if src.chance(1, 2) { gen_ty(src) } else { *src.pick(&[Ty::U8, Ty::Char]) };
    // Plain patterns have no outputs
    let out = if src.chance(1, 4) { OutTy::Unit } else { gen_out_ty(src) };
    let alpha = gen_alphabet(src, ty, 8);
    let n = src.usize(1, 4);
    let cfg = if n == 1 { MEDIUM } else { SMALL };
    let pats: Vec<(Pat, u64)> = (0..n).map(|_| { let p = gen_pat(src, &alpha, cfg); (p, src.below(5)) }).collect();
    let hops = src.list(1, 4, 2, |s| s.below(6) as u8);
    let words = src.list(1, 5, 4, |s| gen_word(s, &pats, &alpha, max_rank(ty), 16));
    Case { ty, out, pats, hops, words }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct RCase { ty: Ty, ranges: Vec<(u64, u64)>, hops: Vec<u8> }
fn rcheck<T: Sym>(c: &RCase, obs: &mut Obs) -> Res {
    let v: Vec<SymbolRange<T>> = c.ranges.iter().map(|r| SymbolRange::new(T::of(r.0), T::of(r.1))).collect();
    let f = forms(&v)?;
    let mut cur = v.clone();
    for k in &c.hops {
        cur = hop(&cur, *k)?;
        if cur != v || forms(&cur)? != f { return Err(format!("ranges {:?} became {:?}", v, cur)); }
        for x in &v { let y = hop(x, *k)?; if y != *x || y.lowest.rank() != x.lowest.rank() || y.highest.rank() != x.highest.rank() { return Err(format!("range {:?} became {:?}", x, y)); } obs.ran(1); }
    }
    obs.nontrivial = c.ranges.iter().any(|r| r.0 < r.1);
    obs.label_if(c.ranges.iter().any(|r| r.1 == T::MAX), "a range up to the end of the type");
    obs.label_if(c.ranges.iter().any(|r| r.0 == r.1), "a single-symbol range");
    Ok(())
}
fn rtest(c: &RCase, obs: &mut Obs) -> Res { with_ty!(c.ty, T => rcheck::<T>(c, obs)) }
fn rgen(src: &mut Src) -> RCase {
    let ty = gen_ty(src);
    let ranges = src.list(1, 6, 3, |s| { let a = gen_rank(s, ty); let b = if s.chance(1, 5) { a } else { gen_rank(s, ty) }; (a.min(b), a.max(b)) });
    RCase { ty, ranges, hops: src.list(1, 3, 2, |s| s.below(6) as u8) }
}
/// Matchers with tens of thousands of states
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, String>(c, obs, &|_, dfa, _, words, want, obs| {
        let first = forms(dfa)?;
        for k in [0, 1] {
            let back: SymbolRangeDfa<T, String> = hop(dfa, k)?;
            if forms(&back)? != first { return Err(format!("format {}: the serialised form changed", k)); }
            compare_huge(&format!("after a trip through format {}", k), &back, words, want, obs)?;
        }
        Ok(())
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }

/// A table given to the builder, with a state of thousands of transitions: state `hub` has ranges that lead to the states after it in turn
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct WideTable { ty: Ty, hub: u32, arms: u32, start: u64, stride: u64, leaves: u32, tail: u32, hops: Vec<u8>, words: Vec<Vec<u64>> }
impl WideTable {
    fn listing(&self) -> Listing {
        let mut l = Listing::default();
        for i in 0..self.hub { l.trans.push(vec![(97, 97, i + 1)]); l.out.push(if i % 3 == 1 { Some(9) } else { None }); }
        l.trans.push((0..self.arms as u64).map(|i| { let a = self.start + i * self.stride; (a, a + (self.stride - 1) / 2, self.hub + 1 + (i % self.leaves as u64) as u32) }).collect());
        l.out.push(None);
        let n = self.hub + 1 + self.leaves + self.tail;
        for i in 0..self.leaves + self.tail {
            let here = self.hub + 1 + i;
            let mut t = vec![];
            if i % 2 == 0 { t.push((98, 99, self.hub)); }
            if here + 1 < n { t.push((100, 100 + i as u64 % 20, here + 1)); }
            l.trans.push(t);
            l.out.push(if i % 4 == 3 { None } else { Some(i as u64 % 5) });
        }
        l
    }
}
fn wide<T: Sym>(c: &WideTable, obs: &mut Obs) -> Res {
    let l = c.listing();
    let mut b = SymbolRangeDfaBuilder::<T, u32>::new();
    for (ts, o) in l.trans.iter().zip(&l.out) {
        b.start_state();
        for t in ts { b.transition(SymbolRange::new(T::of(t.0), T::of(t.1)), t.2); }
        if let Some(o) = o { b.accept(u32::oof(*o)); }
    }
    let dfa = b.build();
    let first = forms(&dfa)?;
    let l = listing::<T, u32>(&dfa);
    let mut cur = hop(&dfa, c.hops[0])?;
    let mut want = vec![];
    for w in &c.words { want.push(run(&dfa, w)?); }
    for (i, k) in c.hops.iter().enumerate() {
        if i > 0 { cur = hop(&cur, *k)?; }
        if forms(&cur)? != first { return Err(format!("after {} trips (formats {:?}) a serialised form changed", i + 1, &c.hops[..=i])); }
        let t = listing::<T, u32>(&cur);
        if t != l { let s = (0..t.trans.len().max(l.trans.len())).find(|s| t.trans.get(*s) != l.trans.get(*s) || t.out.get(*s) != l.out.get(*s)); return Err(format!("after {} trips the listing differs, first at state {:?} of {}", i + 1, s, l.trans.len())); }
        for (w, a) in c.words.iter().zip(&want) { let g = run(&cur, w)?; if g != *a { return Err(format!("after {} trips: word {}: {:?}, was {:?}", i + 1, show(w), g, a)); } }
        obs.ran(c.words.len() as u64 + 2);
    }
    obs.label_if(l.trans.iter().any(|t| t.len() > 255), "a state with more than 255 transitions");
    obs.label_if(l.trans.iter().any(|t| t.len() > 65_535), "a state with more than 65535 transitions");
    obs.label_if(l.trans.len() > 65_535, "more than 65535 states");
    obs.nontrivial = l.trans.iter().any(|t| t.len() > 240) && want.iter().any(|a| a.is_some());
    Ok(())
}
fn test_wide(c: &WideTable, obs: &mut Obs) -> Res { match c.ty { Ty::Char => wide::<char>(c, obs), Ty::I64 => wide::<i64>(c, obs), _ => wide::<u32>(c, obs) } }
fn gen_wide(src: &mut Src) -> WideTable {
    let ty = *src.pick(&[Ty::U32, Ty::Char, Ty::I64]);
    let big = src.chance(1, 4);
    let arms = if big { gen_size(src) } else if src.chance(1, 2) { src.range(250, 260) as u32 } else { src.range(1, 3000) as u32 };
    let stride = src.range(1, 8);
    let hub = src.below(5) as u32;
    let start = 200 + src.below(400);
    let leaves = if big && src.chance(1, 2) { gen_size(src) } else { src.range(1, 20) as u32 };
    let tail = src.below(4) as u32;
    let hops = src.list(1, 3, 2, |s| s.below(6) as u8);
    let words = src.list(2, 6, 4, |s| {
        let mut w = vec![97; hub as usize];
        for _ in 0..s.range(1, 4) {
            let i = match s.below(3) { 0 => arms as u64 - 1 - s.below(arms.min(3) as u64), 1 => 253 + s.below(5), _ => s.below(arms as u64) };
            w.push(start + i * stride + s.below(stride));
            match s.below(3) { 0 => w.push(98 + s.below(4)), 1 => { w.push(98 + s.below(2)) } _ => {} }
        }
        w
    });
    WideTable { ty, hub, arms, start, stride, leaves, tail, hops, words }
}

fn main() {
    main_with(Property {
        id: "C15",
        rule: "matchers: at least two states, and some word tried is matched and some word is not (or only emptily); ranges: at least one range of more than one symbol",
        assumptions: &["formats: JSON (compact, pretty, via a value tree, via a reader) and bincode (alone and followed by other data)", "a serialised form is compared with that of the same program run, not with a stored one"],
        subs: vec![
            sub("matchers", Mode::Random(160_000, 1_920_000), gen, test),
            sub("ranges", Mode::Random(320_000, 3_840_000), rgen, rtest),
            sub("huge", Mode::Random(50, 600), gen_huge, test_huge),
            sub("huge-wide-table", Mode::Random(1_500, 18_000), gen_wide, test_wide),
            harness::deep_sub!("C15"),
        ],
    });
}
