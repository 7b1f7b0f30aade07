//! C10 A state machine under construction reflects every edit made to it
use harness::machine::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { edits: Vec<Edit>, kind: u8, snapshot: u64 }

/// What the machine should say after the given edits
struct Model { states: u32, trans: Vec<BTreeSet<(u64, u64, u32)>>, outs: Vec<BTreeSet<u64>> }
fn model(edits: &[Edit]) -> Model {
    let r = reference(edits);
    let mut m = Model { states: n_states(edits), trans: vec![], outs: vec![] };
    for s in 0..r.states() {
        // Reachability by search, written out here rather than shared
        let mut reach = vec![s];
        let mut i = 0;
        while i < reach.len() { for t in &r.eps[reach[i]] { if !reach.contains(t) { reach.push(*t); } } i += 1; }
        m.trans.push(reach.iter().flat_map(|x| r.trans[*x].iter().map(|t| (t.0, t.1, t.2 as u32))).collect());
        m.outs.push(reach.iter().flat_map(|x| r.out[*x].iter().copied()).collect());
    }
    m
}
fn verify<I, O: Out>(what: &str, m: &Model, sm: &dyn StateMachine<I, O>, key: &dyn Fn(&I) -> (u64, u64), obs: &mut Obs) -> Res {
    if sm.count_states() != m.states { return Err(format!("{}: {} states, expected {}", what, sm.count_states(), m.states)); }
    for s in 0..m.states {
        let got: BTreeSet<(u64, u64, u32)> = sm.get_transitions_for_state(s).iter().map(|(i, t)| { let k = key(i); (k.0, k.1, *t) }).collect();
        if got != m.trans[s as usize] { return Err(format!("{}: transitions of state {} are {:?}, expected {:?}", what, s, got, m.trans[s as usize])); }
        let o = sm.output_symbol_for_state(s).map(|o| o.orank());
        let want = &m.outs[s as usize];
        if o.is_some() == want.is_empty() || o.map(|x| !want.contains(&x)).unwrap_or(false) { return Err(format!("{}: output of state {} is {:?}, expected one of {:?}", what, s, o, want)); }
        obs.ran(2);
    }
    Ok(())
}
fn drive<I: Clone + 'static, O: Out>(c: &Case, mk: &dyn Fn(u64, u64) -> I, key: &dyn Fn(&I) -> (u64, u64), obs: &mut Obs) -> Res {
    let put = |n: &mut Ndfa<I, O>, e: &Edit| match e {
        Edit::Trans(s, a, b, t) => n.add_transition(*s, mk(*a, *b), *t),
        Edit::Create(s) => n.create_state(*s),
        Edit::Out(s, o) => n.set_output_symbol(*s, O::oof(*o)),
        Edit::Join(a, b) => n.join_states(*a, *b),
    };
    let mut n: Ndfa<I, O> = Ndfa::new();
    let snap = c.snapshot as usize % (c.edits.len() + 1);
    let every = if c.edits.len() > 40 { 13 } else { 1 };
    let mut copy = if snap == 0 { Some((n.clone(), 0)) } else { None };
    for (i, e) in c.edits.iter().enumerate() {
        put(&mut n, e);
        if i % every == 0 || i + 1 == c.edits.len() { verify(&format!("after edit {} ({:?})", i, e), &model(&c.edits[..=i]), &n, key, obs)?; }
        if i + 1 == snap { copy = Some((n.clone(), i + 1)); }
    }
    let whole = model(&c.edits);
    if let Some((mut k, at)) = copy {
        verify("a copy taken earlier", &model(&c.edits[..at]), &k, key, obs)?;
        for e in c.edits.iter().rev().take(3) { put(&mut k, e); }
        let mut ed: Vec<Edit> = c.edits[..at].to_vec();
        ed.extend(c.edits.iter().rev().take(3));
        verify("a copy edited on its own", &model(&ed), &k, key, obs)?;
        verify("the original after its copy was edited", &whole, &n, key, obs)?;
    }
    let shared: Rc<dyn StateMachine<I, O>> = Rc::new(n.clone());
    let other = shared.clone();
    verify("through a shared handle", &whole, &shared, key, obs)?;
    verify("through a second shared handle", &whole, &other, key, obs)?;
    let boxed: Box<dyn StateMachine<I, O>> = Box::new(n);
    verify("through a boxed handle", &whole, &boxed, key, obs)?;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    let joins: Vec<(u32, u32)> = c.edits.iter().filter_map(|e| match e { Edit::Join(a, b) => Some((*a, *b)), _ => None }).collect();
    let late = c.edits.iter().enumerate().any(|(i, e)| match e { Edit::Trans(s, ..) => c.edits[..i].iter().any(|j| matches!(j, Edit::Join(_, b) if b == s)), _ => false });
    let chain = joins.iter().any(|(_, b)| joins.iter().any(|(a2, _)| a2 == b));
    obs.label_if(late, "transition added to a state after it was joined");
    obs.label_if(chain, "joins in a chain or cycle");
    obs.label_if(joins.iter().any(|(a, b)| a == b), "state joined to itself");
    obs.nontrivial = !joins.is_empty() && c.edits.iter().any(|e| matches!(e, Edit::Trans(..))) && (late || chain);
    match c.kind % 3 {
        0 => drive::<SymbolRange<u8>, u32>(c, &|a, b| SymbolRange::new(a as u8, b as u8), &|r| (r.lowest as u64, r.highest as u64), obs),
        1 => drive::<String, RevOut>(c, &|a, b| format!("{}-{}", a, b), &|s| { let (a, b) = s.split_once('-').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }, obs),
        _ => drive::<(u64, u64), String>(c, &|a, b| (a, b), &|x| *x, obs),
    }
}
fn gen_of(src: &mut Src, states: u64, max: usize) -> Case {
    let n = src.range(1, states);
    let classes: Vec<(u64, u64)> = vec![(0, 0), (1, 5), (3, 9), (0, 255), (7, 7)];
    let mut edits = gen_edits(src, &classes, n, max, 5);
    if src.chance(1, 6) { let far = 100 + src.below(5000) as u32; edits.insert(0, match src.below(4) { 0 => Edit::Create(far), 1 => Edit::Trans(far, 1, 2, 0), 2 => Edit::Trans(0, 1, 2, far / 8), _ => Edit::Join(far / 8, 0) }); }
    Case { edits, kind: src.below(3) as u8, snapshot: src.below(40) }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 6, 24) }
fn gen_long(src: &mut Src) -> Case { gen_of(src, 40, 200) }
/// Every history of up to 4 (5) edits over three states
fn gen_exh(src: &mut Src) -> Case {
    let n = src.below(if src.thorough { 6 } else { 5 });
    let edits = (0..n).map(|_| match src.below(4) {
        0 => { let a = src.below(3); Edit::Trans(a as u32, 1, 1, src.below(3) as u32) }
        1 => { let a = src.below(3); Edit::Join(a as u32, src.below(3) as u32) }
        2 => { let a = src.below(3); Edit::Out(a as u32, src.below(2)) }
        _ => Edit::Create(src.below(4) as u32),
    }).collect();
    Case { edits, kind: 2, snapshot: 2 }
}
/// State numbers and fan-outs of tens of thousands
fn gen_huge(src: &mut Src) -> Case {
    let ids: Vec<u32> = { let n = src.usize(2, 6); (0..n).map(|_| match src.below(3) { 0 => src.below(4) as u32, _ => gen_size(src) }).collect() };
    let edits = src.list(1, 14, 8, |s| match s.below(4) { 0 => { let a = *s.pick(&ids); Edit::Trans(a, 1, 1 + s.below(3), *s.pick(&ids)) } 1 => { let a = *s.pick(&ids); Edit::Join(a, *s.pick(&ids)) } 2 => { let a = *s.pick(&ids); Edit::Out(a, s.below(3)) } _ => Edit::Create(*s.pick(&ids)) });
    Case { edits, kind: src.below(3) as u8, snapshot: src.below(10) }
}
/// One state with very many transitions, and very long chains of joins
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Wide { fan: u32, chain: u32, back: bool, outs: Vec<u32> }
fn test_wide(c: &Wide, obs: &mut Obs) -> Res {
    // States: 0 (fan), then the chain 1..=chain; the fan leads to the state of the same number in the chain, round and round
    let mut n: Ndfa<u32, u64> = Ndfa::new();
    for i in 0..c.fan { n.add_transition(0, i, 1 + i % c.chain); }
    for i in 1..c.chain { n.join_states(i, i + 1); }
    n.create_state(c.chain);
    if c.back { n.join_states(c.chain, 1); }
    for o in &c.outs { n.set_output_symbol(1 + o % c.chain, *o as u64); }
    n.add_transition(c.chain, 7, 0);
    if n.count_states() != c.chain + 1 { return Err(format!("{} states, expected {}", n.count_states(), c.chain + 1)); }
    let got: BTreeSet<(u32, u32)> = n.get_transitions_for_state(0).into_iter().collect();
    let want: BTreeSet<(u32, u32)> = (0..c.fan).map(|i| (i, 1 + i % c.chain)).collect();
    if got != want { return Err(format!("state 0 has {} transitions, expected {}; one that differs: {:?}", got.len(), want.len(), got.symmetric_difference(&want).next())); }
    let last: std::collections::BTreeMap<u32, u64> = c.outs.iter().map(|o| (1 + o % c.chain, *o as u64)).collect();
    for s in [1, 2, c.chain / 2, c.chain.saturating_sub(65_536), c.chain - 1, c.chain] {
        if s < 1 || s > c.chain || c.chain > 20_000 && (s == 2 || s == c.chain / 2) { continue; }
        let t = n.get_transitions_for_state(s);
        if t.iter().any(|t| *t != (7, 0)) || t.is_empty() { return Err(format!("state {} of a chain of {} joins has the transitions {:?}, expected only (7, 0)", s, c.chain, t)); }
        let o = n.output_symbol_for_state(s).copied();
        let allowed: Vec<u64> = last.iter().filter(|(k, _)| c.back || **k >= s).map(|x| *x.1).collect();
        if o.is_some() == allowed.is_empty() || o.map(|o| !allowed.contains(&o)).unwrap_or(false) { return Err(format!("state {} of a chain of {} joins has the output {:?}, expected one of {:?}", s, c.chain, o, allowed)); }
        obs.ran(2);
    }
    obs.label_if(c.fan > 65_536, "more than 65536 transitions from one state");
    obs.label_if(c.chain > 65_536, "more than 65536 joins in a chain");
    obs.nontrivial = c.fan > 300 || c.chain > 300;
    Ok(())
}
fn gen_wide(src: &mut Src) -> Wide { let fan = gen_size(src); let chain = if src.chance(1, 6) { gen_size(src) } else { 2 + src.below(400) as u32 }; Wide { fan, chain, back: src.chance(1, 3), outs: src.list(0, 3, 1, |s| if s.chance(1, 2) { gen_size(s) } else { s.below(9) as u32 }) } }
/// One state with very many joins of its own, some leading on through further joins
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Star { hub: u32, arms: u32, depth: u32, stride: u32, transitions_first: bool, join_back: bool, outs: Vec<u32>, copy: bool }
fn test_star(c: &Star, obs: &mut Obs) -> Res {
    // Arm i is the states hub + 1 + i * depth .. of its own, each joined to the next; the arms are attached in an order with the given stride
    let mut n: Ndfa<(u32, u32), u64> = Ndfa::new();
    let first = |i: u32| c.hub + 1 + i * c.depth;
    let states = c.hub + 1 + c.arms * c.depth;
    let put = |n: &mut Ndfa<(u32, u32), u64>| for i in 0..c.arms { for d in 0..c.depth { n.add_transition(first(i) + d, (i, d), i % 3); } };
    let mut stride = c.stride.max(1);
    while gcd(stride, c.arms) != 1 { stride += 1; }
    if c.transitions_first { put(&mut n); }
    for j in 0..c.arms {
        let i = ((j as u64 * stride as u64) % c.arms as u64) as u32;
        n.join_states(c.hub, first(i));
        for d in 1..c.depth { n.join_states(first(i) + d - 1, first(i) + d); }
    }
    if c.join_back { n.join_states(states - 1, c.hub); }
    if !c.transitions_first { put(&mut n); }
    for o in &c.outs { n.set_output_symbol(c.hub + o % (states - c.hub), *o as u64); }
    let last: std::collections::BTreeMap<u32, u64> = c.outs.iter().map(|o| (c.hub + o % (states - c.hub), *o as u64)).collect();
    let check = |what: &str, n: &Ndfa<(u32, u32), u64>, obs: &mut Obs| -> Res {
        if n.count_states() != states { return Err(format!("{}: {} states, expected {}", what, n.count_states(), states)); }
        for (s, whole) in [(c.hub, true), (first(0), c.join_back && c.arms == 1), (first(c.arms - 1), c.join_back), (states - 1, c.join_back)] {
            let got: BTreeSet<((u32, u32), u32)> = n.get_transitions_for_state(s).into_iter().collect();
            let own = if s < first(0) { 0..0 } else { (s - first(0)) % c.depth..c.depth };
            let arm = if s < first(0) { 0 } else { (s - first(0)) / c.depth };
            let mut want: BTreeSet<((u32, u32), u32)> = own.clone().map(|d| ((arm, d), arm % 3)).collect();
            if whole { want = (0..c.arms).flat_map(|i| (0..c.depth).map(move |d| ((i, d), i % 3))).collect(); }
            if got != want { return Err(format!("{}: state {} has {} different transitions, expected {}; one that differs: {:?}", what, s, got.len(), want.len(), got.symmetric_difference(&want).next())); }
            let allowed: Vec<u64> = last.iter().filter(|(k, _)| whole || **k >= s && **k >= first(0) && (**k - first(0)) / c.depth == arm).map(|x| *x.1).collect();
            let o = n.output_symbol_for_state(s).copied();
            if o.is_some() == allowed.is_empty() || o.map(|o| !allowed.contains(&o)).unwrap_or(false) { return Err(format!("{}: state {} has the output {:?}, expected one of {:?}", what, s, o, allowed)); }
            obs.ran(2);
        }
        Ok(())
    };
    check("the machine", &n, obs)?;
    if c.copy {
        let mut k = n.clone();
        check("a copy", &k, obs)?;
        k.join_states(c.hub, c.hub / 2); k.add_transition(c.hub / 2, (9, 9), 0); k.join_states(first(0), c.hub); k.set_output_symbol(c.hub, 77);
        check("the original after its copy was edited", &n, obs)?;
    }
    obs.label_if(c.arms > 255, "more than 255 joins from one state");
    obs.label_if(c.join_back, "joined back");
    obs.nontrivial = c.arms > 100;
    Ok(())
}
fn gcd(a: u32, b: u32) -> u32 { if b == 0 { a } else { gcd(b, a % b) } }
fn gen_star(src: &mut Src) -> Star {
    let arms = match src.below(4) { 0 => 1 + src.below(40) as u32, 1 => 60 + src.below(80) as u32, 2 => 200 + src.below(120) as u32, _ => 300 + src.below(900) as u32 };
    Star { hub: if src.chance(1, 2) { 0 } else { src.below(400) as u32 }, arms, depth: if arms > 300 { 1 + src.below(2) as u32 } else { 1 + src.below(4) as u32 }, stride: 1 + src.below(2000) as u32, transitions_first: src.chance(1, 2), join_back: src.chance(1, 3), outs: src.list(0, 3, 1, |s| s.below(3000) as u32), copy: src.chance(1, 2) }
}
/// Random edits with one state that gets a crowd of transitions, or joins
fn gen_crowded(src: &mut Src) -> Case {
    let classes: Vec<(u64, u64)> = vec![(0, 0), (1, 5), (3, 9), (0, 255), (7, 7)];
    let edits = gen_crowd(src, &classes);
    Case { edits, kind: src.below(3) as u8, snapshot: src.below(400) }
}

fn main() {
    main_with(Property {
        id: "C10",
        rule: "there are joins and transitions, and joins form a chain or cycle or a transition is added to a state after it was joined",
        assumptions: &["transitions are compared as sets (their order and repetition are not specified)", "only states that exist are queried"],
        subs: vec![
            sub("short-histories-exhaustive", Mode::Exhaustive(1_500_000, 20_000_000), gen_exh, test),
            sub("random", Mode::Random(60_000, 1_000_000), gen, test),
            sub("long", Mode::Random(1_500, 20_000), gen_long, test),
            sub("many-joins", Mode::Random(6_000, 80_000), gen_star, test_star),
            sub("crowds", Mode::Random(2_000, 25_000), gen_crowded, test),
            sub("huge", Mode::Random(60, 800), gen_huge, test),
            sub("huge-fan-and-chain", Mode::Random(60, 800), gen_wide, test_wide),
            harness::deep_sub!("C10"),
        ],
    });
}
