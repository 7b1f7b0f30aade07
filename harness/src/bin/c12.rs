//! C12 Compiled matchers are deterministic, ordered and well-formed
use harness::listing::*;
use harness::lib_api::*;
use harness::machine::*;
use harness::pat::*;
use harness::refnfa::*;
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use concordance::*;
use serde::{Deserialize, Serialize};

/// Where the machine given to the compiler comes from
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Machine {
    /// Edits over disjoint ranges
    Edits(Vec<Edit>),
    /// Edits over any ranges, with overlaps removed by the library before compiling
    Fixed(Vec<Edit>),
    Pats(Vec<(Pat, u64)>),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, machine: Machine }

#[derive(Clone, Debug)]
enum Ev<I, O> { Start, Trans(I, StateId), Accept(O) }
struct Recorder<I, O> { ev: Vec<Ev<I, O>> }
impl<I, O> DfaBuilder<I, O, Vec<Ev<I, O>>> for Recorder<I, O> {
    fn start_state(&mut self) { self.ev.push(Ev::Start) }
    fn transition(&mut self, symbol: I, target: StateId) { self.ev.push(Ev::Trans(symbol, target)) }
    fn accept(&mut self, symbol: O) { self.ev.push(Ev::Accept(symbol)) }
    fn build(self) -> Vec<Ev<I, O>> { self.ev }
}

fn read_off<I: Ord, O: Out>(what: &str, ev: &[Ev<I, O>], key: &dyn Fn(&I) -> (u64, u64)) -> Result<Listing, String> {
    let mut l = Listing::default();
    let mut last: Option<&I> = None;
    for (i, e) in ev.iter().enumerate() {
        match e {
            Ev::Start => { l.trans.push(vec![]); l.out.push(None); last = None; }
            Ev::Trans(s, t) => {
                let k = key(s);
                l.trans.last_mut().ok_or_else(|| format!("{}: event {}: a transition before any state was started", what, i))?.push((k.0, k.1, *t));
                if let Some(p) = last { if p >= s { return Err(format!("{}: state {}: transition symbols are not in ascending order", what, l.trans.len() - 1)); } }
                last = Some(s);
            }
            Ev::Accept(o) => {
                let x = l.out.last_mut().ok_or_else(|| format!("{}: event {}: an output before any state was started", what, i))?;
                if x.is_some() { return Err(format!("{}: state {} was given two outputs", what, l.trans.len() - 1)); }
                *x = Some(o.orank());
            }
        }
    }
    l.well_formed().map_err(|m| format!("{}: {}", what, m))?;
    Ok(l)
}
fn record<I: Ord + Clone, O: Out, M: StateMachine<I, O>>(what: &str, m: M, key: &dyn Fn(&I) -> (u64, u64), r: &mut RefDfa, max: u64, obs: &mut Obs) -> Result<Listing, String> {
    let ev = DfaCompiler::build(m, Recorder { ev: vec![] });
    let l = read_off(what, &ev, key)?;
    let whole = l.equivalent(r, max, 20_000).map_err(|e| format!("{}: {}", what, e))?;
    obs.label_if(whole, "whole product automaton explored");
    obs.ran(1);
    Ok(l)
}

fn check<T: Sym, O: Out>(c: &Case, obs: &mut Obs) -> Res {
    let max = T::MAX;
    let rkey = |r: &SymbolRange<T>| (r.lowest.rank(), r.highest.rank());
    let mkr = |a: u64, b: u64| SymbolRange::new(T::of(a), T::of(b));
    let nfa = match &c.machine { Machine::Edits(e) | Machine::Fixed(e) => reference(e), Machine::Pats(p) => build_set(p, false) };
    let mut r = RefDfa::new(&nfa, max);
    if !r.build(600) { obs.label("skipped: reference automaton too large"); return Ok(()); }
    let l = match &c.machine {
        Machine::Edits(e) => {
            let n: Ndfa<SymbolRange<T>, O> = ndfa(e);
            let l = record("library machine", n.clone(), &rkey, &mut r, max, obs)?;
            let b: Box<dyn StateMachine<SymbolRange<T>, O>> = Box::new(n);
            record("boxed machine", b, &rkey, &mut r, max, obs)?;
            record("own machine", own::<_, O>(&nfa, &mkr), &rkey, &mut r, max, obs)?;
            // The same graph over plain symbols and over strings
            let flat: Vec<Edit> = e.iter().map(|x| match x { Edit::Trans(s, a, _, t) => Edit::Trans(*s, *a, *a, *t), y => *y }).collect();
            let fnfa = reference(&flat);
            let mut fr = RefDfa::new(&fnfa, max);
            if fr.build(600) {
                record("own machine over plain symbols", own::<T, O>(&fnfa, &|a, _| T::of(a)), &|s| (s.rank(), s.rank()), &mut fr, max, obs)?;
                let mut n: Ndfa<String, O> = Ndfa::new();
                for x in &flat { match x { Edit::Trans(s, a, _, t) => n.add_transition(*s, format!("{:020}", a), *t), Edit::Create(s) => n.create_state(*s), Edit::Out(s, o) => n.set_output_symbol(*s, O::oof(*o)), Edit::Join(a, b) => n.join_states(*a, *b) } }
                record("machine over strings", n, &|s: &String| { let x = s.parse().unwrap(); (x, x) }, &mut fr, max, obs)?;
            }
            l
        }
        Machine::Fixed(e) => {
            let mut n: Ndfa<SymbolRange<T>, O> = ndfa(e);
            n.fix_overlapping_ranges();
            record("machine with overlaps removed", n, &rkey, &mut r, max, obs)?
        }
        Machine::Pats(p) => {
            let m = token_matcher::<T, O>(p);
            if p.len() == 1 { let b: Box<dyn StateMachine<SymbolRange<T>, O>> = p[0].0.to_lib::<T>().to_ndfa(O::oof(p[0].1)); record("pattern", b, &rkey, &mut r, max, obs)?; }
            record("token set", m.to_ndfa(), &rkey, &mut r, max, obs)?
        }
    };
    // What the library's own builder made of it
    let dfa: SymbolRangeDfa<T, O> = match &c.machine {
        Machine::Edits(e) => DfaCompiler::build(ndfa::<T, O>(e), SymbolRangeDfaBuilder::new()),
        Machine::Fixed(e) => { let mut n = ndfa::<T, O>(e); n.fix_overlapping_ranges(); DfaCompiler::build(n, SymbolRangeDfaBuilder::new()) }
        Machine::Pats(p) => prepare_set(p),
    };
    let own_table = listing::<T, O>(&dfa);
    own_table.well_formed().map_err(|m| format!("prepared matcher: {}", m))?;
    own_table.equivalent(&mut r, max, 20_000).map_err(|m| format!("prepared matcher: {}", m))?;
    let nondet = nfa.trans.iter().any(|t| t.iter().any(|a| t.iter().any(|b| a.0 <= b.1 && b.0 <= a.1 && a.2 != b.2)));
    let nt = l.trans.len() >= 2 && l.trans.iter().any(|t| t.len() >= 2);
    obs.label_if(nondet, "nondeterministic input");
    obs.label_if(l.trans.len() > 20, "more than 20 states emitted");
    obs.label_if(l.out.iter().filter(|o| o.is_some()).count() > 1, "several accepting states emitted");
    obs.nontrivial = nt && (nondet || nfa.eps.iter().any(|e| !e.is_empty()));
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty { Ty::Char => check::<char, String>(c, obs), Ty::I32 => check::<i32, RevOut>(c, obs), Ty::U64 => check::<u64, u32>(c, obs), Ty::Pair => check::<Pair, i64>(c, obs), Ty::Desc => check::<Desc, u32>(c, obs), _ => check::<u8, u32>(c, obs) }
}
const TYS: [Ty; 6] = [Ty::U8, Ty::Char, Ty::I32, Ty::U64, Ty::Pair, Ty::Desc];
fn gen_crowds(src: &mut Src) -> Case {
    let ty = *src.pick(&TYS);
    let fixed = src.chance(1, 3);
    let n = src.range(1, 5);
    let classes: Vec<(u64, u64)> = (0..n).map(|i| (10 + 2 * i, 10 + 2 * i + src.below(if fixed { 4 } else { 2 }))).collect();
    let e = gen_crowd(src, &classes);
    Case { ty, machine: if fixed { Machine::Fixed(e) } else { Machine::Edits(e) } }
}
fn gen_machine(src: &mut Src) -> Case {
    let ty = *src.pick(&TYS);
    let most = if src.chance(1, 3) { 14 } else { 6 };
    let n = src.range(1, most);
    let max = if n > 6 { 60 } else { 26 };
    let outs = src.range(1, 6);
    let fixed = src.chance(1, 3);
    let classes = if fixed { gen_ranges(src, ty, 7) } else if src.chance(1, 2) { gen_classes(src, ty, 5) } else { { let k = src.range(1, 4); (0..k).map(|i| (10 + 2 * i, 10 + 2 * i)).collect() } };
    let mut e = gen_edits(src, &classes, n, max, outs);
    if src.chance(3, 4) { let s = src.below(n) as u32; e.push(Edit::Out(s, src.below(outs))); }
    Case { ty, machine: if fixed { Machine::Fixed(e) } else { Machine::Edits(e) } }
}
fn gen_pats(src: &mut Src) -> Case {
    let ty = *src.pick(&TYS);
    let alpha = if src.chance(1, 2) { gen_alphabet(src, ty, 7) } else { let n = src.range(1, 4); (40..40 + n).collect() };
    let n = src.usize(1, 4);
    let pats = (0..n).map(|_| { let p = gen_pat(src, &alpha, if n == 1 { MEDIUM } else { SMALL }); (p, src.below(4)) }).collect();
    Case { ty, machine: Machine::Pats(pats) }
}
fn gen_exh(src: &mut Src) -> Case {
    let n = src.below(if src.thorough { 6 } else { 5 });
    let e = (0..n).map(|_| match src.below(3) {
        0 => { let a = src.below(3); let s = src.below(2); Edit::Trans(a as u32, s, s, src.below(3) as u32) }
        1 => { let (a, b) = [(0, 1), (0, 2), (1, 2), (2, 1)][src.below(4) as usize]; Edit::Join(a, b) }
        _ => { let a = src.below(3); Edit::Out(a as u32, src.below(2)) }
    }).collect();
    Case { ty: Ty::U8, machine: Machine::Edits(e) }
}
/// Machines with tens of thousands of states: what is emitted is read off and run
fn huge<T: Sym>(c: &HugeSet, obs: &mut Obs) -> Res {
    check_huge::<T, u32>(c, obs, &|pats, dfa, _, words, want, obs| {
        let ev = DfaCompiler::build(token_matcher::<T, u32>(pats).to_ndfa(), Recorder { ev: vec![] });
        let l = read_off("token set", &ev, &|r: &SymbolRange<T>| (r.lowest.rank(), r.highest.rank()))?;
        let own = listing::<T, u32>(dfa);
        own.well_formed().map_err(|m| format!("prepared matcher: {}", m))?;
        for (w, e) in words.iter().zip(want) {
            for (what, l) in [("what was emitted", &l), ("the prepared matcher's table", &own)] {
                let got = l.run(w);
                if got != *e { return Err(format!("{}: word {}: got {:?}, expected {:?}", what, show(w), got, e)); }
            }
        }
        obs.label_if(l.trans.len() > 65_536, "more than 65536 states emitted");
        Ok(())
    })
}
fn test_huge(c: &HugeSet, obs: &mut Obs) -> Res { match c.ty { Ty::Char => huge::<char>(c, obs), Ty::U32 => huge::<u32>(c, obs), _ => huge::<u8>(c, obs) } }

fn main() {
    main_with(Property {
        id: "C12",
        rule: "the emitted automaton has two or more states and a state with two or more transitions, and the machine given was nondeterministic or had joins",
        assumptions: &["machines whose reference automaton has more than 600 subset states are skipped", "machines compiled without removing overlaps first have transitions that are pairwise equal or disjoint, as the compiler requires"],
        subs: vec![
            sub("tiny-machines-exhaustive", Mode::Exhaustive(800_000, 30_000_000), gen_exh, test),
            sub("machines", Mode::Random(72_000, 864_000), gen_machine, test),
            sub("crowds", Mode::Random(3_000, 36_000), gen_crowds, test),
            sub("patterns", Mode::Random(36_000, 432_000), gen_pats, test),
            sub("huge", Mode::Random(80, 1_000), gen_huge, test_huge),
            harness::deep_sub!("C12"),
        ],
    });
}
