//! C09 Looking up overlaps returns every overlapping range and nothing else
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_ty;
use concordance::overlapping_symbols::*;
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, ranges: Vec<(u64, u64)>, queries: Vec<(u64, u64)> }

fn look<T: Sym>(m: &SymbolMap<T>, q: (u64, u64)) -> Vec<(u64, u64)> {
    m.find_overlapping_ranges(&SymbolRange::new(T::of(q.0), T::of(q.1))).into_iter().map(|r| (r.lowest.rank(), r.highest.rank())).collect()
}
fn check<T: Sym>(c: &Case, obs: &mut Obs) -> Res {
    let mut m: SymbolMap<T> = SymbolMap::new();
    let mut set: Vec<(u64, u64)> = vec![];
    let mut partial = 0;
    for (i, (a, b)) in c.ranges.iter().enumerate() {
        m.add_range(&SymbolRange::new(T::of(*a), T::of(*b)));
        if !set.contains(&(*a, *b)) { set.push((*a, *b)); set.sort(); }
        // While the map is being filled, and at the end with every query and with each range itself
        let qs: Vec<(u64, u64)> = if i + 1 == c.ranges.len() { c.queries.iter().chain(c.ranges.iter()).copied().collect() } else { c.queries.iter().take(2).copied().collect() };
        for q in qs {
            let want: Vec<(u64, u64)> = set.iter().copied().filter(|r| r.0 <= q.1 && q.0 <= r.1).collect();
            let got = look(&m, q);
            if got != want { return Err(format!("type {:?}, ranges {:?}, query {:?}: found {:?}, expected {:?}", c.ty, &c.ranges[..=i], q, got, want)); }
            if !want.is_empty() && want.len() < set.len() { partial += 1 }
            obs.ran(1);
        }
    }
    // The same in the non-overlapping form
    if !set.is_empty() {
        let mut split = m.to_non_overlapping_map();
        let parts = look(&split, (0, T::MAX));
        for q in &c.queries {
            let want: Vec<(u64, u64)> = parts.iter().copied().filter(|r| r.0 <= q.1 && q.0 <= r.1).collect();
            let got = look(&split, *q);
            if got != want { return Err(format!("type {:?}, non-overlapping form {:?}, query {:?}: found {:?}, expected {:?}", c.ty, parts, q, got, want)); }
        }
        // And with ranges added to that form
        let mut set: std::collections::BTreeSet<(u64, u64)> = parts.into_iter().collect();
        for (i, a) in c.queries.iter().take(4).enumerate() {
            split.add_range(&SymbolRange::new(T::of(a.0), T::of(a.1)));
            set.insert(*a);
            let q = c.queries[(i * 5 + 1) % c.queries.len()];
            let want: Vec<(u64, u64)> = set.iter().copied().filter(|r| r.0 <= q.1 && q.0 <= r.1).collect();
            let got = look(&split, q);
            if got != want { return Err(format!("type {:?}, non-overlapping form of {:?} with {:?} added, query {:?}: found {:?}, expected {:?}", c.ty, c.ranges, &c.queries[..=i], q, got, want)); }
        }
    } else if !look(&m, (0, T::MAX)).is_empty() { return Err("an empty map returned a range".into()); }
    let nested = set.iter().any(|a| set.iter().any(|b| a != b && a.0 <= b.0 && b.1 <= a.1));
    obs.label_if(nested, "nested ranges");
    obs.nontrivial = partial > 0;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T>(c, obs)) }
fn range_in(s: &mut Src, alpha: &[u64]) -> (u64, u64) { let a = *s.pick(alpha); let b = if s.chance(1, 3) { a } else { *s.pick(alpha) }; (a.min(b), a.max(b)) }
fn gen(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let alpha = gen_alphabet(src, ty, 12);
    let ranges = src.list(0, 14, 6, |s| range_in(s, &alpha));
    let queries = src.list(1, 12, 8, |s| if s.chance(1, 5) { let a = gen_rank(s, ty); let b = gen_rank(s, ty); (a.min(b), a.max(b)) } else { range_in(s, &alpha) });
    Case { ty, ranges, queries }
}
fn gen_many(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::Char, Ty::U64, Ty::I32]);
    let n = src.usize(15, if src.thorough { 300 } else { 80 });
    let base = gen_rank(src, ty).min(max_rank(ty) - 200);
    let wide = src.below(3);
    let one = |s: &mut Src| { let a = s.below(190); let l = match wide { 0 => s.below(4), 1 => s.below(60), _ => if s.chance(1, 10) { 190 } else { s.below(5) } }; (base + a, base + (a + l).min(199)) };
    let ranges = (0..n).map(|_| one(src)).collect();
    let queries = (0..20).map(|_| one(src)).collect();
    Case { ty, ranges, queries }
}
/// Every set of up to 3 (4) ranges over a six-symbol window with every query in it
fn gen_exh(src: &mut Src) -> Case {
    let (ty, base) = [(Ty::U8, 0), (Ty::U8, 250), (Ty::Desc, 100)][src.below(3) as usize];
    let mut all = vec![];
    for a in 0..6 { for b in a..6 { all.push((base + a, base + b)); } }
    let n = src.below(if src.thorough { 5 } else { 4 });
    let ranges = (0..n).map(|_| all[src.below(all.len() as u64) as usize]).collect();
    Case { ty, ranges, queries: all }
}
/// Thousands of ranges in regular groups: (start, step, width, how many)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Huge { ty: Ty, groups: Vec<(u64, u64, u64, u64)>, queries: Vec<(u64, u64)> }
fn check_huge<T: Sym>(c: &Huge, obs: &mut Obs) -> Res {
    let ranges: Vec<(u64, u64)> = c.groups.iter().flat_map(|(a, step, w, n)| (0..*n).map(move |i| (a + i * step, a + i * step + w))).filter(|r| r.1 <= T::MAX).collect();
    let mut m: SymbolMap<T> = SymbolMap::new();
    for (a, b) in &ranges { m.add_range(&SymbolRange::new(T::of(*a), T::of(*b))); }
    let set: Vec<(u64, u64)> = ranges.iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let split = m.to_non_overlapping_map();
    let parts = look(&split, (0, T::MAX));
    let mut partial = 0;
    for q in c.queries.iter().chain([(0, T::MAX)].iter()).chain(set.iter().step_by(set.len() / 7 + 1)).chain(set.last()) {
        for (name, map, set) in [("", &m, &set), ("non-overlapping form of ", &split, &parts)] {
            let want: Vec<(u64, u64)> = set.iter().copied().filter(|r| r.0 <= q.1 && q.0 <= r.1).collect();
            let got = look(map, *q);
            if got != want {
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("{}{} ranges {:?}, query {:?}: found {} ranges, expected {}; number {} is {:?}, expected {:?}", name, ranges.len(), c.groups, q, got.len(), want.len(), i, got.get(i), want.get(i)));
            }
            if !want.is_empty() && want.len() < set.len() { partial += 1 }
            obs.ran(1);
        }
    }
    obs.label_if(set.len() > 65_535, "more than 65535 ranges");
    obs.nontrivial = set.len() > 250 && partial > 0;
    Ok(())
}
fn test_huge(c: &Huge, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check_huge::<T>(c, obs)) }
fn gen_huge(src: &mut Src) -> Huge {
    let ty = *src.pick(&[Ty::U64, Ty::Char, Ty::U32, Ty::I32, Ty::U16]);
    let m = max_rank(ty);
    let mut total = 0;
    let groups: Vec<(u64, u64, u64, u64)> = src.list(1, 4, 2, |s| {
        let n = match s.below(6) { 0 | 1 => s.range(250, 260), 2 => s.range(500, 3000), 3 => s.range(4090, 4100), 4 => s.range(3000, 9000), _ => if total == 0 { s.range(65_530, 70_000) } else { 3 } };
        total += n;
        let step = s.range(1, 9);
        let w = if n < 5000 && s.chance(1, 4) { s.range(100, 900) } else { s.below(20) };
        let span = n * step + w;
        (if s.chance(1, 4) { m.saturating_sub(span) } else { gen_rank(s, ty).min(m / 2) }, step, w, n)
    });
    let queries = src.list(1, 8, 5, |s| {
        let g = *s.pick(&groups);
        let a = g.0 + s.below(g.1 * g.3 + g.2).min(m - g.0.min(m));
        let w = match s.below(4) { 0 => 0, 1 => s.below(30), 2 => s.below(1 + g.1 * g.3), _ => s.below(70_000) };
        (a.min(m), a.saturating_add(w).min(m))
    });
    Huge { ty, groups, queries }
}
fn main() {
    main_with(Property {
        id: "C09",
        rule: "some query overlaps at least one but not all of the ranges",
        assumptions: &[],
        subs: vec![
            sub("windows-exhaustive", Mode::Exhaustive(1_000_000, 10_000_000), gen_exh, test),
            sub("random", Mode::Random(3_200_000, 19_200_000), gen, test),
            sub("many-ranges", Mode::Random(96_000, 576_000), gen_many, test),
            sub("huge", Mode::Random(600, 9_000), gen_huge, test_huge),
            harness::deep_sub!("C09"),
        ],
    });
}
