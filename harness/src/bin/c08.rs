//! C08 Splitting overlapping ranges gives an exact disjoint partition
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_ty;
use concordance::overlapping_symbols::*;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, ranges: Vec<(u64, u64)>, order: Vec<u64> }

/// Elementary segments of the union
fn segments(ranges: &[(u64, u64)], max: u64) -> Vec<(u64, u64)> {
    let mut starts: BTreeSet<u64> = BTreeSet::new();
    for (a, b) in ranges { starts.insert(*a); if *b < max { starts.insert(*b + 1); } }
    let v: Vec<u64> = starts.into_iter().collect();
    let mut r = vec![];
    for (i, s) in v.iter().enumerate() {
        if ranges.iter().any(|(a, b)| a <= s && s <= b) { r.push((*s, if i + 1 < v.len() { v[i + 1] - 1 } else { max })); }
    }
    r
}
fn all<T: Sym>(m: &SymbolMap<T>) -> Vec<(u64, u64)> {
    m.find_overlapping_ranges(&SymbolRange::new(T::of(0), T::of(T::MAX))).into_iter().map(|r| (r.lowest.rank(), r.highest.rank())).collect()
}
fn check<T: Sym>(c: &Case, obs: &mut Obs) -> Res {
    let want = segments(&c.ranges, T::MAX);
    let mut orders: Vec<Vec<(u64, u64)>> = vec![c.ranges.clone()];
    let mut rev = c.ranges.clone(); rev.reverse(); rev.extend(c.ranges.iter().take(3).copied());
    orders.push(rev);
    let mut rest = c.ranges.clone(); let mut perm = vec![]; let mut i = 0;
    while !rest.is_empty() { let k = c.order.get(i).copied().unwrap_or(0) as usize % rest.len(); perm.push(rest.remove(k)); i += 1; }
    orders.push(perm);
    for (n, o) in orders.iter().enumerate() {
        let mut m: SymbolMap<T> = SymbolMap::new();
        let half = o.len() / 2;
        for (i, (a, b)) in o.iter().enumerate() {
            m.add_range(&SymbolRange::new(T::of(*a), T::of(*b)));
            // A map that is split and then added to, and ranges added to the non-overlapping form
            if n > 0 && i + 1 == half {
                let want = segments(&o[..half], T::MAX);
                let mut split = m.to_non_overlapping_map();
                let got = all(&split);
                if got != want { return Err(format!("type {:?}, ranges {:?}: split into {:?}, expected {:?}", c.ty, &o[..half], got, want)); }
                for (a, b) in &o[half..] { split.add_range(&SymbolRange::new(T::of(*a), T::of(*b))); }
                let both: Vec<(u64, u64)> = want.iter().chain(&o[half..]).copied().collect();
                let got = all(&split.to_non_overlapping_map());
                let want = segments(&both, T::MAX);
                if got != want { return Err(format!("type {:?}, ranges {:?} added to the non-overlapping form of {:?}: split into {:?}, expected {:?}", c.ty, &o[half..], &o[..half], got, want)); }
            }
        }
        let before = all(&m);
        let split = m.to_non_overlapping_map();
        let got = all(&split);
        if got != want { return Err(format!("type {:?}, ranges {:?} (order {}): split into {:?}, expected {:?}", c.ty, o, n, got, want)); }
        if all(&m) != before { return Err(format!("type {:?}, ranges {:?}: the original map changed", c.ty, o)); }
        let again = all(&split.to_non_overlapping_map());
        if again != want { return Err(format!("type {:?}, ranges {:?}: splitting twice gives {:?}, once gives {:?}", c.ty, o, again, want)); }
    }
    let overlap = (0..c.ranges.len()).filter(|i| (0..*i).any(|j| c.ranges[*i] != c.ranges[j] && c.ranges[*i].0 <= c.ranges[j].1 && c.ranges[j].0 <= c.ranges[*i].1)).count();
    obs.ran(orders.len() as u64 * 2);
    obs.label_if(overlap >= 2, "three or more ranges involved in overlaps");
    obs.label_if(c.ranges.iter().any(|r| r.1 == T::MAX) , "touches the largest value");
    obs.label_if(c.ranges.iter().any(|r| r.0 == 0), "touches the smallest value");
    obs.label_if(want.windows(2).any(|w| w[0].1 + 1 < w[1].0), "gaps remain");
    obs.nontrivial = overlap >= 1;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T>(c, obs)) }

fn gen(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let alpha = gen_alphabet(src, ty, 10);
    let ranges = src.list(0, 12, 5, |s| { let a = *s.pick(&alpha); let b = *s.pick(&alpha); (a.min(b), a.max(b)) });
    let order = ranges.iter().map(|_| src.below(97)).collect();
    Case { ty, ranges, order }
}
fn gen_many(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let m = max_rank(ty);
    let n = src.usize(10, if src.thorough { 160 } else { 60 });
    let width = src.range(3, 300).min(m);
    let base = gen_rank(src, ty).min(m - width);
    let shape = src.below(4);
    let ranges: Vec<(u64, u64)> = (0..n as u64).map(|i| {
        let a = match shape { 0 => src.below(width + 1), 1 => i.min(width), 2 => 0, _ => src.below(width + 1) / 5 * 5 };
        let l = match shape { 1 => width - i.min(width) * 2 % (width + 1), 2 => src.below(width + 1), _ => src.below(width / 2 + 1) };
        (base + a, base + (a + l).min(width))
    }).collect();
    let order = ranges.iter().map(|_| src.below(97)).collect();
    Case { ty, ranges, order }
}
/// Every list of up to 4 (5) ranges over a window of five symbols at either end and in the middle of a type
fn gen_exh(src: &mut Src) -> Case {
    let (ty, base) = [(Ty::U8, 0), (Ty::U8, 251), (Ty::Char, 0xD7FE), (Ty::Tri, 0), (Ty::I8, 126)][src.below(5) as usize];
    let w = max_rank(ty).min(4) + 1;
    let mut all = vec![];
    for a in 0..w { for b in a..w { all.push((base + a, base + b)); } }
    let n = src.below(if src.thorough { 6 } else { 5 });
    let ranges = (0..n).map(|_| all[src.below(all.len() as u64) as usize]).collect();
    Case { ty, ranges, order: vec![1, 1, 0] }
}
/// Thousands of ranges in a few regular groups: (start, step, width, growth of the width, how many)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Huge { ty: Ty, groups: Vec<(u64, u64, u64, u64, u64)>, shuffled: bool }
fn expand(g: &[(u64, u64, u64, u64, u64)], max: u64) -> Vec<(u64, u64)> {
    g.iter().flat_map(|(a, step, w, grow, n)| (0..*n).map(move |i| { let s = a.saturating_add(i.saturating_mul(*step)); (s, s.saturating_add(w + i * grow)) })).filter(|r| r.1 <= max).collect()
}
/// Elementary segments by sweeping
fn sweep(ranges: &[(u64, u64)], max: u64) -> Vec<(u64, u64)> {
    let mut ev: std::collections::BTreeMap<u64, i64> = Default::default();
    for (a, b) in ranges { *ev.entry(*a).or_insert(0) += 1; if *b < max { *ev.entry(*b + 1).or_insert(0) -= 1; } }
    let v: Vec<(u64, i64)> = ev.into_iter().collect();
    let mut depth = 0;
    let mut r = vec![];
    for (i, (s, d)) in v.iter().enumerate() { depth += d; if depth > 0 { r.push((*s, v.get(i + 1).map(|n| n.0 - 1).unwrap_or(max))); } }
    r
}
fn check_huge<T: Sym>(c: &Huge, obs: &mut Obs) -> Res {
    let mut ranges = expand(&c.groups, T::MAX);
    if c.shuffled && ranges.len() < 20_000 { let n = ranges.len(); let k = (n / 3) | 1; if n > 0 { ranges.rotate_left(n / 2); for i in (0..n).step_by(2) { ranges.swap(i, i * k % n); } } }
    let want = sweep(&ranges, T::MAX);
    if ranges.len() < 300 && want != segments(&ranges, T::MAX) { return harness_bug("sweep and segments differ".into()); }
    let mut m: SymbolMap<T> = SymbolMap::new();
    for (a, b) in &ranges { m.add_range(&SymbolRange::new(T::of(*a), T::of(*b))); }
    let split = m.to_non_overlapping_map();
    let got = all(&split);
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("{} ranges {:?}: split into {} ranges, expected {}; number {} is {:?}, expected {:?}", ranges.len(), c.groups, got.len(), want.len(), i, got.get(i), want.get(i)));
    }
    let again = all(&split.to_non_overlapping_map());
    if again != want { return Err(format!("{:?}: splitting twice differs", c.groups)); }
    obs.ran(2);
    obs.label_if(ranges.len() > 65_535, "more than 65535 ranges");
    obs.nontrivial = ranges.len() > 250 && want.len() > ranges.len();
    Ok(())
}
fn test_huge(c: &Huge, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check_huge::<T>(c, obs)) }
fn gen_huge(src: &mut Src) -> Huge {
    let ty = *src.pick(&[Ty::U64, Ty::Char, Ty::U32, Ty::I32, Ty::U16]);
    let m = max_rank(ty);
    let mut total = 0;
    let groups = src.list(1, 4, 2, |s| {
        let n = match s.below(6) { 0 | 1 => s.range(250, 260), 2 => s.range(500, 3000), 3 => s.range(4090, 4100), 4 => s.range(3000, 9000), _ => if total == 0 && s.chance(1, 3) { s.range(65_530, 70_000) } else { 3 } };
        total += n;
        let step = s.range(0, 9);
        let w = s.below(20);
        let grow = if n < 1000 { s.below(2) } else { 0 };
        let start = if s.chance(1, 4) { m.saturating_sub(n * step + w) } else { gen_rank(s, ty).min(m / 2) };
        (start, if n > 60_000 { step.max(1) } else { step }, if n > 60_000 { w.min(2 * step) } else { w }, grow, n)
    });
    Huge { ty, groups, shuffled: src.chance(1, 2) }
}
fn main() {
    main_with(Property {
        id: "C08",
        rule: "two different ranges of the set overlap",
        assumptions: &["the contents of a map are read by looking up the range of all values of the type"],
        subs: vec![
            sub("windows-exhaustive", Mode::Exhaustive(1_000_000, 10_000_000), gen_exh, test),
            sub("random", Mode::Random(2_700_000, 10_800_000), gen, test),
            sub("many-ranges", Mode::Random(180_000, 720_000), gen_many, test),
            sub("huge", Mode::Random(600, 9_000), gen_huge, test_huge),
            harness::deep_sub!("C08"),
        ],
    });
}
