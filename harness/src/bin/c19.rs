//! C19 Symbol ranges behave as sets of symbols
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_ty;
use concordance::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: Ty, a: (u64, u64), b: (u64, u64), c: (u64, u64), syms: Vec<u64> }

fn rk<T: Sym>(r: &SymbolRange<T>) -> (u64, u64) { (r.lowest.rank(), r.highest.rank()) }
fn check<T: Sym>(c: &Case, obs: &mut Obs) -> Res {
    let mk = |r: (u64, u64)| SymbolRange::new(T::of(r.0), T::of(r.1));
    let rs = [c.a, c.b, c.c];
    let v: Vec<SymbolRange<T>> = rs.iter().map(|r| mk(*r)).collect();
    for (x, r) in v.iter().zip(&rs) {
        if rk(x) != *r { return Err(format!("the range made from {:?} runs from {:?}", r, rk(x))); }
        // Reversed ends are refused
        if r.0 < r.1 && !panics(|| { let _ = SymbolRange::new(T::of(r.1), T::of(r.0)); }) { return Err(format!("a range from {:?} down to {:?} was created", T::of(r.1), T::of(r.0))); }
        for s in &c.syms {
            let got = x.includes(&T::of(*s));
            let want = r.0 <= *s && *s <= r.1;
            if got != want { return Err(format!("{:?} includes {:?}: {}, expected {}", x, T::of(*s), got, want)); }
            obs.ran(1);
        }
        if !x.includes(&x.lowest) || !x.includes(&x.highest) { return Err(format!("{:?} does not include its own ends", x)); }
    }
    for (x, r) in v.iter().zip(&rs) {
        for (y, q) in v.iter().zip(&rs) {
            let inter = (r.0.max(q.0), r.1.min(q.1));
            let want = inter.0 <= inter.1;
            if x.overlaps(y) != want { return Err(format!("{:?} overlaps {:?}: {}, expected {}", x, y, x.overlaps(y), want)); }
            // The two ends of what they share, seen through membership
            if want { for s in [inter.0, inter.1] { let s = T::of(s); if !(x.includes(&s) && y.includes(&s)) { return Err(format!("{:?} and {:?} should both include {:?}", x, y, s)); } } }
            for s in &c.syms { let s = T::of(*s); if x.includes(&s) && y.includes(&s) && !x.overlaps(y) { return Err(format!("{:?} and {:?} both include {:?} but do not overlap", x, y, s)); } }
            let j = x.join(y);
            let want = (r.0.min(q.0), r.1.max(q.1));
            if rk(&j) != want { return Err(format!("{:?} joined with {:?} is {:?}, expected ranks {:?}", x, y, j, want)); }
            for s in &c.syms { let s = T::of(*s); if (x.includes(&s) || y.includes(&s)) && !j.includes(&s) { return Err(format!("{:?} joined with {:?} lost {:?}", x, y, s)); } }
            if y.join(x) != j { return Err(format!("joining {:?} and {:?} depends on the order", x, y)); }
            let ord = r.cmp(q);
            if x.cmp(y) != ord || x.partial_cmp(y) != Some(ord) { return Err(format!("{:?} compared with {:?}: {:?} / {:?}, expected {:?}", x, y, x.cmp(y), x.partial_cmp(y), ord)); }
            if (x == y) != (ord == Ordering::Equal) || (x < y) != (ord == Ordering::Less) || (x >= y) != (ord != Ordering::Less) { return Err(format!("{:?} and {:?}: comparison operators disagree with the order", x, y)); }
            if x.clone() != *x { return Err(format!("a copy of {:?} is not equal to it", x)); }
            obs.ran(6);
        }
    }
    let j1 = v[0].join(&v[1]).join(&v[2]);
    let j2 = v[0].join(&v[1].join(&v[2]));
    if j1 != j2 { return Err(format!("joining {:?} depends on the grouping: {:?} / {:?}", v, j1, j2)); }
    let mut sorted = v.clone(); sorted.sort();
    let mut want = rs.to_vec(); want.sort();
    if sorted.iter().map(rk).collect::<Vec<_>>() != want { return Err(format!("sorted, the ranges are {:?}", sorted)); }
    let touch = rs.iter().any(|r| rs.iter().any(|q| r.1 == q.0 && r != q));
    let adjacent = rs.iter().any(|r| rs.iter().any(|q| q.0 > 0 && q.0 - 1 == r.1));
    let within = rs.iter().any(|r| rs.iter().any(|q| r != q && r.0 <= q.0 && q.1 <= r.1));
    let partial = rs.iter().any(|r| rs.iter().any(|q| r.0 < q.0 && q.0 <= r.1 && r.1 < q.1));
    obs.label_if(touch, "ranges sharing one end symbol");
    obs.label_if(adjacent, "adjacent ranges");
    obs.label_if(within, "a range within another");
    obs.label_if(partial, "partly overlapping ranges");
    obs.label_if(rs.iter().any(|r| r.1 == T::MAX), "a range up to the end of the type");
    obs.nontrivial = touch || adjacent || within || partial;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res { with_ty!(c.ty, T => check::<T>(c, obs)) }
fn gen(src: &mut Src) -> Case {
    let ty = gen_ty(src);
    let m = max_rank(ty);
    let alpha = if src.chance(2, 3) { gen_alphabet(src, ty, 6) } else { (0..6).map(|_| gen_rank(src, ty)).collect() };
    let pick = |s: &mut Src| { let a = *s.pick(&alpha); let b = *s.pick(&alpha); (a.min(b), a.max(b)) };
    let (a, b, c) = (pick(src), pick(src), pick(src));
    let mut syms: Vec<u64> = [a, b, c].iter().flat_map(|r| [r.0, r.1, r.0.saturating_sub(1), r.1.saturating_add(1).min(m), r.0 + (r.1 - r.0) / 2]).collect();
    syms.extend([0, m, gen_rank(src, ty)]);
    Case { ty, a, b, c, syms }
}
/// Every three ranges within 0..=5 with every symbol of 0..=6; in i8 around zero too
fn gen_exh(src: &mut Src) -> Case {
    let ty = *src.pick(&[Ty::U8, Ty::I8, Ty::Tri, Ty::Desc]);
    let off = if ty == Ty::I8 { 125 } else if ty == Ty::Desc { 65530 } else { 0 };
    let n = if ty == Ty::Tri { 3 } else if src.thorough { 6 } else { 5 };
    let mut r = || { let a = src.below(n); let b = a + src.below(n - a); (a + off, b + off) };
    let (a, b, c) = (r(), r(), r());
    let syms = (0..=n).map(|x| (x + off).min(max_rank(ty))).collect();
    Case { ty, a, b, c, syms }
}
fn main() {
    main_with(Property {
        id: "C19",
        rule: "two of the three ranges touch, are adjacent, overlap partly or lie one within the other",
        assumptions: &["ranges are made with the checked constructor"],
        subs: vec![
            sub("small-exhaustive", Mode::Exhaustive(300_000, 1_000_000), gen_exh, test),
            sub("random", Mode::Random(4_800_000, 19_200_000), gen, test),
        ],
    });
}
