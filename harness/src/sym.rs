//! Symbol and output types, each with an order-preserving rank so that cases and oracles work on plain numbers.

use crate::src::Src;
use concordance::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cmp::Ordering;
use std::fmt::Debug;

/// A symbol type of the library under test. `rank` is monotone in the type's order.
pub trait Sym: Ord + Clone + Countable + Debug + Serialize + DeserializeOwned + Send + 'static {
    const MAX: u64;
    fn rank(&self) -> u64;
    fn of(rank: u64) -> Self;
}

#[inline]
fn in_type(r: u64, max: u64) { assert!(r <= max, "HARNESS: rank {} in a type with {} as its greatest", r, max) }

macro_rules! unsigned { ($($t:ty),*) => { $(impl Sym for $t {
    const MAX: u64 = <$t>::MAX as u64;
    fn rank(&self) -> u64 { *self as u64 }
    fn of(r: u64) -> Self { in_type(r, <Self as Sym>::MAX); r as $t }
})* } }
macro_rules! signed { ($($t:ty),*) => { $(impl Sym for $t {
    const MAX: u64 = (<$t>::MAX as i128 - <$t>::MIN as i128) as u64;
    fn rank(&self) -> u64 { (*self as i128 - <$t>::MIN as i128) as u64 }
    fn of(r: u64) -> Self { in_type(r, <Self as Sym>::MAX); (r as i128 + <$t>::MIN as i128) as $t }
})* } }
unsigned!(u8, u16, u32, u64, usize);
signed!(i8, i16, i32, i64, isize);

impl Sym for char {
    const MAX: u64 = 0x10FFFF - 0x800;
    fn rank(&self) -> u64 { let c = *self as u64; if c >= 0xE000 { c - 0x800 } else { c } }
    fn of(r: u64) -> Self { in_type(r, <Self as Sym>::MAX); char::from_u32(if r >= 0xD800 { r + 0x800 } else { r } as u32).expect("rank of a char") }
}

impl Out for Option<u32> { fn orank(&self) -> u64 { self.map_or(0, |o| o as u64 + 1) } fn oof(r: u64) -> Self { if r == 0 { None } else { Some(r as u32 - 1) } } }
impl Out for () { fn orank(&self) -> u64 { 0 } fn oof(_: u64) -> Self { } }
/// Ordered the other way round from its contents
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Desc(pub u16);
impl PartialOrd for Desc { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Desc { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Countable for Desc {
    fn next(&self) -> Self { Desc(self.0 - 1) }
    fn prev(&self) -> Self { Desc(self.0 + 1) }
}
impl Sym for Desc {
    const MAX: u64 = 65535;
    fn rank(&self) -> u64 { 65535 - self.0 as u64 }
    fn of(r: u64) -> Self { in_type(r, <Self as Sym>::MAX); Desc((65535 - r) as u16) }
}

/// Three values only
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Tri { Lo, Mid, Hi }
impl Countable for Tri {
    fn next(&self) -> Self { match self { Tri::Lo => Tri::Mid, Tri::Mid => Tri::Hi, Tri::Hi => panic!("Tri has no value after Hi") } }
    fn prev(&self) -> Self { match self { Tri::Hi => Tri::Mid, Tri::Mid => Tri::Lo, Tri::Lo => panic!("Tri has no value before Lo") } }
}
impl Sym for Tri {
    const MAX: u64 = 2;
    fn rank(&self) -> u64 { *self as u64 }
    fn of(r: u64) -> Self { in_type(r, <Self as Sym>::MAX); [Tri::Lo, Tri::Mid, Tri::Hi][r as usize] }
}

/// A two-part symbol ordered lexicographically whose second part only takes the values 0..PARTS (countable, but
/// not an integer), and which is not `Copy`
const PARTS: u64 = 7;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Pair { a: u8, b: Box<u8> }
impl Countable for Pair {
    fn next(&self) -> Self { Pair::of(self.rank().checked_add(1).filter(|r| *r <= Pair::MAX).expect("no next Pair")) }
    fn prev(&self) -> Self { Pair::of(self.rank().checked_sub(1).expect("no previous Pair")) }
}
impl Sym for Pair {
    const MAX: u64 = 256 * PARTS - 1;
    fn rank(&self) -> u64 { self.a as u64 * PARTS + *self.b as u64 }
    fn of(r: u64) -> Self { in_type(r, <Self as Sym>::MAX); Pair { a: (r / PARTS) as u8, b: Box::new((r % PARTS) as u8) } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty { U8, U16, U32, U64, Usize, I8, I16, I32, I64, Isize, Char, Desc, Tri, Pair }
pub const ALL_TYS: [Ty; 14] = [Ty::U8, Ty::Char, Ty::I8, Ty::Usize, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::U16, Ty::I16, Ty::Isize, Ty::Desc, Ty::Tri, Ty::Pair];

#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => { match $ty {
        $crate::sym::Ty::U8 => { type $T = u8; $e } $crate::sym::Ty::U16 => { type $T = u16; $e } $crate::sym::Ty::U32 => { type $T = u32; $e }
        $crate::sym::Ty::U64 => { type $T = u64; $e } $crate::sym::Ty::Usize => { type $T = usize; $e }
        $crate::sym::Ty::I8 => { type $T = i8; $e } $crate::sym::Ty::I16 => { type $T = i16; $e } $crate::sym::Ty::I32 => { type $T = i32; $e }
        $crate::sym::Ty::I64 => { type $T = i64; $e } $crate::sym::Ty::Isize => { type $T = isize; $e }
        $crate::sym::Ty::Char => { type $T = char; $e } $crate::sym::Ty::Desc => { type $T = $crate::sym::Desc; $e }
        $crate::sym::Ty::Tri => { type $T = $crate::sym::Tri; $e } $crate::sym::Ty::Pair => { type $T = $crate::sym::Pair; $e }
    } }
}

pub fn max_rank(ty: Ty) -> u64 { with_ty!(ty, T => <T as Sym>::MAX) }

/// Ranks at which something special may happen in a type: its ends, the sign change, the surrogate gap,
/// limits of narrower types
pub fn anchors(ty: Ty) -> Vec<u64> {
    let m = max_rank(ty);
    let mut v = vec![0, m, m / 2, m / 2 + 1];
    for s in [7u32, 8, 15, 16, 31, 32, 63] { let x = 1u64 << s; if x <= m { v.push(x); v.push(x - 1); v.push(m - x); v.push(m - (x - 1)); } }
    if ty == Ty::Char { v.extend([0x7F, 0x80, 0x7FF, 0x800, 0xD7FE, 0xD7FF, 0xD800, 0xD801, 0xF7FF, 0xF800, 'a' as u64, 'z' as u64]);
        // Characters that text handling tends to treat specially
        v.extend([9u64, 0xA, 0xD, 0x1A, 0x1B, 0x20, 0x85, 0xA0, 'A' as u64, 'Z' as u64, 0xAD, 0xDF, 0x130, 0x131, 0x300, 0x200B, 0x200D, 0x200E, 0x2028, 0x2029, 0xFB01, 0xFE0F, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xE0001].iter().map(|c| if *c >= 0xE000 { c - 0x800 } else { *c })); }
    if ty == Ty::Pair { v.extend([PARTS - 1, PARTS]); }
    v.retain(|x| *x <= m);
    v.sort(); v.dedup();
    v
}

/// A symbol whose value (or code point) is written in the library's source, or a neighbour
fn dict_rank(src: &mut Src, ty: Ty) -> u64 {
    let m = max_rank(ty);
    let v = crate::dict::values();
    if v.is_empty() { return 0; }
    let x = *src.pick(v);
    let x = match ty {
        Ty::Char => if x >= 0xE000 { x - 0x800 } else { x },
        Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::Isize => { let zero = m / 2 + 1; if src.chance(1, 4) { zero.saturating_sub(x) } else { zero.saturating_add(x) } }
        _ => x,
    };
    match src.below(6) { 4 => x.saturating_add(1), 5 => x.saturating_sub(1), _ => x }.min(m)
}

/// A boundary-biased rank
pub fn gen_rank(src: &mut Src, ty: Ty) -> u64 {
    let m = max_rank(ty);
    match src.weighted(&[6, 8, 4, 1]) {
        0 => src.range(0, m.min(12)),
        3 => dict_rank(src, ty),
        1 => {
            let a = *src.pick(&anchors(ty));
            let d = src.below(5) as i64;
            let d = [0i64, 1, -1, 2, -2][d as usize];
            if d < 0 { a.saturating_sub((-d) as u64) } else { a.saturating_add(d as u64).min(m) }
        }
        _ => src.range(0, m),
    }
}

/// A small sorted set of ranks from which a case draws its symbols
pub fn gen_alphabet(src: &mut Src, ty: Ty, max: usize) -> Vec<u64> {
    let m = max_rank(ty);
    let mut v = match src.weighted(&[4, 3, 2]) {
        // A contiguous window
        0 => {
            let base = if src.chance(1, 2) { gen_rank(src, ty) } else { src.range(0, m.min(97)) };
            let n = src.range(1, max as u64 - 1);
            let base = base.min(m.saturating_sub(n));
            (0..=n).map(|i| (base + i).min(m)).collect::<Vec<_>>()
        }
        // Neighbourhoods of special points
        1 => { let n = src.usize(1, max); (0..n).map(|_| gen_rank(src, ty)).collect() }
        // Ends of the type and a window
        _ => {
            let base = src.range(0, m.min(300));
            let mut v: Vec<u64> = (0..(max as u64 / 2)).map(|i| (base + i).min(m)).collect();
            v.extend([0, m, m.saturating_sub(1), 1.min(m)]);
            v
        }
    };
    v.sort(); v.dedup();
    v
}

pub fn gen_ty(src: &mut Src) -> Ty { *src.pick(&ALL_TYS) }

pub fn to_syms<T: Sym>(w: &[u64]) -> Vec<T> { w.iter().map(|r| T::of(*r)).collect() }

/// An output type of the library under test, ranked in its own order
pub trait Out: Ord + Clone + Debug + Serialize + DeserializeOwned + 'static {
    fn orank(&self) -> u64;
    fn oof(rank: u64) -> Self;
}
impl Out for u32 { fn orank(&self) -> u64 { *self as u64 } fn oof(r: u64) -> Self { r as u32 } }
impl Out for i64 { fn orank(&self) -> u64 { (*self + 5) as u64 } fn oof(r: u64) -> Self { r as i64 - 5 } }
impl Out for String { fn orank(&self) -> u64 { self.parse().expect("an output") } fn oof(r: u64) -> Self { format!("{:06}", r) } }
/// Ordered the other way round from its contents
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct RevOut(pub u32);
impl PartialOrd for RevOut { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for RevOut { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Out for RevOut { fn orank(&self) -> u64 { (u32::MAX - self.0) as u64 } fn oof(r: u64) -> Self { RevOut(u32::MAX - r as u32) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum OutTy { U32, I64, Str, Rev, Opt, Unit }
/// (Not `Unit`, which has only one value)
pub const ALL_OUTS: [OutTy; 5] = [OutTy::U32, OutTy::I64, OutTy::Str, OutTy::Rev, OutTy::Opt];
#[macro_export]
macro_rules! with_out {
    ($ty:expr, $O:ident => $e:expr) => { match $ty {
        $crate::sym::OutTy::U32 => { type $O = u32; $e } $crate::sym::OutTy::I64 => { type $O = i64; $e }
        $crate::sym::OutTy::Str => { type $O = String; $e } $crate::sym::OutTy::Rev => { type $O = $crate::sym::RevOut; $e }
        $crate::sym::OutTy::Opt => { type $O = Option<u32>; $e } $crate::sym::OutTy::Unit => { type $O = (); $e }
    } }
}
pub fn gen_out_ty(src: &mut Src) -> OutTy { *src.pick(&ALL_OUTS) }
