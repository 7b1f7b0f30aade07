//! C18 Next and previous symbol are exact neighbours in every type
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::with_ty;
use concordance::*;
use serde::{Deserialize, Serialize};

const LIB: [Ty; 11] = [Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::Char, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::Usize, Ty::Isize];

/// Consecutive values of a type, by rank
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Block { ty: Ty, start: u64, len: u64 }

fn one<T: Sym>(r: u64) -> Res {
    let v = T::of(r);
    if v.rank() != r { return harness_bug(format!("rank {} of {:?}", r, v)); }
    if r < T::MAX {
        let up = T::of(r + 1);
        if !(v < up) { return harness_bug(format!("{:?} and {:?} are not in order", v, up)); }
        let n = Countable::next(&v);
        if n != up || !(n > v) { return Err(format!("next of {:?} (number {} of its type) is {:?}, expected {:?}", v, r, n, up)); }
        let back = Countable::prev(&n);
        if back != v { return Err(format!("previous of next of {:?} is {:?}", v, back)); }
    }
    if r > 0 {
        let down = T::of(r - 1);
        let p = Countable::prev(&v);
        if p != down || !(p < v) { return Err(format!("previous of {:?} (number {} of its type) is {:?}, expected {:?}", v, r, p, down)); }
        let again = Countable::next(&p);
        if again != v { return Err(format!("next of previous of {:?} is {:?}", v, again)); }
    }
    Ok(())
}
fn block<T: Sym>(b: &Block, obs: &mut Obs) -> Res {
    for r in b.start..=b.start.saturating_add(b.len - 1).min(T::MAX) { one::<T>(r)?; obs.ran(4); }
    // The whole block walked upwards and downwards
    let end = b.start.saturating_add(b.len - 1).min(T::MAX);
    let mut v = T::of(b.start);
    for r in b.start..end { v = Countable::next(&v); if v.rank() != r + 1 { return Err(format!("walking up from {:?}: {} steps lead to {:?}", T::of(b.start), r + 1 - b.start, v)); } }
    for r in (b.start..end).rev() { v = Countable::prev(&v); if v.rank() != r { return Err(format!("walking down from {:?}: {} steps lead to {:?}", T::of(end), end - r, v)); } }
    obs.nontrivial = end > b.start;
    Ok(())
}
fn test(b: &Block, obs: &mut Obs) -> Res {
    obs.label(match b.ty { Ty::U8 => "u8", Ty::I8 => "i8", Ty::U16 => "u16", Ty::I16 => "i16", Ty::Char => "char", Ty::U32 => "u32", Ty::I32 => "i32", Ty::U64 => "u64", Ty::I64 => "i64", Ty::Usize => "usize", _ => "isize" });
    with_ty!(b.ty, T => block::<T>(b, obs))
}
/// Every value of u8, i8, u16, i16 and char, in blocks that overlap by one
fn gen_all(src: &mut Src) -> Block {
    let ty = *src.pick(&LIB[..5]);
    let n = max_rank(ty) / 256 + 1;
    let start = src.below(n) * 256;
    Block { ty, start, len: 257 }
}
/// Every value of u32 and i32, in blocks that overlap by one
fn gen_32(src: &mut Src) -> Block { let ty = *src.pick(&[Ty::U32, Ty::I32]); let start = src.below(65536) * 65536; Block { ty, start, len: 65537 } }
fn gen_wide(src: &mut Src) -> Block {
    let ty = *src.pick(&LIB);
    let m = max_rank(ty);
    let start = match src.weighted(&[3, 3]) { 0 => gen_rank(src, ty).saturating_sub(src.below(20)), _ => { let bits = src.below(65) as u32; let x = if bits == 64 { u64::MAX } else { 1u64 << bits }; let a = x.wrapping_sub(src.below(40)).wrapping_add(src.below(20)); let a = if src.chance(1, 2) { m.wrapping_sub(a) } else { a }; if a > m { m } else { a } } };
    Block { ty, start, len: src.range(2, 60) }
}
fn main() {
    main_with(Property {
        id: "C18",
        rule: "the block of consecutive values checked has at least two values",
        assumptions: &["the symbol types are those the library makes countable", "nothing is asked of the value after the largest or before the smallest"],
        subs: vec![
            sub("narrow-types-and-char-exhaustive", Mode::Exhaustive(10_000_000, 10_000_000), gen_all, test),
            sub("32-bit-types-exhaustive", Mode::Exhaustive(1_000_000, 1_000_000), gen_32, test),
            sub("boundaries-of-every-type", Mode::Random(900_000, 10_800_000), gen_wide, test),
        ],
    });
}
