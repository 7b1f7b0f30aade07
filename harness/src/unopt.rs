//! Cases of the `deep` crate: very long inputs of simple shapes, run without optimisation on a small stack.
use crate::runner::*;
use crate::src::Src;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Deep { pub scenario: usize, pub n: u64, pub k: u64 }
pub fn gen_deep(prop: &str, src: &mut Src) -> Deep {
    let s = deep::scenarios(prop);
    let scenario = s[src.below(s.len() as u64) as usize];
    Deep { scenario, n: if src.chance(1, 4) { src.range(1_000, 20_000) } else { src.range(20_000, 60_000) }, k: src.below(7) }
}
pub fn test_deep(c: &Deep, obs: &mut Obs) -> Res {
    if c.scenario >= deep::SCENARIOS.len() { return harness_bug("no such scenario".into()); }
    obs.ran(1);
    obs.nontrivial = c.n >= 20_000;
    deep::run(c.scenario, c.n, c.k)
}
#[macro_export]
macro_rules! deep_sub {
    ($prop:expr) => { $crate::runner::sub("huge-unoptimised", $crate::runner::Mode::Random(if $prop == "C01" || $prop == "C11" { 40 } else { 100 }, 1000), |s| $crate::unopt::gen_deep($prop, s), $crate::unopt::test_deep) };
}

/// Cases of the `fast` crate: more than 2^32 symbols
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Billions { pub scenario: usize, pub n: u64, pub k: u64 }
pub fn gen_billions(prop: &str, src: &mut Src) -> Billions { Billions { scenario: fast::scenario(prop), n: (1 << 32) + src.range(1, 5_000), k: src.below(7) } }
pub fn test_billions(c: &Billions, obs: &mut Obs) -> Res {
    if c.scenario >= fast::SCENARIOS.len() { return harness_bug("no such scenario".into()); }
    if !fast::run(c.scenario, c.n, c.k)? { obs.label("given up: this takes too long here"); return Ok(()); }
    obs.ran(1);
    obs.nontrivial = true;
    Ok(())
}
#[macro_export]
macro_rules! billions_sub {
    ($prop:expr) => { $crate::runner::sub("huge-billions", $crate::runner::Mode::Random(1, 6), |s| $crate::unopt::gen_billions($prop, s), $crate::unopt::test_billions) };
}
