//! Token sets and inputs for the tokenizer properties.
use crate::pat::*;
use crate::src::Src;
use crate::sym::*;

/// A token set over a small alphabet; often one whose longest match needs a long look-ahead that then fails
pub fn gen_tokens(src: &mut Src, alpha: &[u64]) -> Vec<(Pat, u64)> {
    let outs = src.range(1, 6);
    let mut v: Vec<(Pat, u64)> = match src.weighted(&[5, 3, 3]) {
        0 => { let n = src.usize(1, 4); (0..n).map(|_| gen_pat(src, alpha, PatCfg { budget: 20, ..SMALL })).map(|p| (p, 0)).collect() }
        1 => {
            // x, and x..x followed by something rare
            let a = *src.pick(alpha);
            let z = *src.pick(alpha);
            let n = src.below(3) as u32;
            vec![(Pat::Lit(vec![a]), 0), (Pat::All(vec![Pat::Star(n, Box::new(Pat::Range(alpha[0], alpha[alpha.len() - 1]))), Pat::Lit(vec![z])]), 0)]
        }
        _ => {
            let l = src.list(1, 12, 6, |s| *s.pick(alpha));
            let k = src.usize(1, l.len());
            vec![(Pat::Lit(l[..k].to_vec()), 0), (Pat::Lit(l), 0)]
        }
    };
    if src.chance(1, 3) { v.push((gen_pat(src, alpha, PatCfg { budget: 12, ..SMALL }), 0)); }
    if src.chance(1, 8) { v.push((Pat::Star(0, Box::new(Pat::Lit(vec![alpha[0]]))), 0)); }
    for t in v.iter_mut() { t.1 = src.below(outs); }
    v
}

pub fn gen_small_alpha(src: &mut Src, ty: Ty) -> Vec<u64> {
    if src.chance(1, 5) { gen_alphabet(src, ty, 6) } else {
        let n = src.range(1, 4);
        let m = max_rank(ty);
        let b = if ty == Ty::Char { 97 } else { src.below(50) }.min(m - n.min(m));
        (b..b + n).map(|x| x.min(m)).collect()
    }
}

/// An input made of token fragments, noise and long runs
pub fn gen_input(src: &mut Src, pats: &[(Pat, u64)], alpha: &[u64], max: u64, parts: usize, limit: usize) -> Vec<u64> {
    let mut w = vec![];
    let n = src.usize(0, parts);
    for _ in 0..n {
        if w.len() >= limit { break; }
        match src.weighted(&[4, 2, 2, 1]) {
            0 => { if !pats.is_empty() { src.pick(pats).0.sample(src, (w.len() + 30).min(limit), &mut w); } }
            1 => { let s = *src.pick(alpha); w.push(s); }
            2 => { let s = *src.pick(alpha); let k = src.usize(1, 12); for _ in 0..k { w.push(s); } }
            _ => { let s = gen_word(src, pats, alpha, max, 8); w.extend(s); }
        }
    }
    // A symbol outside the alphabet now and then
    if src.chance(1, 4) && !w.is_empty() { let i = src.below(w.len() as u64) as usize; w[i] = (alpha[alpha.len() - 1].saturating_add(1)).min(max); }
    w.truncate(limit);
    w
}
