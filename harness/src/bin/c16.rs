//! C16 Tagging regions of a stream never loses, adds or reorders content
use harness::huge::*;
use harness::runner::*;
use harness::src::Src;
use harness::sym::*;
use harness::tree::*;
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    /// Tag a range in place (positions are taken modulo the current length)
    Tag(u64, u64, u64),
    /// Tag a list of ranges given as (gap before, length, tag); true: lazily produced list
    With(Vec<(u64, u64, u64)>, bool),
    /// Make the tag symbol only
    TagRange(u64, u64, u64),
    /// A list that goes wrong at its end: a good prefix, then a range starting the given distance before the previous end
    Bad(Vec<(u64, u64, u64)>, u64, u64),
    /// Continue inside the nth tag
    Enter(u64),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case { ty: u8, base: Vec<u64>, ops: Vec<Op>, empty: bool }

fn resolve(len: usize, gaps: &[(u64, u64, u64)], empty: bool) -> Vec<(usize, usize, u64)> {
    let mut at = 0;
    let mut v = vec![];
    for (g, l, t) in gaps {
        let a = at + (*g as usize).min(len - at);
        let b = a + (*l as usize).min(len - a);
        if a == b && !empty { continue; }
        v.push((a, b, *t));
        at = b;
    }
    v
}
fn pair(len: usize, a: u64, b: u64, empty: bool) -> Option<(usize, usize)> {
    let (a, b) = (a as usize % (len + 1), b as usize % (len + 1));
    let (a, b) = (a.min(b), a.max(b));
    if a == b && !empty { if a < len { Some((a, a + 1)) } else { None } } else { Some((a, b)) }
}

fn check<B: Sym, G: Out>(c: &Case, obs: &mut Obs) -> Res {
    let mut s: TaggedStream<B, G> = from_ranks(&c.base);
    let mut m: Vec<Node> = c.base.iter().map(|x| Node::U(*x)).collect();
    same("from_reader", &s, &m)?;
    // Everything produced on the way must stay as it was
    let mut kept: Vec<(TaggedStream<B, G>, Vec<Node>)> = vec![];
    let mut inside = false;
    let (mut nested, mut middle) = (false, false);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("operation {} ({:?})", i, op);
        obs.ran(1);
        match op {
            Op::Tag(t, a, b) => if let Some((a, b)) = pair(m.len(), *a, *b, c.empty) {
                if i % 2 == 0 { kept.push((s.clone(), m.clone())); }
                s.tag(G::oof(*t), a..b);
                nested |= m[a..b].iter().any(|n| matches!(n, Node::T(..)));
                middle |= a > 0 && b < m.len();
                m = tagged(&m, &[(a, b, *t)]);
            },
            Op::With(g, lazy) => {
                let l = resolve(m.len(), g, c.empty);
                let tags: Vec<(std::ops::Range<usize>, G)> = l.iter().map(|(a, b, t)| (*a..*b, G::oof(*t))).collect();
                let n = if *lazy { let mut it = tags.into_iter(); s.with_tags(std::iter::from_fn(move || it.next()).take(1000)) } else { s.with_tags(tags.iter().cloned()) };
                nested |= l.iter().any(|(a, b, _)| m[*a..*b].iter().any(|n| matches!(n, Node::T(..))));
                middle |= l.windows(2).any(|w| w[0].1 < w[1].0);
                same(&format!("{}: the original", what), &s, &m)?;
                let n_model = tagged(&m, &l);
                kept.push((s, m));
                s = n;
                m = n_model;
            }
            Op::TagRange(t, a, b) => if let Some((a, b)) = pair(m.len(), *a, *b, c.empty) {
                let x = node_of(&s.tag_range(a..b, G::oof(*t)));
                let want = Node::T(*t, m[a..b].to_vec());
                if x != want { return Err(format!("{}: made {:?}, expected {:?}", what, x, want)); }
            },
            Op::Bad(g, back, l) => {
                let mut list = resolve(m.len(), g, false);
                if let Some(last) = list.last() {
                    let end = last.1;
                    let a = end - 1 - (*back as usize).min(end - 1);
                    let b = (a + (*l as usize).max(1)).min(m.len());
                    list.push((a, b, 1));
                    let tags: Vec<(std::ops::Range<usize>, G)> = list.iter().map(|(a, b, t)| (*a..*b, G::oof(*t))).collect();
                    let mut got = None;
                    if !panics(|| got = Some(s.with_tags(tags.into_iter()))) { return Err(format!("{}: the list {:?} was accepted and gave {:?}", what, list, got.map(|g| read_index(&g)))); }
                    obs.label(if b <= list[list.len() - 2].0 { "refused: out of order" } else { "refused: overlap" });
                }
            }
            Op::Enter(n) => {
                let tags: Vec<usize> = (0..m.len()).filter(|i| matches!(m[*i], Node::T(..))).collect();
                if !tags.is_empty() {
                    let k = tags[*n as usize % tags.len()];
                    if let (TagSymbol::Tagged(_, st), Node::T(_, mv)) = (s[k].clone(), m[k].clone()) { kept.push((s, m)); s = st; m = mv; inside = true; } else { return Err(format!("{}: element {} is not a tag", what, k)); }
                }
            }
        }
        same(&what, &s, &m)?;
        if !inside && flatten(&read_index(&s)) != c.base { return Err(format!("{}: flattened, the stream is {:?}, the original symbols are {:?}", what, flatten(&read_index(&s)), c.base)); }
    }
    for (i, (s, m)) in kept.iter().enumerate() { same(&format!("stream {} kept from earlier", i), s, m)?; }
    let copy = s.clone();
    if copy != s { return Err("a copy is not equal to its original".into()); }
    let d = depth(&m);
    obs.label_if(d >= 3, "tags nested three deep");
    obs.label_if(nested, "a tag over tags");
    obs.label_if(c.ops.iter().any(|o| matches!(o, Op::Bad(..))), "bad list");
    obs.nontrivial = nested && middle;
    Ok(())
}
fn test(c: &Case, obs: &mut Obs) -> Res {
    match c.ty % 4 { 0 => check::<u8, u32>(c, obs), 1 => check::<char, String>(c, obs), 2 => check::<Pair, RevOut>(c, obs), _ => check::<i64, i64>(c, obs) }
}
fn gen_list(s: &mut Src, max: usize) -> Vec<(u64, u64, u64)> { s.list(0, max, 3, |s| { let g = s.below(4); let l = s.below(5); (g, l, s.below(6)) }) }
fn gen_of(src: &mut Src, len: usize, ops: usize, list: usize) -> Case {
    let base = src.list(0, len, 12, |s| s.below(200));
    let ops = src.list(0, ops, 5, |s| match s.weighted(&[5, 5, 1, 1, 1]) {
        0 => { let a = s.below(40); let b = s.below(40); Op::Tag(s.below(6), a, b) }
        1 => { let g = gen_list(s, list); Op::With(g, s.chance(1, 3)) }
        2 => { let a = s.below(40); let b = s.below(40); Op::TagRange(s.below(6), a, b) }
        3 => { let g = gen_list(s, 4); let b = s.below(6); Op::Bad(g, b, s.below(4)) }
        _ => Op::Enter(s.below(4)),
    });
    Case { ty: src.below(4) as u8, base, ops, empty: src.chance(1, 5) }
}
fn gen(src: &mut Src) -> Case { gen_of(src, 20, 10, 6) }
fn gen_long(src: &mut Src) -> Case { let mut c = gen_of(src, 400, 30, 40); if c.base.len() < 30 { let n = src.usize(30, 200); c.base = (0..n as u64).collect(); } for o in &mut c.ops { match o { Op::Tag(_, a, b) | Op::TagRange(_, a, b) => { *a *= 11; *b *= 13; } _ => {} } } c }
/// Every stream of up to 5 (6) symbols and every valid list of up to three ranges (empty ones too), then one in-place tag
fn gen_exh(src: &mut Src) -> Case {
    let n = src.below(if src.thorough { 7 } else { 6 });
    let mut left = n;
    let mut list = vec![];
    let k = src.below(4);
    for t in 0..k { let g = src.below(left + 1); left -= g; let l = src.below(left + 1); left -= l; list.push((g, l, t)); }
    let mut ops = vec![Op::With(list, false)];
    if src.chance(1, 2) { let a = src.below(n + 1); let b = src.below(n + 1); ops.push(Op::Tag(9, a, b)); }
    Case { ty: 0, base: (0..n).collect(), ops, empty: true }
}
/// Streams of tens of thousands of elements
fn gen_huge(src: &mut Src) -> Case {
    let n = gen_size(src) as u64;
    let base: Vec<u64> = (0..n).map(|i| i * 7 % 200).collect();
    let at = |s: &mut Src| match s.below(4) { 0 => s.below(9), 1 => n - s.below(9).min(n), 2 => s.below(n + 1), _ => [255, 256, 65_535, 65_536][s.below(4) as usize] };
    let ops = src.list(1, 5, 3, |s| match s.weighted(&[3, 3, 1, 1]) {
        0 => { let a = at(s); let b = at(s); Op::Tag(s.below(6), a, b) }
        1 => { let k = s.range(1, 6); let l: Vec<_> = (0..k).map(|_| { let g = s.below(2 * n / k + 1); let l = if s.chance(1, 3) { s.below(n / k + 1) } else { s.below(6) }; (g, l, s.below(6)) }).collect(); Op::With(l, s.chance(1, 3)) }
        2 => { let a = at(s); let b = at(s); Op::TagRange(s.below(6), a, b) }
        _ => { let k = 60 + s.below(2_000); let l: Vec<_> = (0..k).map(|_| { let g = s.below(n / k / 2 + 2); (g, 1 + s.below(n / k / 2 + 2), s.below(6)) }).collect(); Op::With(l, false) }
    });
    Case { ty: src.below(4) as u8, base, ops, empty: src.chance(1, 5) }
}

fn main() {
    main_with(Property {
        id: "C16",
        rule: "a tag was put over a region that already contained a tag, and a tag was put in the middle of a stream with untagged content left around it",
        assumptions: &["ranges lie within the stream and do not run backwards", "a refused list is only required to be refused by a panic, whatever its message"],
        subs: vec![
            sub("short-exhaustive", Mode::Exhaustive(500_000, 2_000_000), gen_exh, test),
            sub("random", Mode::Random(2_400_000, 7_200_000), gen, test),
            sub("long", Mode::Random(80_000, 240_000), gen_long, test),
            sub("huge", Mode::Random(60, 800), gen_huge, test),
            harness::deep_sub!("C16"),
        ],
    });
}
