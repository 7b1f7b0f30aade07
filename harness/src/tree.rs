//! Model of tagged streams: a plain tree.
use crate::sym::{Out, Sym};
use concordance::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Node { U(u64), T(u64, Vec<Node>) }

pub fn flatten(v: &[Node]) -> Vec<u64> { v.iter().flat_map(|n| match n { Node::U(x) => vec![*x], Node::T(_, v) => flatten(v) }).collect() }
pub fn depth(v: &[Node]) -> usize { v.iter().map(|n| match n { Node::U(_) => 0, Node::T(_, v) => 1 + depth(v) }).max().unwrap_or(0) }

pub fn node_of<B: Sym, G: Out>(s: &TagSymbol<B, G>) -> Node {
    match s { TagSymbol::Untagged(b) => Node::U(b.rank()), TagSymbol::Tagged(t, v) => Node::T(t.orank(), read_index(v)) }
}
/// The contents of a stream, by length and indexing
pub fn read_index<B: Sym, G: Out>(s: &TaggedStream<B, G>) -> Vec<Node> { (0..s.len()).map(|i| node_of(&s[i])).collect() }

/// A stream compared with its model through every way of reading it
pub fn same<B: Sym, G: Out>(what: &str, s: &TaggedStream<B, G>, m: &[Node]) -> Result<(), String> {
    if s.len() != m.len() { return Err(format!("{}: length {}, expected {} ({:?})", what, s.len(), m.len(), m)); }
    let v = read_index(s);
    if v != m { return Err(format!("{}: the stream is {:?}, expected {:?}", what, v, m)); }
    let r: Vec<Node> = s.read_symbols().to_vec().iter().map(node_of).collect();
    if r != m { return Err(format!("{}: reading the stream gives {:?}, expected {:?}", what, r, m)); }
    Ok(())
}
pub fn from_ranks<B: Sym, G: Out>(v: &[u64]) -> TaggedStream<B, G> {
    let x: Vec<B> = crate::sym::to_syms(v);
    if v.len() % 2 == 0 { TaggedStream::from_reader(&mut (&x).read_symbols()) } else { TaggedStream::from_reader(&mut VecReader::from_vec(x)) }
}
/// What tagging a list of ranges should give
pub fn tagged(m: &[Node], tags: &[(usize, usize, u64)]) -> Vec<Node> {
    let mut v = vec![];
    let mut at = 0;
    for (a, b, t) in tags { v.extend_from_slice(&m[at..*a]); v.push(Node::T(*t, m[*a..*b].to_vec())); at = *b; }
    v.extend_from_slice(&m[at..]);
    v
}
