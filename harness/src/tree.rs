//! Reference for tagged streams: plain trees.

use concordance::TagSymbol::*;
use concordance::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T<B> { U(B), G(u8, Vec<T<B>>) }

pub type Stream<B> = TaggedStream<B, u8>;

/// Reads a real stream through len and indexing
pub fn snapshot<B: Ord + Clone>(s: &Stream<B>) -> Vec<T<B>> {
    (0..s.len()).map(|i| symbol(&s[i])).collect()
}

pub fn symbol<B: Ord + Clone>(s: &TagSymbol<B, u8>) -> T<B> {
    match s { Untagged(b) => T::U(b.clone()), Tagged(t, inner) => T::G(*t, snapshot(inner)) }
}

/// Reads a real stream through its symbol reader
pub fn read<B: Ord + Clone>(s: &Stream<B>) -> Vec<T<B>> {
    let mut r = s.read_symbols();
    let mut out = vec![];
    while let Some(x) = r.next_symbol() { out.push(symbol(&x)); }
    out
}

pub fn expand<B: Clone>(t: &[T<B>], out: &mut Vec<B>) {
    for x in t { match x { T::U(b) => out.push(b.clone()), T::G(_, v) => expand(v, out) } }
}

/// Replaces a range by one tag
pub fn tag<B: Clone>(t: &[T<B>], tag: u8, lo: usize, hi: usize) -> Vec<T<B>> {
    let mut out = t[..lo].to_vec();
    out.push(T::G(tag, t[lo..hi].to_vec()));
    out.extend_from_slice(&t[hi..]);
    out
}

/// Several ascending disjoint ranges of one stream at once
pub fn with_tags<B: Clone>(t: &[T<B>], tags: &[(usize, usize, u8)]) -> Vec<T<B>> {
    let mut out = vec![];
    let mut at = 0;
    for (lo, hi, g) in tags {
        out.extend_from_slice(&t[at..*lo]);
        out.push(T::G(*g, t[*lo..*hi].to_vec()));
        at = *hi;
    }
    out.extend_from_slice(&t[at..]);
    out
}

/// As `same`, for streams too long to print
pub fn same_long<B: Ord + Clone + std::fmt::Debug>(s: &Stream<B>, want: &[T<B>]) -> Result<(), String> {
    for (how, got) in [("the stream", snapshot(s)), ("reading the stream", read(s))] {
        if got.len() != want.len() { return Err(format!("{} gives {} symbols, expected {}", how, got.len(), want.len())); }
        if let Some(i) = (0..got.len()).find(|i| got[*i] != want[*i]) {
            let short = |x: &T<B>| { let e = format!("{:?}", x); e.chars().take(200).collect::<String>() };
            return Err(format!("{}: symbol {} is {}, expected {}", how, i, short(&got[i]), short(&want[i])));
        }
    }
    Ok(())
}

/// Both views of the real stream agree with the tree
pub fn same<B: Ord + Clone + std::fmt::Debug>(s: &Stream<B>, want: &[T<B>]) -> Result<(), String> {
    let got = snapshot(s);
    if got != want { return Err(format!("the stream is {:?}, expected {:?}", got, want)); }
    let got = read(s);
    if got != want { return Err(format!("reading the stream gives {:?}, expected {:?}", got, want)); }
    Ok(())
}
