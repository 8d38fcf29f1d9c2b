//! Patterns and machines of a given size, for sizes at which a narrow index, a fixed buffer, a
//! chunk or a limit would show. What they match is known by formula, not by the reference automaton.
use concordance::*;

/// A symbol no pattern here mentions
pub const STOP: u32 = 3_000_000;

pub const SIZES: [usize; 11] = [6, 9, 17, 33, 65, 129, 257, 301, 513, 1025, 5001];

pub struct Big {
    pub name: String,
    pub p: Pattern<u32>,
    /// inputs and the length of the longest match
    pub words: Vec<(Vec<u32>, Option<usize>)>,
}

fn l(v: &[u32]) -> Pattern<u32> { Match(v.to_vec()) }
fn b(p: Pattern<u32>) -> Box<Pattern<u32>> { Box::new(p) }

/// Indices below n worth looking at: the ends and the neighbourhood of powers of two
pub fn picks(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).filter(|i| *i < 4 || i + 4 >= n || *i == n / 2 || (i & (i + 1)) == 0 || (i & (i.wrapping_sub(1))) == 0 || ((i + 1) & (i + 2)) == 0).collect();
    v.extend([100usize, 200, 300, 1000].into_iter().filter(|i| *i < n));
    v.sort();
    v.dedup();
    v
}

pub const KINDS: usize = 24;

/// The largest size of a kind
pub fn limit(kind: usize) -> usize {
    match kind {
        // machines that grow with the square
        3 | 5 | 7 | 22 => 129,
        // a repetition up to one copy is compiled twice: these grow exponentially
        14 | 18 | 19 => 9,
        12 | 13 | 15 => 1025,
        _ => 5001,
    }
}

fn run(n: usize) -> Vec<u32> { vec![0; n] }
fn with(mut v: Vec<u32>, x: u32) -> Vec<u32> { v.push(x); v }

/// Words of zeroes, with `f` their number of zeroes that match
fn zeroes(n: usize, f: impl Fn(usize) -> Option<usize>) -> Vec<(Vec<u32>, Option<usize>)> {
    let mut w = vec![];
    for k in picks(n + 3) {
        w.push((run(k), f(k)));
        if k % 2 == 0 { w.push((with(run(k), STOP), f(k))); }
    }
    w
}

/// How a sequence, a choice or a repetition is put together
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How { Direct, Left, Right }

fn all(v: Vec<Pattern<u32>>, how: How) -> Pattern<u32> {
    match how {
        How::Direct => MatchAll(v),
        How::Left => { let mut i = v.into_iter(); let first = i.next().unwrap_or(Epsilon); i.fold(first, |a, x| a.append(x)) }
        How::Right => { let mut i = v.into_iter().rev(); let last = i.next().unwrap_or(Epsilon); i.fold(last, |a, x| x.append(a)) }
    }
}
fn any(v: Vec<Pattern<u32>>, how: How) -> Pattern<u32> {
    match how {
        How::Direct => MatchAny(v),
        How::Left => { let mut i = v.into_iter(); let first = i.next().unwrap_or(MatchAny(vec![])); i.fold(first, |a, x| a.or(x)) }
        How::Right => { let mut i = v.into_iter().rev(); let last = i.next().unwrap_or(MatchAny(vec![])); i.fold(last, |a, x| x.or(a)) }
    }
}
fn rep(m: usize, n: usize, p: Pattern<u32>, how: How) -> Pattern<u32> {
    if how == How::Direct { Repeat(m as u32..n as u32, b(p)) } else { p.repeat(m as u32..n as u32) }
}
fn inf(m: usize, p: Pattern<u32>, how: How) -> Pattern<u32> {
    if how == How::Direct { RepeatInfinite(m as u32, b(p)) } else { p.repeat_forever(m as u32) }
}

pub fn big(kind: usize, n: usize, how: How) -> Option<Big> {
    let made = how != How::Direct;
    if n > limit(kind) { return None; }
    // chains of calls copy what they have so far
    if made && n > 1025 { return None; }
    let ns = |i: usize| i as u32;
    let (name, p, words): (&str, Pattern<u32>, Vec<(Vec<u32>, Option<usize>)>) = match kind {
        0 => {
            let v: Vec<u32> = (0..n).map(|i| ns(i % 7)).collect();
            let mut w = vec![(v.clone(), Some(n)), (with(v.clone(), 3), Some(n)), (v[..n - 1].to_vec(), None), (vec![], None)];
            for i in picks(n) { let mut x = v.clone(); x[i] = STOP; w.push((x, None)); }
            ("a literal", if made { all(v.iter().map(|x| l(&[*x])).collect(), how) } else { l(&v) }, w)
        }
        1 => {
            let w = picks(n).into_iter().flat_map(|i| vec![(vec![3 * ns(i), 0], Some(1)), (vec![3 * ns(i) + 1, 0], None)]).collect();
            ("single symbols as alternatives", any((0..n).map(|i| l(&[3 * ns(i)])).collect(), how), w)
        }
        2 => {
            let w = picks(n).into_iter().flat_map(|i| vec![(vec![3 * ns(i), 0], Some(1)), (vec![3 * ns(i) + 1], Some(1)), (vec![3 * ns(i) + 2, 0], None)]).collect();
            ("ranges as alternatives", any((0..n).map(|i| MatchRange(3 * ns(i), 3 * ns(i) + 1)).collect(), how), w)
        }
        3 => {
            // [i, 2n - i] with a second symbol of its own
            let mut w = vec![];
            for i in picks(n) { for j in picks(n) {
                for x in [i, 2 * n - i] { w.push((vec![ns(x), ns(j)], if j <= i { Some(2) } else { None })); }
            } }
            ("nested ranges as alternatives", any((0..n).map(|i| MatchAll(vec![MatchRange(ns(i), ns(2 * n - i)), l(&[ns(i)])])).collect(), how), w)
        }
        4 => {
            let w = picks(n).into_iter().flat_map(|i| vec![(vec![ns(i), ns(i + 1), 0], Some(2)), (vec![ns(i), ns(i + 2)], None), (vec![ns(i)], None)]).collect();
            ("strings as alternatives", any((0..n).map(|i| l(&[ns(i), ns(i + 1)])).collect(), how), w)
        }
        5 => ("strings of every length as alternatives", any((1..=n).map(|i| l(&run(i))).collect(), how), zeroes(n, |k| if k == 0 { None } else { Some(k.min(n)) })),
        6 => {
            let v: Vec<u32> = (0..n).map(|i| ns(i % 3 + i % 2)).collect();
            let mut w = vec![(v.clone(), Some(n)), (with(v.clone(), 3), Some(n)), (v[..n - 1].to_vec(), None)];
            for i in picks(n) { let mut x = v.clone(); x[i] = if i % 2 == 0 { x[i] + 2 } else { x[i] + 1 }; w.push((x, None)); }
            ("ranges in sequence", all((0..n).map(|i| MatchRange(ns(i % 3), ns(i % 3 + 1))).collect(), how), w)
        }
        7 => ("optional parts in sequence", all((0..n).map(|_| rep(0, 2, l(&[0]), how)).collect(), how), zeroes(n, |k| Some(k.min(n)))),
        8 => ("up to n copies", rep(0, n + 1, l(&[0]), how), zeroes(n, |k| Some(k.min(n)))),
        9 => ("exactly n copies", rep(n, n + 1, l(&[0]), how), zeroes(n, |k| if k < n { None } else { Some(n) })),
        10 => ("n / 2 to n copies", rep(n / 2, n + 1, l(&[0]), how), zeroes(n, |k| if k < n / 2 { None } else { Some(k.min(n)) })),
        11 => ("at least n copies", inf(n, l(&[0]), how), zeroes(n, |k| if k < n { None } else { Some(k) })),
        12 => ("sequences of one, nested", (0..n).fold(l(&[0]), |p, _| all(vec![p, Epsilon], how)), zeroes(2, |k| if k == 0 { None } else { Some(1) })),
        13 => ("choices of one, nested", (0..n).fold(l(&[0]), |p, i| if i % 2 == 0 && !made { MatchAny(vec![p]) } else { any(vec![p, MatchAny(vec![])], how) }), zeroes(2, |k| if k == 0 { None } else { Some(1) })),
        14 => ("one copy, nested", (0..n).fold(l(&[0]), |p, _| rep(1, 2, p, how)), zeroes(2, |k| if k == 0 { None } else { Some(1) })),
        15 => {
            let mut w = vec![];
            for k in picks(n + 2) { w.push((with(run(k), 1), if k >= 1 && k <= n { Some(k + 1) } else { None })); w.push((with(run(k), STOP), None)); }
            ("sequences and choices, nested", (1..n).fold(all(vec![l(&[0]), any(vec![l(&[1]), MatchAny(vec![])], how)], how), |p, _| all(vec![l(&[0]), any(vec![l(&[1]), p], how)], how)), w)
        }
        16 => ("empty alternatives", any((0..n).map(|_| Epsilon).chain(Some(l(&[0]))).collect(), how), zeroes(2, |k| Some(k.min(1)))),
        17 => ("empty parts", all((0..n).map(|_| Epsilon).chain(Some(l(&[0]))).collect(), how), zeroes(2, |k| if k == 0 { None } else { Some(1) })),
        18 => ("optional, nested", (0..n).fold(l(&[0]), |p, _| rep(0, 2, p, how)), zeroes(2, |k| Some(k.min(1)))),
        19 => {
            // from the left: ((0 1)? 0 1)? 0 1 ...
            let w = (0..n + 3).flat_map(|k| { let x: Vec<u32> = (0..2 * k).map(|i| ns(i % 2)).collect(); vec![(x.clone(), if k == 0 { None } else { Some(2 * k.min(n)) }), (with(x, 0), if k == 0 { None } else { Some(2 * k.min(n)) })] }).collect();
            ("optional beginnings, nested", (1..n).fold(l(&[0, 1]), |p, _| all(vec![rep(0, 2, p, how), l(&[0, 1])], how)), w)
        }
        20 => {
            let mut w = zeroes(n, |k| if k < n { None } else { Some(k) });
            w.push(([run(n), vec![1, 1, 0, 1, 0]].concat(), Some(n + 3)));
            ("at least n of two", inf(n, any(vec![l(&[0]), l(&[1, 1])], how), how), w)
        }
        21 => {
            // the pattern as part of a longer one, entered in the middle of a word
            let mut w = vec![];
            for k in picks(n + 2) { w.push(([vec![5], run(k), vec![6, 6]].concat(), if k <= n { Some(k + 2) } else { None })); w.push(([vec![5], run(k), vec![7]].concat(), None)); }
            ("up to n copies between two symbols", all(vec![l(&[5]), rep(0, n + 1, l(&[0]), how), l(&[6])], how), w)
        }
        22 => {
            let mut w = vec![];
            for i in picks(n) { for k in 0..4usize { let x: Vec<u32> = (0..k).map(|j| 3 * ns((i + j) % n)).collect(); w.push((with(x, 1), Some(k))); } }
            ("any number of n symbols", inf(0, any((0..n).map(|i| l(&[3 * ns(i)])).collect(), how), how), w)
        }
        23 => {
            let w = picks(n).into_iter().flat_map(|i| vec![(vec![ns(i), 3 * ns(i) + 1], Some(2)), (vec![ns(i), 3 * ns((i + 1) % n) + 1], Some(1)), (vec![STOP], None)]).collect();
            ("a range, or a pair of symbols out of n", any(Some(MatchRange(0, ns(n))).into_iter().chain((0..n).map(|i| l(&[ns(i), 3 * ns(i) + 1]))).collect(), how), w)
        }
        _ => return None,
    };
    Some(Big { name: format!("{} ({:?}, n = {})", name, how, n), p, words })
}

/// Runs a machine through its interface only
pub fn simulate<M: StateMachine<SymbolRange<u32>, u8> + ?Sized>(m: &M, from: StateId, w: &[u32]) -> Option<(usize, u8)> {
    let mut at: Vec<StateId> = vec![from];
    let out = |at: &Vec<StateId>| at.iter().flat_map(|s| m.output_symbols_for_state(*s)).cloned().min();
    let mut best = out(&at).map(|o| (0, o));
    for (i, x) in w.iter().enumerate() {
        let mut next: Vec<StateId> = at.iter().flat_map(|s| m.get_transitions_for_state(*s)).filter(|t| t.0.lowest <= *x && *x <= t.0.highest).map(|t| t.1).collect();
        next.sort();
        next.dedup();
        if next.is_empty() { break; }
        at = next;
        if let Some(o) = out(&at) { best = Some((i + 1, o)); }
    }
    best
}

/// Symbols on the longest way through the pattern with every repetition written out
pub fn unrolled(p: &Pattern<u32>) -> Option<usize> {
    Some(match p {
        Epsilon => 0,
        Match(v) => v.len(),
        MatchRange(..) => 1,
        RepeatInfinite(..) => return None,
        Repeat(r, q) => r.end as usize * unrolled(q)?,
        MatchAll(v) => { let mut n = 0; for q in v { n += unrolled(q)?; } n }
        MatchAny(v) => { let mut n = 0; for q in v { n = n.max(unrolled(q)?); } n }
    })
}
