//! Machines of a given size (states, transitions of a state, joins, outputs, states held at once),
//! given as the calls that make them, and a plain simulation of those calls as the reference.
use crate::engine::*;
use crate::scale::picks;
use concordance::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call { T(u32, u32, u32, u32), J(u32, u32), O(u32, u32) }
use self::Call::*;

/// A symbol no machine here mentions
const STOP: u32 = 3_000_000;

pub const SIZES: [usize; 13] = [6, 9, 17, 33, 65, 80, 129, 257, 301, 513, 1025, 5003, 10007];

pub struct Big {
    pub name: String,
    pub calls: Vec<Call>,
    pub words: Vec<Vec<u32>>,
    /// ranges that overlap without being equal
    pub overlaps: bool,
}

pub const KINDS: usize = 28;

/// The largest size of a kind (those below the default take quadratic time or space)
pub fn limit(kind: usize) -> usize {
    match kind {
        4 | 23 => 80,
        3 | 15 | 19 | 20 | 21 | 22 | 27 => 301,
        16 | 18 => 513,
        26 => 1025,
        11 => 5003,
        _ => 10007,
    }
}

pub fn big(kind: usize, n: usize) -> Option<Big> {
    if n > limit(kind) { return None; }
    let u = |i: usize| i as u32;
    let pk = picks(n);
    let singles = |f: &dyn Fn(usize) -> Vec<u32>| -> Vec<Vec<u32>> { pk.iter().map(|i| f(*i)).chain([vec![], vec![STOP, 0]]).collect() };
    let runs = |k: usize, x: u32| -> Vec<Vec<u32>> { picks(k).into_iter().flat_map(|i| [vec![x; i], [vec![x; i], vec![STOP, x]].concat()]).collect() };
    let mut overlaps = false;
    let (name, calls, words): (&str, Vec<Call>, Vec<Vec<u32>>) = match kind {
        0 => {
            let w: Vec<u32> = (0..n).map(|i| u(i % 7)).collect();
            let mut ws = vec![w.clone(), w[..n - 1].to_vec(), [w.clone(), vec![0]].concat()];
            for i in &pk { let mut x = w.clone(); x[*i] = (x[*i] + 1) % 7; ws.push(x); }
            ("a chain of n states", (0..n).map(|i| T(u(i), u(i % 7), u(i % 7), u(i + 1))).chain([O(u(n), 1), O(u(n / 2), 2)]).collect(), ws)
        }
        1 => ("n transitions to n states", (0..n).flat_map(|i| [T(0, u(3 * i), u(3 * i + 1), u(1 + i)), O(u(1 + i), u(i))]).collect(), singles(&|i| vec![u(3 * i + i % 3), 1])),
        2 => ("a state joined to n others", (0..n).flat_map(|i| [J(0, u(i + 1)), T(u(i + 1), u(i), u(i), u(n + 1 + i % 2))]).chain([O(u(n + 1), 5), O(u(n + 2), 6)]).collect(), singles(&|i| vec![u(i), 1])),
        3 => ("a chain of n joins", (0..n).flat_map(|i| [J(u(i), u(i + 1)), T(u(i), u(i), u(i), u(i + 1))]).chain((1..=n).map(|i| O(u(i), u(2 * n - i)))).collect(), singles(&|i| vec![u(i), u(n - 1), u(i)])),
        4 => ("a ring of n joins", (0..n).flat_map(|i| [J(u((i + 1) % n), u(i)), T(u(i), u(i), u(i), u((i * 7 + 1) % n))]).chain([O(u(n / 2), 5)]).collect(), singles(&|i| vec![u(i), u(n - 1 - i), u(i / 2)])),
        5 => ("one symbol to n states", (0..n).flat_map(|i| [T(0, 7, 8, u(i + 1)), T(u(i + 1), u(i), u(i), u(n + 1 + i % 2))]).chain([O(u(n + 1), 5), O(u(n + 2), 6)]).collect(), singles(&|i| vec![7, u(i), 3])),
        6 => ("one symbol to n states with falling outputs", (0..n).flat_map(|i| [T(0, 7, 7, u(i + 1)), O(u(i + 1), u(n - i))]).collect(), vec![vec![7], vec![7, 7], vec![]]),
        7 => ("one symbol to n states, the lowest output in the middle", (0..n).flat_map(|i| [T(0, 7, 7, u(i + 1)), O(u(i + 1), u((i + n / 2) % n))]).collect(), vec![vec![7], vec![7, 7], vec![]]),
        8 => ("a state joined to n others with rising outputs", (0..n).flat_map(|i| [J(0, u(i + 1)), O(u(i + 1), u(i + 4))]).chain([T(0, 1, 1, 0)]).collect(), vec![vec![1], vec![1, 1], vec![], vec![2]]),
        9 => ("a state joined to n others, the lowest output last", (0..n).flat_map(|i| [J(0, u(i + 1)), O(u(i + 1), u(n + 4 - i))]).chain([T(0, 1, 1, 0)]).collect(), vec![vec![1], vec![1, 1], vec![], vec![2]]),
        10 => ("one transition listed n times, then two others", (0..n).map(|_| T(0, 1, 1, 1)).chain([T(0, 2, 2, 2), T(0, 1, 1, 3), T(3, 9, 9, 2), O(1, 4), O(2, 3)]).collect(), vec![vec![1], vec![2], vec![1, 9], vec![2, 9], vec![3]]),
        11 => ("n transitions listed in descending order", (0..n).rev().flat_map(|i| [T(0, u(2 * i), u(2 * i), u(1 + i % 5)), T(u(1 + i % 5), u(i), u(i), u(6 + i % 3))]).chain((1..8).map(|i| O(i, 9 - i))).collect(), singles(&|i| vec![u(2 * i), u(i), 1])),
        12 => {
            let mut ws = runs(n + 2, 0);
            for i in &pk { ws.push([vec![0; *i], vec![2, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0]].concat()); }
            ("a chain with a way back and a way to the middle", (0..n).flat_map(|i| [T(u(i), 0, 0, u(i + 1)), T(u(i), 1, 1, 0), T(u(i), 2, 2, u(i / 2))]).chain((0..=n).filter(|i| i % 7 == 6).map(|i| O(u(i), u(i % 5)))).collect(), ws)
        }
        13 => ("a ring of n states", (0..n).map(|i| T(u(i), 0, 3, u((i + 1) % n))).chain([O(0, 3), O(u(n - 1), 2)]).collect(), runs(2 * n + 2, 1)),
        14 => ("a chain with an output in every state", (0..n).map(|i| T(u(i), 0, 0, u(i + 1))).chain((0..=n).map(|i| O(u(i), u(i * 7 % 1000)))).collect(), runs(n + 2, 0)),
        15 => ("the last n symbols", (0..n).flat_map(|i| [T(u(i), 5, 5, u(i + 1))]).chain([T(0, 5, 5, 0), T(0, 6, 6, 0), O(u(n), 1), O(u(n / 2), 2)]).collect(), {
            let mut ws = runs(n + 3, 5);
            for i in &pk { ws.push([vec![5; *i], vec![6], vec![5; n - 1]].concat()); ws.push([vec![5; *i], vec![6], vec![5; n + 1]].concat()); }
            ws
        }),
        16 => { overlaps = true; ("n nested ranges to n states", (0..n).flat_map(|i| [T(0, u(i), u(2 * n - i), u(1 + i % 3)), O(u(1 + i % 3), u(5 - i % 3))]).chain([T(1, 0, u(n), 4), O(4, 1), T(2, u(n), u(n), 3)]).collect(), pk.iter().flat_map(|i| [vec![u(*i), u(*i)], vec![u(2 * n - i), u(n)]]).chain([vec![u(n), u(n), 0], vec![u(2 * n + 1)]]).collect()) }
        17 => { overlaps = true; ("n ranges, each over a part of the next", (0..n).flat_map(|i| [T(0, u(2 * i), u(2 * i + 3), u(1 + i)), O(u(1 + i), u(i + 3))]).chain([T(0, u(2 * n), u(2 * n + 9), 1)]).collect(), singles(&|i| vec![u(2 * i), 0]).into_iter().chain(pk.iter().flat_map(|i| [vec![u(2 * i + 1)], vec![u(2 * i + 2)], vec![u(2 * i + 3)]])).collect()) }
        18 => { overlaps = true; ("a wide range over n single symbols", [T(0, 0, u(2 * n), u(n + 1)), T(u(n + 1), u(n), u(4 * n), 0), O(u(n + 1), 3)].into_iter().chain((0..n).flat_map(|i| [T(0, u(2 * i + 1), u(2 * i + 1), u(1 + i)), O(u(1 + i), u(i % 7))])).collect(), pk.iter().flat_map(|i| [vec![u(2 * i), u(2 * i + 1), 1], vec![u(2 * i + 1), u(n + i), 3]]).collect()) }
        19 => { overlaps = true; ("n overlapping ranges in a chain", (0..n).map(|i| T(u(i), u(i % 50), u(i % 50 + 30), u(i + 1))).chain([O(u(n), 1)]).collect(), pk.iter().flat_map(|i| { let mut w: Vec<u32> = (0..n).map(|j| u(j % 50 + j % 31)).collect(); let v = w.clone(); w[*i] = u(i % 50 + 31); [w, v] }).collect()) }
        20 => { overlaps = true; ("n equal ranges to n states and one that overlaps them", (0..n).flat_map(|i| [T(0, 10, 20, u(1 + i)), T(u(1 + i), u(i), u(i), u(n + 1))]).chain([T(0, 15, 25, u(n + 2)), O(u(n + 1), 1), O(u(n + 2), 2)]).collect(), pk.iter().flat_map(|i| [vec![14, u(*i)], vec![15, u(*i)], vec![21, u(*i)], vec![25]]).collect()) }
        21 => { overlaps = true; ("n ranges with one lower end", (0..n).flat_map(|i| [T(0, 5, u(5 + i), u(1 + i)), O(u(1 + i), u(1000 - i))]).collect(), singles(&|i| vec![u(5 + i), 5])) }
        22 => { overlaps = true; ("n ranges with one upper end", (0..n).flat_map(|i| [T(0, u(5 + i), u(5 + n), u(1 + i)), O(u(1 + i), u(1000 - i))]).collect(), singles(&|i| vec![u(5 + i), 5])) }
        23 => ("n states each joined to the first", (0..n).flat_map(|i| [J(u(i + 1), 0), T(0, u(i), u(i), u(i + 1))]).chain([O(0, 8), O(u(n / 2 + 1), 7), O(u(n), 9)]).collect(), singles(&|i| vec![u(i), u(n - 1 - i), u(i), STOP])),
        24 => ("n pairs of states joined both ways", (0..n).flat_map(|i| [J(u(2 * i + 1), u(2 * i + 2)), J(u(2 * i + 2), u(2 * i + 1)), T(0, u(i), u(i), u(2 * i + 1)), T(u(2 * i + 2), 5, 5, 0), O(u(2 * i + 2), u(i))]).collect(), singles(&|i| vec![u(i), 5, u(n - 1 - i), 6])),
        25 => ("one state joined to one other n times over", (0..n).map(|_| J(0, 1)).chain([J(0, 2), T(1, 5, 5, 0), T(2, 6, 6, 1), O(1, 4), O(2, 3)]).collect(), vec![vec![5, 5, 6], vec![6, 5, 5], vec![6, 6], vec![]]),
        26 => { overlaps = true; ("n ranges on n states, all over a part of another", (0..n).flat_map(|i| [T(0, u(4 * i), u(4 * i), u(1 + i)), T(u(1 + i), u(4 * i + 1), u(4 * i + 6), 0)]).chain([O(0, 1), O(u(n), 2)]).collect(), pk.iter().flat_map(|i| (0..8u32).map(|d| vec![u(4 * i), u(4 * i) + d, u(4 * (n - 1)), u(4 * i)]).collect::<Vec<_>>()).collect()) }
        27 => { overlaps = true; ("n wide ranges to n states over n single symbols to one", (0..n).flat_map(|i| [T(0, 0, u(n + i), u(1 + i)), T(0, u(i), u(i), u(n + 1)), T(u(1 + i), u(i), u(i), u(n + 1))]).chain([O(u(n + 1), 1), O(1, 2)]).collect(), pk.iter().flat_map(|i| [vec![u(*i), u(*i)], vec![u(n + i), u(*i)], vec![u(n + i), u(n - 1)]]).collect()) }
        _ => return None,
    };
    Some(Big { name: format!("{} (n = {})", name, n), calls, words, overlaps })
}

/// What the calls mean
pub struct Sim {
    trans: HashMap<u32, Vec<(u32, u32, u32)>>,
    joins: HashMap<u32, Vec<u32>>,
    out: HashMap<u32, u32>,
    pub states: u32,
}

impl Sim {
    pub fn new(calls: &[Call]) -> Sim {
        let mut s = Sim { trans: HashMap::new(), joins: HashMap::new(), out: HashMap::new(), states: 1 };
        for c in calls {
            let top = match *c {
                T(a, lo, hi, b) => { s.trans.entry(a).or_default().push((lo, hi, b)); a.max(b) }
                J(a, b) => { s.joins.entry(a).or_default().push(b); a.max(b) }
                O(a, o) => { s.out.insert(a, o); a }
            };
            s.states = s.states.max(top + 1);
        }
        s
    }
    /// States of the set and all they are joined to, to any depth
    pub fn closure(&self, from: &[u32]) -> Vec<u32> {
        let mut seen = vec![false; self.states as usize];
        let mut todo = from.to_vec();
        let mut r = vec![];
        while let Some(x) = todo.pop() {
            if seen[x as usize] { continue; }
            seen[x as usize] = true;
            r.push(x);
            if let Some(j) = self.joins.get(&x) { todo.extend(j.iter().cloned().filter(|y| !seen[*y as usize])); }
        }
        r.sort();
        r
    }
    pub fn step(&self, set: &[u32], x: u32) -> Vec<u32> {
        let mut v: Vec<u32> = self.closure(set).iter().flat_map(|s| self.trans.get(s).into_iter().flatten()).filter(|t| t.0 <= x && x <= t.1).map(|t| t.2).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Transitions of a state, those of joined states included
    pub fn all(&self, s: u32) -> BTreeSet<(u32, u32, u32)> {
        self.closure(&[s]).iter().flat_map(|s| self.trans.get(s).into_iter().flatten()).cloned().collect()
    }
    pub fn own(&self, s: u32) -> Option<u32> { self.out.get(&s).cloned() }
    pub fn outputs(&self, set: &[u32]) -> BTreeSet<u32> { self.closure(set).iter().filter_map(|s| self.out.get(s).cloned()).collect() }
    pub fn longest(&self, w: &[u32]) -> Option<(usize, u32)> {
        let mut set = vec![0];
        let mut best = self.outputs(&set).into_iter().next().map(|o| (0, o));
        for (i, x) in w.iter().enumerate() {
            set = self.step(&set, *x);
            if set.is_empty() { break; }
            if let Some(o) = self.outputs(&set).into_iter().next() { best = Some((i + 1, o)); }
        }
        best
    }
}

/// Calls in another order, or made twice. Every order gives the same machine: no state gets two outputs.
pub fn ordered(calls: &[Call], how: usize) -> Vec<Call> {
    let mut v = calls.to_vec();
    let k = v.len();
    match how {
        0 => {}
        1 => v.reverse(),
        2 => v.rotate_left(k / 2),
        3 => { let (a, b): (Vec<_>, Vec<_>) = v.into_iter().enumerate().partition(|x| x.0 % 2 == 0); v = a.into_iter().chain(b.into_iter().rev()).map(|x| x.1).collect(); }
        4 => { let c = v.clone(); v.extend(c); }
        5 => v = v.into_iter().flat_map(|c| [c, c]).collect(),
        _ => { let by = |c: &Call| match *c { O(..) => 0, J(..) => 1, T(..) => 2 }; v.sort_by_key(|c| by(c)); }
    }
    v
}

pub fn make(calls: &[Call]) -> Ndfa<SymbolRange<u32>, u32> {
    let mut m = Ndfa::new();
    for c in calls {
        match *c {
            T(a, lo, hi, b) => m.add_transition(a, SymbolRange::new(lo, hi), b),
            J(a, b) => m.join_states(a, b),
            O(a, o) => m.set_output_symbol(a, o),
        }
    }
    m
}

/// A case of one kind and size for each size up to `max`
pub fn sizes(max: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for n in SIZES { for k in 0..KINDS { if n <= max && n <= limit(k) { v.push((k, n)); } } }
    v
}

/// Compares the matches of a prepared machine with what the calls mean
pub fn check_words(dfa: &SymbolRangeDfa<u32, u32>, sim: &Sim, words: &[Vec<u32>], ctx: &mut Ctx) -> CaseResult {
    for w in words {
        let real = crate::product::run_real(dfa, w)?;
        ctx.trace();
        ctx.transitions += w.len() as u64;
        let want = sim.longest(w);
        if real != want { return Err(format!("input {:?}... of {} symbols: the compiled machine gives {:?}, expected {:?}", &w[..w.len().min(20)], w.len(), real, want)); }
        ctx.state(&(w.len(), &want));
    }
    Ok(())
}

/// The states and symbols at which a machine is looked at
pub fn places(b: &Big, sim: &Sim) -> (Vec<u32>, Vec<u32>) {
    let mut syms: Vec<u32> = b.words.iter().flat_map(|w| { let k = w.len().min(12); w[..k].to_vec() }).collect();
    syms.sort();
    syms.dedup();
    (picks(sim.states as usize).into_iter().map(|x| x as u32).collect(), syms)
}

pub const ARRANGEMENTS: usize = 10;

/// n ranges over u32 in one of several arrangements. `None` where n is too large for it.
pub fn ranges(kind: usize, n: usize) -> Option<(&'static str, Vec<(u32, u32)>)> {
    if n > 1025 && matches!(kind, 0 | 3 | 4 | 9) { return None; }
    let k = n as u32;
    let one = |f: &dyn Fn(u32) -> (u32, u32)| (0..k).map(f).collect::<Vec<_>>();
    Some(match kind {
        0 => ("nested", one(&|j| (j, 2 * k - j))),
        1 => ("each over a part of the next", one(&|j| (2 * j, 2 * j + 3))),
        2 => ("one over single symbols", one(&|j| if j == 0 { (0, 3 * k) } else { (3 * j, 3 * j) })),
        3 => ("one lower end", one(&|j| (10, 20 + j))),
        4 => ("one upper end", one(&|j| (10 + j, 10 + k))),
        5 => ("apart", one(&|j| (5 * j, 5 * j + 2))),
        6 => ("touching", one(&|j| (5 * j, 5 * j + 4))),
        7 => ("in groups of five", one(&|j| (20 * (j / 5) + j % 5, 20 * (j / 5) + 4 + (j * 3) % 7))),
        8 => ("each over parts of ten others", one(&|j| (3 * j, 3 * j + 31))),
        _ => ("crossing", one(&|j| ((j * 37) % k, k + (j * 53) % k))),
    })
}

/// Orders of adding them: ascending, descending, from the middle, even ones first, and each twice
pub fn shuffled<T: Clone>(v: &[T], how: usize) -> Vec<T> {
    let mut r = v.to_vec();
    match how {
        0 => {}
        1 => r.reverse(),
        2 => { let h = r.len() / 2; r.rotate_left(h); }
        3 => r = v.iter().step_by(2).chain(v.iter().skip(1).step_by(2).rev()).cloned().collect(),
        _ => r = v.iter().rev().chain(v.iter()).cloned().collect(),
    }
    r
}

/// (arrangement, size) of every set of more than 128 ranges up to `max`
pub fn range_sizes(max: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for n in SIZES { for k in 0..ARRANGEMENTS { if n > 128 && n <= max && ranges(k, n).is_some() { v.push((k, n)); } } }
    v
}
