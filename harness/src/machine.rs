//! A plain listed state machine (implements the library's StateMachine trait) and its reference
//! semantics by subset simulation.

use crate::engine::Ctx;
use concordance::*;
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

/// Transitions are listed exactly in the stored order
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Listed<I, O> {
    pub trans: Vec<Vec<(I, StateId)>>,
    pub out: Vec<Option<O>>,
}

impl<I: Clone, O> StateMachine<I, O> for Listed<I, O> {
    fn count_states(&self) -> StateId {
        self.trans.len() as StateId
    }
    fn get_transitions_for_state(&self, state: StateId) -> Vec<(I, StateId)> {
        self.trans[state as usize].clone()
    }
    fn output_symbol_for_state(&self, state: StateId) -> Option<&O> {
        self.out[state as usize].as_ref()
    }
}

/// A machine over symbol indices 0..k, the reference
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Abs<O> {
    pub k: usize,
    /// step[state][symbol] = targets
    pub step: Vec<Vec<BTreeSet<u32>>>,
    /// all outputs of a state
    pub out: Vec<BTreeSet<O>>,
}

impl<O: Ord + Clone> Abs<O> {
    pub fn new(n: usize, k: usize) -> Abs<O> {
        Abs { k, step: vec![vec![BTreeSet::new(); k]; n], out: vec![BTreeSet::new(); n] }
    }
    /// Follows joins: joins[s] are the states s is joined to. Everything of those states (to any
    /// depth) also belongs to s.
    pub fn with_joins(&self, joins: &[BTreeSet<u32>]) -> Abs<O> {
        let n = self.step.len();
        let mut r = Abs::new(n, self.k);
        for s in 0..n {
            let mut seen = BTreeSet::new();
            let mut todo = vec![s as u32];
            while let Some(x) = todo.pop() {
                if seen.insert(x) {
                    todo.extend(joins[x as usize].iter().cloned());
                }
            }
            for x in seen {
                for c in 0..self.k {
                    r.step[s][c].extend(self.step[x as usize][c].iter().cloned());
                }
                r.out[s].extend(self.out[x as usize].iter().cloned());
            }
        }
        r
    }
    pub fn next(&self, set: &BTreeSet<u32>, c: usize) -> BTreeSet<u32> {
        set.iter().flat_map(|s| self.step[*s as usize][c].iter().cloned()).collect()
    }
    pub fn output(&self, set: &BTreeSet<u32>) -> Option<O> {
        set.iter().flat_map(|s| self.out[*s as usize].iter()).min().cloned()
    }
    /// Longest prefix with an output, and the lowest output there
    pub fn longest(&self, w: &[u8]) -> Option<(usize, O)> {
        let mut set: BTreeSet<u32> = [0].into_iter().collect();
        let mut best = self.output(&set).map(|o| (0, o));
        for (i, c) in w.iter().enumerate() {
            set = self.next(&set, *c as usize);
            if let Some(o) = self.output(&set) {
                best = Some((i + 1, o));
            }
        }
        best
    }
}

/// A deterministic table: next[state][symbol], outputs
pub struct Table<O> {
    pub next: Vec<Vec<Option<u32>>>,
    pub out: Vec<Option<O>>,
}

/// Explores every pair (table state or dead, subset) reachable by any input and compares outputs.
/// Returns an access string of every pair.
pub fn subset_product<O: Ord + Clone + Debug + Hash>(t: &Table<O>, a: &Abs<O>, tag: u64, ctx: &mut Ctx) -> Result<Vec<Vec<u8>>, String> {
    const DEAD: u32 = u32::MAX;
    if t.next.is_empty() {
        return Err("the compiled machine has no states".into());
    }
    let start: BTreeSet<u32> = [0].into_iter().collect();
    let mut seen: HashMap<(u32, BTreeSet<u32>), ()> = HashMap::new();
    let mut q = VecDeque::new();
    let mut access = vec![];
    seen.insert((0, start.clone()), ());
    q.push_back((0u32, start, vec![]));
    while let Some((d, s, w)) = q.pop_front() {
        ctx.state(&(tag, d, &s));
        let real = if d == DEAD { None } else { t.out[d as usize].clone() };
        let want = a.output(&s);
        if real != want {
            return Err(format!("after the symbols {:?} the compiled machine has output {:?}, expected {:?} (machine states {:?})", w, real, want, s));
        }
        if !(d == DEAD && s.is_empty()) {
            for c in 0..a.k {
                ctx.transitions += 1;
                let d2 = if d == DEAD { DEAD } else { t.next[d as usize][c].unwrap_or(DEAD) };
                let s2 = a.next(&s, c);
                if !seen.contains_key(&(d2, s2.clone())) {
                    seen.insert((d2, s2.clone()), ());
                    let mut w2 = w.clone();
                    w2.push(c as u8);
                    q.push_back((d2, s2, w2));
                }
            }
        }
        access.push(w);
    }
    Ok(access)
}

/// Table of a real range DFA restricted to an axis of symbols; fails if it is not deterministic
pub fn range_table<S: crate::model::Sym, O: Clone, M: StateMachine<SymbolRange<S>, O> + ?Sized>(m: &M, axis: &crate::model::Axis<S>) -> Result<Table<O>, String> {
    let next = crate::product::table(m, axis)?;
    let out = (0..next.len()).map(|s| m.output_symbol_for_state(s as u32).cloned()).collect();
    Ok(Table { next, out })
}

/// What a DfaBuilder was asked to do
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev<I, O> {
    Start,
    Transition(I, StateId),
    Accept(O),
}

/// Records every call
pub struct Recorder<I, O> {
    pub ev: Vec<Ev<I, O>>,
}
impl<I, O> Recorder<I, O> {
    pub fn new() -> Recorder<I, O> {
        Recorder { ev: vec![] }
    }
}
impl<I, O> DfaBuilder<I, O, Vec<Ev<I, O>>> for Recorder<I, O> {
    fn start_state(&mut self) {
        self.ev.push(Ev::Start);
    }
    fn transition(&mut self, symbol: I, target_state: StateId) {
        self.ev.push(Ev::Transition(symbol, target_state));
    }
    fn accept(&mut self, symbol: O) {
        self.ev.push(Ev::Accept(symbol));
    }
    fn build(self) -> Vec<Ev<I, O>> {
        self.ev
    }
}

/// Machines with many alike transitions or states, of which exactly one differs
#[derive(Clone, Copy, Debug)]
pub struct Odd { pub n: usize, pub k: usize, pub variant: u8, pub gap: bool }

/// Every size up to `upto` with every place of the one that differs, and larger ones at some places
pub fn odds(upto: usize) -> Vec<Odd> {
    let mut v = vec![];
    for variant in 0..7u8 { for gap in [false, true] {
        let max = if variant >= 5 { 1100 } else if gap { 120 } else { 240 };
        for n in (1..=upto).chain([64, 65, 100, 120, 127, 128, 129, 200, 240, 255, 256, 257, 258, 300, 513, 1030].into_iter().filter(|n| *n > upto)) {
            if n > max { continue; }
            let ks: Vec<usize> = if n <= upto { (0..n).collect() } else { let mut v = vec![0, 1, 7, 8, 9, 31, 32, n / 2, n - 2, n - 1]; v.retain(|k| *k < n); v.dedup(); v };
            for k in ks { v.push(Odd { n, k, variant, gap }); }
        }
    } }
    v.sort_by_key(|o| o.n);
    v
}

impl Odd {
    /// transitions as (symbol index, target) in ascending order, and outputs
    pub fn rows(&self) -> (Vec<Vec<(usize, u32)>>, Vec<Option<u8>>) {
        let (n, k) = (self.n, self.k);
        if self.variant >= 5 {
            let rows = (0..=n).map(|s| { let mut r = vec![]; if s < n { r.push((0, s as u32 + 1)); } r.push((1, if s == k { 0 } else { (s / 2) as u32 })); r }).collect();
            return (rows, (0..=n).map(|s| if (s == k) == (self.variant == 5) { Some((s % 7) as u8) } else { None }).collect());
        }
        if self.variant == 4 {
            let mut rows = vec![(0..n).map(|c| (c, 1 + if c == k { (k + 1) % n } else { c } as u32)).collect::<Vec<_>>()];
            let mut outs = vec![None];
            for c in 0..n { rows.push(if c % 2 == 0 { vec![(0, 0)] } else { vec![] }); outs.push(if c % 3 == 1 { None } else { Some((c % 200) as u8) }); }
            return (rows, outs);
        }
        let row = (0..n).filter(|c| self.variant != 1 || *c != k).map(|c| (c, match self.variant { 3 => 1 + (c % 2 == 1) as u32 ^ if c == k { 3 } else { 0 }, _ if c != k => 1, 0 => 2, _ => 0 })).collect();
        (vec![row, vec![(0, 3)], vec![(0, 1), ], vec![]], vec![None, Some(5), Some(3), Some(9)])
    }
    pub fn symbols(&self) -> usize { if self.variant >= 5 { 2 } else { self.n } }
    pub fn range(&self, c: usize) -> SymbolRange<u16> { let c = c as u16; if self.gap { SymbolRange::new(3 * c + 1, 3 * c + 2) } else { SymbolRange::new(2 * c, 2 * c + 1) } }
    /// representatives: one symbol of each range, one between each two
    pub fn axis(&self) -> crate::model::Axis<u16> {
        let mut v = vec![];
        for c in 0..self.symbols() { if self.gap { v.push(3 * c as u16); v.push(3 * c as u16 + 2); } else { v.push(2 * c as u16 + (c % 2) as u16); } }
        crate::model::Axis::new(v)
    }
    /// listed in ascending (0), descending (1) or rotated (2) order
    pub fn machine(&self, order: u8) -> (Listed<SymbolRange<u16>, u8>, Abs<u8>) {
        let (rows, outs) = self.rows();
        let k = self.axis().len();
        let mut a = Abs::new(rows.len(), k);
        let mut m = Listed { trans: vec![], out: outs.clone() };
        for (s, r) in rows.iter().enumerate() {
            for (c, to) in r { a.step[s][if self.gap { 2 * c + 1 } else { *c }].insert(*to); }
            if let Some(o) = outs[s] { a.out[s].insert(o); }
            let mut l: Vec<_> = r.iter().map(|(c, to)| (self.range(*c), *to)).collect();
            match order { 0 => {} 1 => l.reverse(), _ => { let h = l.len() / 2; l.rotate_left(h); } }
            m.trans.push(l);
        }
        (m, a)
    }
}
