//! A machine whose edges are labelled with whole patterns: the reference for compiling patterns
//! onto an existing machine. Semantics by sets of items (a state, or somewhere inside an edge).

use crate::engine::Ctx;
use crate::machine::{Abs, Table};
use crate::model::{derivatives, nullable, Term, P};
use concordance::*;
use std::collections::{BTreeSet, HashSet, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Item {
    At(u32),
    In(u32, Term),
}

#[derive(Clone, Debug, Default)]
pub struct Gnfa<O: Ord> {
    /// from, pattern, to
    pub edges: Vec<(u32, P, u32)>,
    /// from, to
    pub joins: Vec<(u32, u32)>,
    /// state, output
    pub outs: Vec<(u32, O)>,
}

impl<O: Ord + Clone> Gnfa<O> {
    fn close(&self, items: impl IntoIterator<Item = Item>) -> BTreeSet<Item> {
        let mut set = BTreeSet::new();
        let mut todo: Vec<Item> = items.into_iter().collect();
        while let Some(i) = todo.pop() {
            if !set.insert(i.clone()) { continue; }
            match i {
                Item::At(s) => {
                    for (n, e) in self.edges.iter().enumerate() { if e.0 == s { todo.push(Item::In(n as u32, vec![e.1.clone()])); } }
                    for j in &self.joins { if j.0 == s { todo.push(Item::At(j.1)); } }
                }
                Item::In(n, t) => if t.iter().all(nullable) { todo.push(Item::At(self.edges[n as usize].2)); }
            }
        }
        set
    }
    pub fn start(&self) -> BTreeSet<Item> { self.close([Item::At(0)]) }
    pub fn next(&self, set: &BTreeSet<Item>, c: u8) -> BTreeSet<Item> {
        let mut v = vec![];
        for i in set {
            if let Item::In(n, t) = i { v.extend(derivatives(t, c).into_iter().map(|t| Item::In(*n, t))); }
        }
        self.close(v)
    }
    pub fn output(&self, set: &BTreeSet<Item>) -> Option<O> {
        self.outs.iter().filter(|o| set.contains(&Item::At(o.0))).map(|o| o.1.clone()).min()
    }
    pub fn longest(&self, w: &[u8]) -> Option<(usize, O)> {
        let mut set = self.start();
        let mut best = self.output(&set).map(|o| (0, o));
        for (i, c) in w.iter().enumerate() {
            set = self.next(&set, *c);
            if let Some(o) = self.output(&set) { best = Some((i + 1, o)); }
        }
        best
    }
}

/// A machine seen as a transition system with outputs
pub trait System<O> {
    type St: Clone + Eq + Hash;
    fn start(&self) -> Self::St;
    fn next(&self, s: &Self::St, c: usize) -> Self::St;
    fn output(&self, s: &Self::St) -> Option<O>;
    fn dead(&self, s: &Self::St) -> bool;
}
impl<O: Clone> System<O> for Table<O> {
    type St = Option<u32>;
    fn start(&self) -> Option<u32> { Some(0) }
    fn next(&self, s: &Option<u32>, c: usize) -> Option<u32> { s.and_then(|s| self.next[s as usize][c]) }
    fn output(&self, s: &Option<u32>) -> Option<O> { s.and_then(|s| self.out[s as usize].clone()) }
    fn dead(&self, s: &Option<u32>) -> bool { s.is_none() }
}
impl<O: Ord + Clone> System<O> for Abs<O> {
    type St = BTreeSet<u32>;
    fn start(&self) -> BTreeSet<u32> { [0].into_iter().collect() }
    fn next(&self, s: &BTreeSet<u32>, c: usize) -> BTreeSet<u32> { Abs::next(self, s, c) }
    fn output(&self, s: &BTreeSet<u32>) -> Option<O> { Abs::output(self, s) }
    fn dead(&self, s: &BTreeSet<u32>) -> bool { s.is_empty() }
}

/// Explores every pair of states reached by any input over k symbols and compares outputs; gives
/// an access string of every pair
pub fn product<O: Ord + Clone + Debug, S: System<O>>(a: &S, g: &Gnfa<O>, k: usize, tag: u64, ctx: &mut Ctx) -> Result<Vec<Vec<u8>>, String> {
    let mut seen: HashSet<(S::St, BTreeSet<Item>)> = HashSet::new();
    let mut q = VecDeque::new();
    let mut access = vec![];
    let start = (a.start(), g.start());
    seen.insert(start.clone());
    q.push_back((start, vec![]));
    while let Some(((s, i), w)) = q.pop_front() {
        ctx.state(&(tag, &i, &w));
        let (got, want) = (a.output(&s), g.output(&i));
        if got != want { return Err(format!("after the symbols {:?} the output is {:?}, expected {:?}", w, got, want)); }
        if !(a.dead(&s) && i.is_empty()) {
            for c in 0..k {
                ctx.step();
                let n = (a.next(&s, c), g.next(&i, c as u8));
                if !seen.contains(&n) {
                    if seen.len() > 500_000 { return Err("product larger than 500,000 states".into()); }
                    seen.insert(n.clone());
                    let mut w2 = w.clone();
                    w2.push(c as u8);
                    q.push_back((n, w2));
                }
            }
        }
        access.push(w);
    }
    Ok(access)
}

/// A mutable machine that is not the library's: it only stores what it is told
#[derive(Default)]
pub struct Own<S: Ord, O> {
    pub top: StateId,
    pub trans: Vec<(StateId, SymbolRange<S>, StateId)>,
    pub joins: Vec<(StateId, StateId)>,
    pub outs: Vec<(StateId, O)>,
}
impl<S: Ord + Clone, O> StateMachine<SymbolRange<S>, O> for Own<S, O> {
    fn count_states(&self) -> StateId { self.top + 1 }
    fn get_transitions_for_state(&self, state: StateId) -> Vec<(SymbolRange<S>, StateId)> {
        self.trans.iter().filter(|t| self.closure(state).contains(&t.0)).map(|t| (t.1.clone(), t.2)).collect()
    }
    fn output_symbol_for_state(&self, state: StateId) -> Option<&O> {
        self.outs.iter().rev().find(|o| self.closure(state).contains(&o.0)).map(|o| &o.1)
    }
}
impl<S: Ord + Clone, O> Own<S, O> {
    pub fn new() -> Own<S, O> { Own { top: 0, trans: vec![], joins: vec![], outs: vec![] } }
    fn closure(&self, s: StateId) -> BTreeSet<StateId> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![s];
        while let Some(x) = todo.pop() { if seen.insert(x) { todo.extend(self.joins.iter().filter(|j| j.0 == x).map(|j| j.1)); } }
        seen
    }
}
impl<S: Ord + Clone, O> MutableStateMachine<SymbolRange<S>, O> for Own<S, O> {
    fn add_transition(&mut self, state: StateId, for_symbol: SymbolRange<S>, new_state: StateId) {
        self.top = self.top.max(state).max(new_state);
        self.trans.push((state, for_symbol, new_state));
    }
    fn create_state(&mut self, state: StateId) { self.top = self.top.max(state); }
    fn set_output_symbol(&mut self, state: StateId, o: O) { self.top = self.top.max(state); self.outs.push((state, o)); }
    fn join_states(&mut self, a: StateId, b: StateId) { self.top = self.top.max(a).max(b); self.joins.push((a, b)); }
}
impl<S: crate::model::Sym, O: Ord + Clone> Own<S, O> {
    pub fn abs(&self, axis: &crate::model::Axis<S>) -> Abs<O> {
        let mut a = Abs::new(self.top as usize + 1, axis.len());
        for (s, r, t) in &self.trans { for c in 0..axis.len() { if r.lowest <= axis.syms[c] && axis.syms[c] <= r.highest { a.step[*s as usize][c].insert(*t); } } }
        for (s, o) in &self.outs { a.out[*s as usize].insert(o.clone()); }
        let mut j = vec![BTreeSet::new(); self.top as usize + 1];
        for (x, y) in &self.joins { j[*x as usize].insert(*y); }
        a.with_joins(&j)
    }
}
