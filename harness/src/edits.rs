//! Edits to a mutable machine and the set-based reference of what it then holds.

use crate::engine::*;
use concordance::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Op {
    T(u32, char, u32),
    C(u32),
    O(u32, i16),
    J(u32, u32),
}

#[derive(Default, Clone, Hash)]
pub struct Model {
    pub max: u32,
    pub trans: BTreeMap<u32, Vec<(char, u32)>>,
    pub joins: BTreeMap<u32, BTreeSet<u32>>,
    pub out: BTreeMap<u32, i16>,
}

impl Model {
    pub fn apply(&mut self, op: &Op) {
        match *op {
            Op::T(s, c, t) => { self.max = self.max.max(s).max(t); self.trans.entry(s).or_default().push((c, t)); }
            Op::C(s) => self.max = self.max.max(s),
            Op::O(s, o) => { self.max = self.max.max(s); self.out.insert(s, o); }
            Op::J(a, b) => { self.max = self.max.max(a).max(b); self.joins.entry(a).or_default().insert(b); }
        }
    }
    pub fn closure(&self, s: u32) -> BTreeSet<u32> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![s];
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                if let Some(j) = self.joins.get(&x) { todo.extend(j.iter().cloned()); }
            }
        }
        seen
    }
}

pub fn apply(n: &mut Ndfa<char, i16>, op: &Op) {
    match *op {
        Op::T(s, c, t) => n.add_transition(s, c, t),
        Op::C(s) => n.create_state(s),
        Op::O(s, o) => n.set_output_symbol(s, o),
        Op::J(a, b) => n.join_states(a, b),
    }
}

pub fn compare(n: &Ndfa<char, i16>, m: &Model, states: &[u32], ctx: &mut Ctx) -> CaseResult {
    ctx.trace();
    if n.count_states() != m.max + 1 {
        return Err(format!("count_states is {}, expected {}", n.count_states(), m.max + 1));
    }
    for s in states.iter().cloned().filter(|s| *s <= m.max) {
        let c = m.closure(s);
        let mut real = n.get_transitions_for_state(s);
        real.sort();
        real.dedup();
        let want: BTreeSet<(char, u32)> = c.iter().flat_map(|x| m.trans.get(x).into_iter().flatten().cloned()).collect();
        if real != want.iter().cloned().collect::<Vec<_>>() {
            return Err(format!("state {} has transitions {:?}, expected {:?}", s, real, want));
        }
        let real = n.output_symbol_for_state(s).cloned();
        let ok = match m.out.get(&s) {
            Some(o) => real == Some(*o),
            None => {
                let all: BTreeSet<i16> = c.iter().filter_map(|x| m.out.get(x).cloned()).collect();
                match real { None => all.is_empty(), Some(o) => all.contains(&o) }
            }
        };
        if !ok {
            return Err(format!("state {} reports output {:?}; own {:?}, joined to {:?}, outputs {:?}", s, real, m.out.get(&s), c, m.out));
        }
    }
    Ok(())
}

pub fn pool(n: u32) -> Vec<Op> {
    let mut p = vec![];
    for s in 0..n { for c in ['a', 'b'] { for t in 0..n { p.push(Op::T(s, c, t)); } } }
    for s in 0..n { for t in 0..n { p.push(Op::J(s, t)); } }
    for s in 0..n { for o in [1, -2] { p.push(Op::O(s, o)); } }
    for s in 0..n { p.push(Op::C(s)); }
    p
}
