//! Product of the real compiled machine (seen through the public StateMachine view) with the
//! reference automaton: decides equality of outputs for inputs of every length over the axis.

use crate::engine::{CaseResult, Ctx};
use crate::model::{Axis, RefAutomaton, Sym, P};
use concordance::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;

pub fn targets<S: Sym, O, M: StateMachine<SymbolRange<S>, O> + ?Sized>(m: &M, st: StateId, s: &S) -> Vec<StateId> {
    let mut v: Vec<StateId> = m.get_transitions_for_state(st).into_iter().filter(|(r, _)| r.lowest <= *s && *s <= r.highest).map(|x| x.1).collect();
    v.sort();
    v.dedup();
    v
}

/// Reads the whole table of a deterministic machine restricted to the axis: next[state][sym]
pub fn table<S: Sym, O, M: StateMachine<SymbolRange<S>, O> + ?Sized>(m: &M, axis: &Axis<S>) -> Result<Vec<Vec<Option<StateId>>>, String> {
    let n = m.count_states();
    let mut out = vec![];
    for st in 0..n {
        let tr = m.get_transitions_for_state(st);
        let mut row = vec![None; axis.len()];
        for (r, t) in tr {
            if t >= n {
                return Err(format!("state {} has a transition on {:?} to state {}, but there are only {} states", st, r, t, n));
            }
            let lo = axis.syms.partition_point(|s| *s < r.lowest);
            let hi = axis.syms.partition_point(|s| *s <= r.highest);
            for i in lo..hi {
                match row[i] {
                    None => row[i] = Some(t),
                    Some(old) if old == t => {}
                    Some(old) => return Err(format!("state {} goes to both {} and {} on symbol {:?}", st, old, t, axis.syms[i])),
                }
            }
        }
        out.push(row);
    }
    Ok(out)
}

#[derive(Default)]
pub struct Explored {
    /// shortest access strings of all product states, in order
    pub access: Vec<Vec<u8>>,
}

/// Explores all pairs (state of the real machine or dead, reference state) reachable by any string
/// over the axis and compares outputs in each.
pub fn product<S: Sym, O: Ord + Clone + Debug, M: StateMachine<SymbolRange<S>, O> + ?Sized>(
    m: &M, axis: &Axis<S>, r: &mut RefAutomaton<O>, tag: u64, ctx: &mut Ctx,
) -> Result<Explored, String> {
    let tab = table(m, axis)?;
    if tab.is_empty() {
        return Err("the compiled machine has no states".into());
    }
    const DEAD: u32 = u32::MAX;
    let mut seen: HashMap<(u32, u32), usize> = HashMap::new();
    // (dfa state, ref state, parent, symbol)
    let mut nodes: Vec<(u32, u32, usize, u8)> = vec![(0, r.start(), usize::MAX, 0)];
    seen.insert((0, r.start()), 0);
    let mut q = VecDeque::new();
    q.push_back(0usize);
    let path = |nodes: &Vec<(u32, u32, usize, u8)>, mut i: usize| {
        let mut w = vec![];
        while nodes[i].2 != usize::MAX {
            w.push(nodes[i].3);
            i = nodes[i].2;
        }
        w.reverse();
        w
    };
    while let Some(i) = q.pop_front() {
        let (d, s, _, _) = nodes[i];
        ctx.state(&(tag, d, s));
        let real = if d == DEAD { None } else { m.output_symbol_for_state(d).cloned() };
        let want = r.output(s);
        if real != want {
            let w = path(&nodes, i);
            return Err(format!("after the input {:?} the compiled machine has output {:?}, expected {:?}", axis.string(&w), real, want));
        }
        if d == DEAD && r.is_empty(s) {
            continue;
        }
        for c in 0..axis.len() as u8 {
            ctx.transitions += 1;
            let d2 = if d == DEAD { DEAD } else { tab[d as usize][c as usize].unwrap_or(DEAD) };
            let s2 = r.step(s, c);
            if !seen.contains_key(&(d2, s2)) {
                seen.insert((d2, s2), nodes.len());
                q.push_back(nodes.len());
                nodes.push((d2, s2, i, c));
                if nodes.len() > 2_000_000 {
                    return Err("product larger than 2,000,000 states".into());
                }
            }
        }
    }
    Ok(Explored { access: (0..nodes.len()).map(|i| path(&nodes, i)).collect() })
}

/// Runs the real matcher on a string
pub fn run_real<S: Sym, O: Clone + 'static>(dfa: &SymbolRangeDfa<S, O>, w: &Vec<S>) -> Result<Option<(usize, O)>, String> {
    let mut reader = w.read_symbols();
    match match_pattern(dfa.start(), &mut reader) {
        Accept(n, o) => Ok(Some((n, o.clone()))),
        Reject => Ok(None),
        More(_) => Err("match_pattern returned More".into()),
    }
}

/// What `is_accepted` says of each of `outputs`, for the result of a match and for the match in progress
pub fn check_accepted<S: Sym, O: PartialEq + Clone + Debug + 'static>(dfa: &SymbolRangeDfa<S, O>, w: &Vec<S>, want: &Option<(usize, O)>, outputs: &[O]) -> CaseResult {
    let mut reader = w.read_symbols();
    let r = match_pattern(dfa.start(), &mut reader);
    for o in outputs {
        let yes = want.as_ref().map(|x| x.1 == *o).unwrap_or(false);
        if r.is_accepted(o) != yes { return Err(format!("input {:?}: the result {:?} is{} said to be accepted with {:?}", w, want, if yes { " not" } else { "" }, o)); }
    }
    let mut act = dfa.start();
    for s in w {
        if let More(_) = act { if let Some(o) = outputs.iter().find(|o| act.is_accepted(*o)) { return Err(format!("input {:?}: a match in progress is said to be accepted with {:?}", w, o)); } }
        act = match act { More(st) => st.next(s.clone()), x => x };
    }
    Ok(())
}

/// Runs the real matcher on a string of axis indices and compares with the reference
pub fn check_run<S: Sym, O: Ord + Clone + Debug + 'static>(
    dfa: &SymbolRangeDfa<S, O>, axis: &Axis<S>, r: &mut RefAutomaton<O>, w: &[u8], ctx: &mut Ctx,
) -> CaseResult {
    let real = run_real(dfa, &axis.string(w))?;
    ctx.trace();
    let want = r.longest(w);
    if real != want {
        return Err(format!("input {:?}: the matcher reports {:?}, expected {:?}", axis.string(w), real, want));
    }
    Ok(())
}

/// Product exploration plus execution of every access string, each extended by every short string
pub fn check_matcher<S: Sym, O: Ord + Clone + Debug + 'static>(
    dfa: &SymbolRangeDfa<S, O>, axis: &Axis<S>, r: &mut RefAutomaton<O>, ext: &[Vec<u8>], tag: u64, ctx: &mut Ctx,
) -> CaseResult {
    let e = product(dfa, axis, r, tag, ctx)?;
    for w in &e.access {
        for x in ext {
            let mut v = w.clone();
            v.extend_from_slice(x);
            check_run(dfa, axis, r, &v, ctx)?;
        }
    }
    Ok(())
}

/// Self-check of the reference: derivative automaton against end-position semantics
pub fn check_reference<O: Ord + Clone + Debug>(ps: &[(P, O)], r: &mut RefAutomaton<O>, w: &[u8]) {
    let a = crate::model::longest_of(ps, w, 0);
    let b = r.longest(w);
    assert!(a == b, "REFERENCE DISAGREES WITH ITSELF on {:?}: {:?} {:?} {:?}", w, a, b, ps.iter().map(|x| &x.0).collect::<Vec<_>>());
}

// ------------------------------------------------------------------ wide states

/// Numbers of transitions per state at which a narrow index or a chunk size would show
pub const WIDE: [u32; 16] = [1, 100, 254, 255, 256, 257, 258, 300, 511, 513, 1000, 1025, 4097, 32769, 65536, 65537];

/// The wide machine: 4 states, state s takes symbol 3c+s (c < fan) to state (s+c+1)%4; odd states
/// have their number as output.
pub fn wide_next(fan: u32, s: u32, x: u32) -> Option<u32> {
    if x < s || (x - s) % 3 != 0 || (x - s) / 3 >= fan { None } else { Some((s + (x - s) / 3 + 1) % 4) }
}

/// Compares a matcher with the wide machine on words around every power of two, every 61st
/// transition and both ends, from every state
pub fn wide_probe(d: &SymbolRangeDfa<u32, u32>, fan: u32, ctx: &mut Ctx) -> CaseResult {
    let mut cs: Vec<u32> = (0..fan).filter(|c| *c < 10 || c + 10 >= fan || c % 61 == 0 || (c & (c - 1)) == 0 || (c & (c + 1)) == 0).collect();
    cs.push(fan);
    cs.push(fan + 1);
    for s in 0..4u32 {
        // a word that leads to state s: from 0 by c = s-1 (mod 4)
        let to: Vec<u32> = if s == 0 { vec![] } else if fan >= 4 { vec![3 * (s - 1)] } else { continue };
        for &c in &cs {
            for x in [3 * c + s, 3 * c + s + 1] {
                let mut w = to.clone();
                w.push(x);
                w.push(1_000_000);
                let mut at = 0;
                let mut want = None;
                for (n, y) in w.iter().enumerate() {
                    match wide_next(fan, at, *y) { None => break, Some(t) => at = t }
                    if at % 2 == 1 { want = Some((n + 1, at)); }
                }
                ctx.step();
                ctx.trace();
                ctx.state(&(fan, s, x));
                let got = run_real(d, &w)?;
                if got != want { return Err(format!("states with {} transitions: input {:?} gave {:?}, expected {:?}", fan, w, got, want)); }
            }
        }
    }
    Ok(())
}

pub fn wide_dfa(fan: u32) -> SymbolRangeDfa<u32, u32> {
    let mut b = SymbolRangeDfaBuilder::new();
    for s in 0..4u32 {
        b.start_state();
        if s % 2 == 1 { b.accept(s); }
        for c in 0..fan { b.transition(SymbolRange::new(3 * c + s, 3 * c + s), (s + c + 1) % 4); }
    }
    b.build()
}
