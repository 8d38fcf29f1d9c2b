//! Reference semantics, independent of the library and deliberately boring.
//!
//! Patterns are written over the indices of an ordered *axis* of representative symbols; the
//! reference only ever sees indices, the library sees the real symbols (see `Axis`).
//!
//! Two independent definitions of a pattern's language are kept and compared with each other:
//! * `ends`   : the set of positions where a match of the pattern starting at `i` can end
//!              (denotational, for one given input), and
//! * `pd`     : Antimirov partial derivatives, which give a finite automaton and so decide
//!              language equality for inputs of *every* length.

use concordance::{Countable, Pattern};
use std::collections::{BTreeSet, HashMap};

/// Reference pattern over axis indices
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum P {
    Eps,
    Lit(Vec<u8>),
    /// inclusive
    Range(u8, u8),
    /// at least n copies
    Inf(u32, Box<P>),
    /// from lo to hi-1 copies
    Rep(u32, u32, Box<P>),
    All(Vec<P>),
    Any(Vec<P>),
}

/// An ordered list of representative symbols of the real symbol type. A pattern range from axis
/// index i to j is the real range syms[i]..=syms[j]; symbols between representatives are
/// represented by further axis entries that patterns need not mention.
#[derive(Clone, Debug)]
pub struct Axis<S> {
    pub syms: Vec<S>,
}

pub trait Sym: Ord + Clone + Countable + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static {}
impl<T: Ord + Clone + Countable + std::hash::Hash + std::fmt::Debug + Send + Sync + 'static> Sym for T {}

/// Characters that text handling treats in some special way, or that sit at a boundary of UTF-8 or UTF-16: controls, blanks,
/// quotes, case pairs, combining marks, joiners, marks of order and direction, non-characters
pub fn text_axis() -> Axis<char> {
    Axis::new(vec!['\0', '\t', '\n', '\r', ' ', '"', 'A', '\\', 'a', '\u{7f}', '\u{80}', '\u{a0}', '\u{c9}', '\u{e9}', '\u{ff}', '\u{301}', '\u{7ff}', '\u{800}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}'])
}

impl<S: Sym> Axis<S> {
    pub fn new(syms: Vec<S>) -> Axis<S> {
        assert!(syms.windows(2).all(|w| w[0] < w[1]));
        assert!(syms.len() < 250);
        Axis { syms }
    }
    pub fn len(&self) -> usize {
        self.syms.len()
    }
    pub fn string(&self, w: &[u8]) -> Vec<S> {
        w.iter().map(|i| self.syms[*i as usize].clone()).collect()
    }
    pub fn pattern(&self, p: &P) -> Pattern<S> {
        match p {
            P::Eps => Pattern::Epsilon,
            P::Lit(v) => Pattern::Match(self.string(v)),
            P::Range(a, b) => Pattern::MatchRange(self.syms[*a as usize].clone(), self.syms[*b as usize].clone()),
            P::Inf(n, x) => Pattern::RepeatInfinite(*n, Box::new(self.pattern(x))),
            P::Rep(lo, hi, x) => Pattern::Repeat(*lo..*hi, Box::new(self.pattern(x))),
            P::All(v) => Pattern::MatchAll(v.iter().map(|x| self.pattern(x)).collect()),
            P::Any(v) => Pattern::MatchAny(v.iter().map(|x| self.pattern(x)).collect()),
        }
    }
}

// ------------------------------------------------------------------ denotational semantics

/// Sets of positions 0..=127
pub type PosSet = u128;

pub fn ends(p: &P, w: &[u8], from: PosSet) -> PosSet {
    debug_assert!(w.len() < 128);
    match p {
        P::Eps => from,
        P::Lit(l) => {
            let mut out = 0;
            for i in 0..=w.len() {
                if from >> i & 1 == 1 && w.len() - i >= l.len() && &w[i..i + l.len()] == &l[..] {
                    out |= 1u128 << (i + l.len());
                }
            }
            out
        }
        P::Range(a, b) => {
            let mut out = 0;
            for i in 0..w.len() {
                if from >> i & 1 == 1 && *a <= w[i] && w[i] <= *b {
                    out |= 1u128 << (i + 1);
                }
            }
            out
        }
        P::Inf(n, x) => {
            let mut cur = from;
            for _ in 0..*n {
                cur = ends(x, w, cur);
            }
            let mut acc = cur;
            loop {
                cur = ends(x, w, cur);
                if cur & !acc == 0 {
                    return acc;
                }
                acc |= cur;
            }
        }
        P::Rep(lo, hi, x) => {
            let mut out = 0;
            let mut cur = from;
            for n in 0..*hi {
                if n >= *lo {
                    out |= cur;
                }
                cur = ends(x, w, cur);
            }
            out
        }
        P::All(v) => v.iter().fold(from, |f, x| ends(x, w, f)),
        P::Any(v) => v.iter().fold(0, |o, x| o | ends(x, w, from)),
    }
}

/// Longest prefix of w[at..] in the language of p, by the denotational semantics
pub fn longest(p: &P, w: &[u8], at: usize) -> Option<usize> {
    let e = ends(p, w, 1u128 << at);
    if e == 0 { None } else { Some(127 - e.leading_zeros() as usize - at) }
}

/// Longest match over several patterns and the lowest output among those reaching it
pub fn longest_of<O: Ord + Clone>(ps: &[(P, O)], w: &[u8], at: usize) -> Option<(usize, O)> {
    let mut best: Option<(usize, O)> = None;
    for (p, o) in ps {
        if let Some(n) = longest(p, w, at) {
            best = Some(match best {
                None => (n, o.clone()),
                Some((m, b)) => {
                    if n > m || (n == m && *o < b) { (n, o.clone()) } else { (m, b) }
                }
            });
        }
    }
    best
}

// ------------------------------------------------------------------ partial derivatives

/// What is left to match: a sequence of patterns
pub type Term = Vec<P>;

pub fn nullable(p: &P) -> bool {
    match p {
        P::Eps => true,
        P::Lit(l) => l.is_empty(),
        P::Range(..) => false,
        P::Inf(n, x) => *n == 0 || nullable(x),
        P::Rep(lo, hi, x) => lo < hi && (*lo == 0 || nullable(x)),
        P::All(v) => v.iter().all(nullable),
        P::Any(v) => v.iter().any(nullable),
    }
}

/// What can be left of a sequence of patterns after a symbol
pub fn derivatives(term: &Term, s: u8) -> Vec<Term> {
    let mut out = vec![];
    pd_seq(term, s, &mut out);
    out
}

fn pd_p(p: &P, s: u8, out: &mut Vec<Term>) {
    match p {
        P::Eps => {}
        P::Lit(l) => {
            if !l.is_empty() && l[0] == s {
                out.push(if l.len() > 1 { vec![P::Lit(l[1..].to_vec())] } else { vec![] });
            }
        }
        P::Range(a, b) => {
            if *a <= s && s <= *b {
                out.push(vec![]);
            }
        }
        P::Inf(n, x) => {
            let mut inner = vec![];
            pd_p(x, s, &mut inner);
            for mut t in inner {
                t.push(P::Inf(n.saturating_sub(1), x.clone()));
                out.push(t);
            }
        }
        P::Rep(lo, hi, x) => {
            if lo < hi && *hi > 1 {
                let mut inner = vec![];
                pd_p(x, s, &mut inner);
                for mut t in inner {
                    if *hi > 2 {
                        t.push(P::Rep(lo.saturating_sub(1), hi - 1, x.clone()));
                    } else if *lo > 1 {
                        continue;
                    }
                    // hi == 2: the only count left is zero, which is the empty term
                    out.push(t);
                }
            }
        }
        P::All(v) => pd_seq(v, s, out),
        P::Any(v) => {
            for x in v {
                pd_p(x, s, out);
            }
        }
    }
}

fn pd_seq(v: &[P], s: u8, out: &mut Vec<Term>) {
    for (i, x) in v.iter().enumerate() {
        let mut inner = vec![];
        pd_p(x, s, &mut inner);
        for mut t in inner {
            t.extend(v[i + 1..].iter().cloned());
            out.push(t);
        }
        if !nullable(x) {
            break;
        }
    }
}

/// Lazily built automaton of a list of patterns with outputs: states are sets of (pattern, term).
pub struct RefAutomaton<O> {
    terms: HashMap<(u32, Term), u32>,
    term_list: Vec<(u32, Term)>,
    pd_memo: HashMap<(u32, u8), Vec<u32>>,
    states: HashMap<Vec<u32>, u32>,
    state_list: Vec<Vec<u32>>,
    step_memo: HashMap<(u32, u8), u32>,
    outputs: Vec<O>,
}

impl<O: Ord + Clone> RefAutomaton<O> {
    pub fn new(ps: &[(P, O)]) -> RefAutomaton<O> {
        let mut a = RefAutomaton {
            terms: HashMap::new(), term_list: vec![], pd_memo: HashMap::new(), states: HashMap::new(),
            state_list: vec![], step_memo: HashMap::new(), outputs: ps.iter().map(|x| x.1.clone()).collect(),
        };
        let start: BTreeSet<u32> = ps.iter().enumerate().map(|(i, (p, _))| a.term(i as u32, vec![p.clone()])).collect();
        a.state(start.into_iter().collect());
        a
    }
    fn term(&mut self, p: u32, t: Term) -> u32 {
        let key = (p, t);
        if let Some(i) = self.terms.get(&key) {
            return *i;
        }
        let i = self.term_list.len() as u32;
        self.term_list.push(key.clone());
        self.terms.insert(key, i);
        i
    }
    fn state(&mut self, s: Vec<u32>) -> u32 {
        if let Some(i) = self.states.get(&s) {
            return *i;
        }
        let i = self.state_list.len() as u32;
        self.state_list.push(s.clone());
        self.states.insert(s, i);
        i
    }
    pub fn start(&self) -> u32 {
        0
    }
    pub fn step(&mut self, st: u32, s: u8) -> u32 {
        if let Some(n) = self.step_memo.get(&(st, s)) {
            return *n;
        }
        let mut set = BTreeSet::new();
        for t in self.state_list[st as usize].clone() {
            if !self.pd_memo.contains_key(&(t, s)) {
                let (p, term) = self.term_list[t as usize].clone();
                let mut out = vec![];
                pd_seq(&term, s, &mut out);
                let ids: BTreeSet<u32> = out.into_iter().map(|x| self.term(p, x)).collect();
                self.pd_memo.insert((t, s), ids.into_iter().collect());
            }
            set.extend(self.pd_memo[&(t, s)].iter().cloned());
        }
        let n = self.state(set.into_iter().collect());
        self.step_memo.insert((st, s), n);
        n
    }
    /// Lowest output among the patterns that accept here
    pub fn output(&self, st: u32) -> Option<O> {
        self.state_list[st as usize].iter().filter_map(|t| {
            let (p, term) = &self.term_list[*t as usize];
            if term.iter().all(nullable) { Some(self.outputs[*p as usize].clone()) } else { None }
        }).min()
    }
    /// True if no continuation can match: nothing is left to match
    pub fn is_empty(&self, st: u32) -> bool {
        self.state_list[st as usize].is_empty()
    }
    /// Longest match of a whole string (any length)
    pub fn longest(&mut self, w: &[u8]) -> Option<(usize, O)> {
        let mut st = self.start();
        let mut best = self.output(st).map(|o| (0, o));
        for (i, s) in w.iter().enumerate() {
            st = self.step(st, *s);
            if self.is_empty(st) {
                break;
            }
            if let Some(o) = self.output(st) {
                best = Some((i + 1, o));
            }
        }
        best
    }
    pub fn state_count(&self) -> usize {
        self.state_list.len()
    }
}

/// Upper bound of symbols a matcher may examine for a pattern without unbounded repetition:
/// total number of symbol positions in the fully unrolled pattern. None if it repeats unboundedly.
pub fn unrolled_size(p: &P) -> Option<u64> {
    match p {
        P::Eps => Some(0),
        P::Lit(l) => Some(l.len() as u64),
        P::Range(..) => Some(1),
        P::Inf(..) => None,
        P::Rep(_, hi, x) => unrolled_size(x).map(|n| n * *hi as u64),
        P::All(v) | P::Any(v) => v.iter().map(unrolled_size).try_fold(0, |a, b| b.map(|b| a + b)),
    }
}
