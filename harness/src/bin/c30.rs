//! C30: symbols and outputs of every type behave alike.
use concordance::overlapping_symbols::*;
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use mc::tree;
use std::cmp::{Ordering, Reverse};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ------------------------------------------------------------------ types of symbols

/// Exactly four values, and nothing beyond them
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Four { A, B, C, D }
impl Countable for Four {
    fn next(&self) -> Four { match self { Four::A => Four::B, Four::B => Four::C, Four::C => Four::D, Four::D => panic!("asked for the symbol after the last") } }
    fn prev(&self) -> Four { match self { Four::D => Four::C, Four::C => Four::B, Four::B => Four::A, Four::A => panic!("asked for the symbol before the first") } }
}

/// In the opposite order of their numbers
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Down(u8);
impl PartialOrd for Down { fn partial_cmp(&self, o: &Down) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Down { fn cmp(&self, o: &Down) -> Ordering { o.0.cmp(&self.0) } }
impl Countable for Down {
    fn next(&self) -> Down { Down(self.0.checked_sub(1).expect("asked for the symbol after the last")) }
    fn prev(&self) -> Down { Down(self.0.checked_add(1).expect("asked for the symbol before the first")) }
}

/// Numbers that are neighbours when ten apart
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Tens(i32);
impl Countable for Tens {
    fn next(&self) -> Tens { Tens(self.0 + 10) }
    fn prev(&self) -> Tens { Tens(self.0 - 10) }
}

/// Kept on the heap
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Word(String);
const WORDS: [&str; 4] = ["", "aardvark", "b", "zebra"];
impl Word {
    fn at(&self) -> usize { WORDS.iter().position(|w| *w == self.0).unwrap() }
}
impl Countable for Word {
    fn next(&self) -> Word { Word(WORDS[self.at() + 1].into()) }
    fn prev(&self) -> Word { Word(WORDS[self.at().checked_sub(1).expect("asked for the symbol before the first")].into()) }
}

/// Compared by its key alone
#[derive(Clone, Debug)]
struct Tagged2 { key: u8, label: u32 }
impl PartialEq for Tagged2 { fn eq(&self, o: &Tagged2) -> bool { self.key == o.key } }
impl Eq for Tagged2 {}
impl PartialOrd for Tagged2 { fn partial_cmp(&self, o: &Tagged2) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Tagged2 { fn cmp(&self, o: &Tagged2) -> Ordering { self.key.cmp(&o.key) } }
impl Hash for Tagged2 { fn hash<H: Hasher>(&self, h: &mut H) { self.key.hash(h) } }
impl Countable for Tagged2 {
    fn next(&self) -> Tagged2 { Tagged2 { key: self.key.checked_add(1).expect("asked for the symbol after the last"), label: 77 } }
    fn prev(&self) -> Tagged2 { Tagged2 { key: self.key.checked_sub(1).expect("asked for the symbol before the first"), label: 78 } }
}

/// Two digits
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Pair(bool, Box<bool>);
impl Countable for Pair {
    fn next(&self) -> Pair { match (self.0, *self.1) { (a, false) => Pair(a, Box::new(true)), (false, true) => Pair(true, Box::new(false)), _ => panic!("asked for the symbol after the last") } }
    fn prev(&self) -> Pair { match (self.0, *self.1) { (a, true) => Pair(a, Box::new(false)), (true, false) => Pair(false, Box::new(true)), _ => panic!("asked for the symbol before the first") } }
}

/// Many words of memory, the first of which never differ
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Large([u64; 9]);
impl Large { fn of(k: u64) -> Large { let mut a = [5; 9]; a[8] = k; Large(a) } }
impl Countable for Large {
    fn next(&self) -> Large { Large::of(self.0[8].checked_add(1).expect("asked for the symbol after the last")) }
    fn prev(&self) -> Large { Large::of(self.0[8].checked_sub(1).expect("asked for the symbol before the first")) }
}

/// Compared with a counter that notices comparisons between a symbol of the library's making and the others
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Shared(std::sync::Arc<u16>);
impl Countable for Shared {
    fn next(&self) -> Shared { Shared(std::sync::Arc::new(self.0.checked_add(1).expect("asked for the symbol after the last"))) }
    fn prev(&self) -> Shared { Shared(std::sync::Arc::new(self.0.checked_sub(1).expect("asked for the symbol before the first"))) }
}

/// Something to be done with four neighbouring symbols of each type: `axis` for patterns, `input` for what is read
trait Visit {
    fn visit<S: Sym, O: Ord + Clone + Debug + Send + 'static>(&self, axis: &Axis<S>, input: &Axis<S>, out: fn(u8) -> O, ctx: &mut Ctx) -> CaseResult;
}

const TYPES: usize = 47;
const TYPES_TEXT: &str = "47 sets of four neighbouring symbols (the ends, the middle and the places where a byte, a half or a sign changes of every built-in type, char's ends, surrogates and non-characters; eight types of a user's own: an enumeration with nothing beyond its four values, numbers in the opposite order, neighbours ten apart, strings, pairs, labelled, large and shared values)";
fn four<S: Sym>(v: [S; 4]) -> Axis<S> { Axis::new(v.to_vec()) }
fn run_type<V: Visit>(k: usize, v: &V, ctx: &mut Ctx) -> CaseResult {
    macro_rules! go { ($a:expr, $o:expr) => {{ let a = four($a); v.visit(&a, &a, $o, ctx) }} }
    fn num(k: u8) -> u8 { k }
    fn text(k: u8) -> String { "x".repeat(k as usize) }
    fn rev(k: u8) -> Reverse<i8> { Reverse(-(k as i8)) }
    match k {
        0 => go!([0u8, 1, 2, 3], num),
        1 => go!([252u8, 253, 254, 255], num),
        2 => go!([126u8, 127, 128, 129], text),
        3 => go!([-128i8, -127, -126, -125], num),
        4 => go!([-2i8, -1, 0, 1], rev),
        5 => go!([124i8, 125, 126, 127], num),
        6 => go!([0u16, 1, 2, 3], num),
        7 => go!([254u16, 255, 256, 257], num),
        8 => go!([65532u16, 65533, 65534, 65535], text),
        9 => go!([i16::MIN, i16::MIN + 1, i16::MIN + 2, i16::MIN + 3], num),
        10 => go!([-2i16, -1, 0, 1], num),
        11 => go!([32764i16, 32765, 32766, 32767], num),
        12 => go!([0u32, 1, 2, 3], num),
        13 => go!([0x7ffffffeu32, 0x7fffffff, 0x80000000, 0x80000001], num),
        14 => go!([65534u32, 65535, 65536, 65537], num),
        15 => go!([u32::MAX - 3, u32::MAX - 2, u32::MAX - 1, u32::MAX], rev),
        16 => go!([i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MIN + 3], num),
        17 => go!([-2i32, -1, 0, 1], text),
        18 => go!([i32::MAX - 3, i32::MAX - 2, i32::MAX - 1, i32::MAX], num),
        19 => go!([0u64, 1, 2, 3], num),
        20 => go!([0xfffffffeu64, 0xffffffff, 0x100000000, 0x100000001], num),
        21 => go!([(1u64 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2], num),
        22 => go!([u64::MAX - 3, u64::MAX - 2, u64::MAX - 1, u64::MAX], num),
        23 => go!([i64::MIN, i64::MIN + 1, i64::MIN + 2, i64::MIN + 3], num),
        24 => go!([-2i64, -1, 0, 1], num),
        25 => go!([-0x80000001i64, -0x80000000, -0x7fffffff, -0x7ffffffe], rev),
        26 => go!([i64::MAX - 3, i64::MAX - 2, i64::MAX - 1, i64::MAX], text),
        27 => go!([0usize, 1, 2, 3], num),
        28 => go!([usize::MAX - 3, usize::MAX - 2, usize::MAX - 1, usize::MAX], num),
        29 => go!([isize::MIN, isize::MIN + 1, isize::MIN + 2, isize::MIN + 3], num),
        30 => go!([-2isize, -1, 0, 1], num),
        31 => go!([isize::MAX - 3, isize::MAX - 2, isize::MAX - 1, isize::MAX], num),
        32 => go!(['\0', '\u{1}', '\u{2}', '\u{3}'], num),
        33 => go!(['a', 'b', 'c', 'd'], text),
        34 => go!(['\u{7e}', '\u{7f}', '\u{80}', '\u{81}'], num),
        35 => go!(['\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}'], num),
        36 => go!(['\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10001}'], num),
        37 => go!(['\u{10fffc}', '\u{10fffd}', '\u{10fffe}', '\u{10ffff}'], num),
        38 => go!([Four::A, Four::B, Four::C, Four::D], num),
        39 => go!([Down(3), Down(2), Down(1), Down(0)], num),
        40 => go!([Down(255), Down(254), Down(253), Down(252)], text),
        41 => go!([Tens(-20), Tens(-10), Tens(0), Tens(10)], rev),
        42 => go!([Word(WORDS[0].into()), Word(WORDS[1].into()), Word(WORDS[2].into()), Word(WORDS[3].into())], text),
        43 => {
            let of = |label: u32| four([0u8, 1, 2, 3].map(|key| Tagged2 { key, label: label + key as u32 }));
            v.visit(&of(0), &of(100), num, ctx)
        }
        44 => go!([Pair(false, Box::new(false)), Pair(false, Box::new(true)), Pair(true, Box::new(false)), Pair(true, Box::new(true))], num),
        45 => go!([Large::of(0), Large::of(1), Large::of(2), Large::of(3)], num),
        _ => go!([Shared(0.into()), Shared(1.into()), Shared(2.into()), Shared(3.into())], rev),
    }
    .map_err(|e| format!("symbols of kind {}: {}", k, e))
}

/// Types of outputs, over one type of symbols
const OUTS: usize = 11;
fn run_out<V: Visit>(k: usize, v: &V, ctx: &mut Ctx) -> CaseResult {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    enum Kind { Plain, Of(u8), With { text: String } }
    // Compared by its first part alone
    #[derive(Clone, Debug)]
    struct Part(u8, u8);
    impl PartialEq for Part { fn eq(&self, o: &Part) -> bool { self.0 == o.0 } }
    impl Eq for Part {}
    impl PartialOrd for Part { fn partial_cmp(&self, o: &Part) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for Part { fn cmp(&self, o: &Part) -> Ordering { self.0.cmp(&o.0) } }
    let a = four(['a', 'b', 'c', 'd']);
    macro_rules! go { ($o:expr) => { v.visit(&a, &a, $o, ctx) } }
    match k {
        0 => go!(|k| [i64::MIN, -1, 0, i64::MAX][k as usize]),
        1 => go!(|k| [Kind::Plain, Kind::Of(0), Kind::Of(9), Kind::With { text: "x".into() }][k as usize].clone()),
        2 => go!(|k| if k == 0 { None } else { Some(k) }),
        3 => go!(|k| vec![7u8; k as usize]),
        4 => go!(|k| Box::new(k)),
        5 => go!(|k| (k / 2, ['a', '\u{10ffff}'][k as usize % 2])),
        6 => go!(|k| Reverse(String::from(["z", "yy", "b", ""][k as usize]))),
        7 => go!(|k| [u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX - 1, u64::MAX][k as usize]),
        8 => go!(|k| Part(k, 9 - k)),
        9 => go!(|k| std::sync::Arc::new(k)),
        _ => go!(|k| [k as u128 + 5; 4]),
    }
    .map_err(|e| format!("outputs of kind {}: {}", k, e))
}

/// Types of outputs that have one value only: for machines all of whose outputs are the same
const UNITS: usize = 5;
fn run_unit<V: Visit>(k: usize, v: &V, ctx: &mut Ctx) -> CaseResult {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    struct Found;
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    enum Same { Here }
    let a = four(['a', 'b', 'c', 'd']);
    let n = four([251u64, 252, 253, 254]);
    match k {
        0 => v.visit(&a, &a, |_| (), ctx),
        1 => v.visit(&n, &n, |_| (), ctx),
        2 => v.visit(&a, &a, |_| Found, ctx),
        3 => v.visit(&a, &a, |_| Same::Here, ctx),
        _ => v.visit(&n, &n, |_| [0u64; 0], ctx),
    }
    .map_err(|e| format!("outputs with one value only, of kind {}: {}", k, e))
}

// ------------------------------------------------------------------ patterns and tokens

struct Set { ps: Vec<(P, u8)>, words: Rc<Vec<Vec<u8>>>, tokens: usize }
impl Visit for Set {
    fn visit<S: Sym, O: Ord + Clone + Debug + Send + 'static>(&self, axis: &Axis<S>, input: &Axis<S>, out: fn(u8) -> O, ctx: &mut Ctx) -> CaseResult {
        let mut tm = TokenMatcher::new();
        for (p, o) in &self.ps { tm.add_pattern(axis.pattern(p), out(*o)); }
        let dfa: SymbolRangeDfa<S, O> = tm.prepare_to_match();
        let show = || format!("{:?}", self.ps.iter().map(|(p, o)| (axis.pattern(p), out(*o))).collect::<Vec<_>>());
        for w in self.words.iter() {
            let v = input.string(w);
            ctx.step();
            let want = longest_of(&self.ps, w, 0);
            let got = match match_pattern(dfa.start(), &mut v.read_symbols()) { Accept(n, o) => Some((n, o.clone())), Reject => None, More(_) => return Err("more".into()) };
            if got != want.map(|(n, o)| (n, out(o))) { return Err(format!("{} matches {:?} as {:?}, expected {:?}", show(), v, got, want.map(|(n, o)| (n, out(o))))); }
            if w.len() > self.tokens { continue; }
            let mut at = 0;
            let mut want = vec![];
            while at < w.len() {
                match longest_of(&self.ps, w, at) { Some((n, o)) if n > 0 => { want.push((at..at + n, out(o))); at += n; } _ => at += 1 }
            }
            let got: Vec<_> = Tokenizer::new_prepared(VecReader::from_vec(v.clone()), &dfa).collect();
            if got != want { return Err(format!("{} finds the tokens {:?} in {:?}, expected {:?}", show(), got, v, want)); }
            let tagged = TaggedStream::from_tokenized_reader(&mut v.read_symbols(), &dfa);
            let mut k = 0;
            let mut at = 0;
            for (r, o) in want.iter().cloned().chain(std::iter::once((w.len()..w.len(), out(0)))) {
                while at < r.start { if tagged[k] != TagSymbol::Untagged(v[at].clone()) { return Err(format!("{} over {:?} gives the tagged stream {:?}", show(), v, tagged)); } at += 1; k += 1; }
                if at == w.len() { break; }
                match &tagged[k] {
                    TagSymbol::Tagged(t, s) if *t == o && s.len() == r.end - r.start && (r.start..r.end).all(|x| s[x - r.start] == TagSymbol::Untagged(v[x].clone())) => { at = r.end; k += 1; }
                    _ => return Err(format!("{} over {:?} gives the tagged stream {:?}", show(), v, tagged)),
                }
            }
            if k != tagged.len() { return Err(format!("{} over {:?} gives the tagged stream {:?}", show(), v, tagged)); }
        }
        ctx.trace();
        ctx.state(&(fp(&self.ps), dfa.count_states()));
        Ok(())
    }
}

// ------------------------------------------------------------------ ranges

const RANGES: [(u8, u8); 10] = [(0, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)];
struct Ranges(usize);
impl Visit for Ranges {
    fn visit<S: Sym, O: Ord + Clone + Debug + Send + 'static>(&self, axis: &Axis<S>, _input: &Axis<S>, _out: fn(u8) -> O, ctx: &mut Ctx) -> CaseResult {
        let range = |(a, b): (u8, u8)| SymbolRange::new(axis.syms[a as usize].clone(), axis.syms[b as usize].clone());
        let at = |s: &S| axis.syms.iter().position(|x| x == s).map(|x| x as u8);
        let put: Vec<(u8, u8)> = (0..10).filter(|j| self.0 >> j & 1 == 1).map(|j| RANGES[j]).collect();
        let mut m = SymbolMap::new();
        // even sets are added from the last to the first
        for r in if put.len() % 2 == 0 { put.iter().rev().cloned().collect::<Vec<_>>() } else { put.clone() } { m.add_range(&range(r)); }
        let n = m.to_non_overlapping_map();
        ctx.trace();
        for q in RANGES.iter() {
            ctx.step();
            let want: Vec<(u8, u8)> = put.iter().cloned().filter(|r| r.0 <= q.1 && q.0 <= r.1).collect();
            let got: Vec<_> = m.find_overlapping_ranges(&range(*q)).into_iter().map(|r| (at(&r.lowest), at(&r.highest))).collect();
            if got != want.iter().map(|r| (Some(r.0), Some(r.1))).collect::<Vec<_>>() { return Err(format!("{:?} overlaps {:?} of {:?}, expected {:?}", range(*q), got, put, want)); }
            for r in RANGES.iter() {
                let (x, y) = (range(*q), range(*r));
                if x.overlaps(&y) != (r.0 <= q.1 && q.0 <= r.1) { return Err(format!("{:?}.overlaps({:?}) is {}", x, y, x.overlaps(&y))); }
                let j = x.join(&y);
                if j != range((q.0.min(r.0), q.1.max(r.1))) { return Err(format!("{:?}.join({:?}) is {:?}", x, y, j)); }
                if x.cmp(&y) != q.cmp(r) { return Err(format!("{:?}.cmp({:?}) is {:?}", x, y, x.cmp(&y))); }
            }
            for s in 0..4u8 { if range(*q).includes(&axis.syms[s as usize]) != (q.0 <= s && s <= q.1) { return Err(format!("{:?} includes {:?}: wrong", range(*q), axis.syms[s as usize])); } }
        }
        // The parts of each range, and of all
        let all: Vec<(u8, u8)> = {
            let mut v = vec![];
            for r in n.find_overlapping_ranges(&range((0, 3))) {
                match (at(&r.lowest), at(&r.highest)) { (Some(a), Some(b)) if a <= b => v.push((a, b)), _ => return Err(format!("{:?} without overlaps contains {:?}", put, r)) }
            }
            v
        };
        if all.windows(2).any(|w| w[0].1 >= w[1].0) { return Err(format!("{:?} without overlaps is {:?}", put, all)); }
        let cover: BTreeSet<u8> = all.iter().flat_map(|r| r.0..=r.1).collect();
        if cover != put.iter().flat_map(|r| r.0..=r.1).collect() { return Err(format!("{:?} without overlaps is {:?}", put, all)); }
        if all.iter().any(|p| put.iter().any(|r| p.0 <= r.1 && r.0 <= p.1 && !(r.0 <= p.0 && p.1 <= r.1))) { return Err(format!("{:?} without overlaps is {:?}", put, all)); }
        ctx.state(&all);
        Ok(())
    }
}

// ------------------------------------------------------------------ machines

struct Machine { ts: Vec<(u32, (u8, u8), u32)>, joins: Vec<(u32, u32)>, words: Rc<Vec<Vec<u8>>> }
impl Visit for Machine {
    fn visit<S: Sym, O: Ord + Clone + Debug + Send + 'static>(&self, axis: &Axis<S>, input: &Axis<S>, out: fn(u8) -> O, ctx: &mut Ctx) -> CaseResult {
        let range = |(a, b): (u8, u8)| SymbolRange::new(axis.syms[a as usize].clone(), axis.syms[b as usize].clone());
        let mut n: Ndfa<SymbolRange<S>, O> = Ndfa::new();
        for (a, r, b) in &self.ts { n.add_transition(*a, range(*r), *b); }
        for (a, b) in &self.joins { n.join_states(*a, *b); }
        n.set_output_symbol(1, out(2));
        n.set_output_symbol(2, out(1));
        n.fix_overlapping_ranges();
        let dfa = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
        let close = |mut set: u32| loop {
            let next = self.joins.iter().fold(set, |s, (a, b)| if s >> a & 1 == 1 { s | 1 << b } else { s });
            if next == set { break set; }
            set = next;
        };
        for w in self.words.iter() {
            let v = input.string(w);
            ctx.step();
            let mut set = close(1);
            let mut want = None;
            for k in 0..=w.len() {
                // lowest output: state 2's
                if set & 4 != 0 { want = Some((k, out(1))); } else if set & 2 != 0 { want = Some((k, out(2))); }
                if k < w.len() { set = close(self.ts.iter().fold(0, |s, (a, r, b)| if set >> a & 1 == 1 && r.0 <= w[k] && w[k] <= r.1 { s | 1 << b } else { s })); }
            }
            let got = match match_pattern(dfa.start(), &mut v.read_symbols()) { Accept(n, o) => Some((n, o.clone())), Reject => None, More(_) => return Err("more".into()) };
            if got != want { return Err(format!("the machine with {:?} and the joins {:?} (outputs: state 1 {:?}, state 2 {:?}) takes {:?} as {:?}, expected {:?}", self.ts.iter().map(|t| (t.0, range(t.1), t.2)).collect::<Vec<_>>(), self.joins, out(2), out(1), v, got, want)); }
        }
        ctx.trace();
        ctx.state(&(&self.ts, &self.joins, dfa.count_states()));
        Ok(())
    }
}

/// A machine given to the builder by hand: for each of two states and four symbols, a target or none; as single symbols or in the longest ranges
struct Hand(u64);
impl Visit for Hand {
    fn visit<S: Sym, O: Ord + Clone + Debug + Send + 'static>(&self, axis: &Axis<S>, input: &Axis<S>, out: fn(u8) -> O, ctx: &mut Ctx) -> CaseResult {
        let d = digits(self.0 / 2, &[3; 8]);
        let joined = self.0 % 2 == 1;
        let mut b = SymbolRangeDfaBuilder::new();
        for st in 0..2usize {
            b.start_state();
            let mut k = 0;
            while k < 4 {
                let mut e = k;
                while joined && e < 3 && d[st * 4 + e + 1] == d[st * 4 + k] { e += 1; }
                if d[st * 4 + k] > 0 { b.transition(SymbolRange::new(axis.syms[k].clone(), axis.syms[e].clone()), d[st * 4 + k] as u32 - 1); }
                k = e + 1;
            }
            if st == 1 { b.accept(out(3)); }
        }
        let dfa = b.build();
        ctx.trace();
        if dfa.count_states() != 2 { return Err(format!("{} states instead of 2", dfa.count_states())); }
        for st in 0..2u32 {
            for k in 0..4usize {
                ctx.step();
                let to: BTreeSet<u32> = dfa.get_transitions_for_state(st).into_iter().filter(|t| t.0.includes(&input.syms[k])).map(|t| t.1).collect();
                let want: BTreeSet<u32> = d[st as usize * 4 + k].checked_sub(1).into_iter().map(|x| x as u32).collect();
                if to != want { return Err(format!("the machine {:?} (targets of each state by symbol, 0: none) leads from state {} on {:?} to {:?}", d, st, input.syms[k], to)); }
                let got = match match_pattern(dfa.start(), &mut vec![input.syms[k].clone(), input.syms[st as usize].clone()].read_symbols()) { Accept(n, _) => Some(n), _ => None };
                let first = d[k].checked_sub(1);
                let second = first.and_then(|x| d[x as usize * 4 + st as usize].checked_sub(1));
                let want = if second == Some(1) { Some(2) } else if first == Some(1) { Some(1) } else { None };
                if got != want { return Err(format!("the machine {:?} takes {:?} as {:?}, expected {:?}", d, [&input.syms[k], &input.syms[st as usize]], got, want)); }
            }
        }
        ctx.state(&(self.0, 0));
        Ok(())
    }
}

// ------------------------------------------------------------------ what is delivered are the symbols themselves

fn labelled(w: &[u8]) -> Vec<Tagged2> { w.iter().enumerate().map(|(i, k)| Tagged2 { key: *k, label: 1000 + i as u32 }).collect() }
fn labels(v: &[Tagged2]) -> Vec<u32> { v.iter().map(|x| x.label).collect() }

fn delivered(w: &[u8], cut: usize, ctx: &mut Ctx) -> CaseResult {
    let v = labelled(w);
    let want = labels(&v);
    let mut say = |what: &str, got: Vec<u32>| { ctx.step(); if got == want { Ok(()) } else { Err(format!("{} of {:?} delivers the symbols labelled {:?}, expected {:?}", what, w, got, want)) } };
    say("a vector", labels(&v.read_symbols().to_vec()))?;
    say("an owned vector", labels(&VecReader::from_vec(v.clone()).to_vec()))?;
    let boxed: Box<dyn SymbolReader<Tagged2>> = Box::new(VecReader::from_vec(v.clone()));
    let mut boxed = boxed;
    say("a boxed reader", labels(&boxed.to_vec()))?;
    say("a mapped reader", v.read_symbols().map_symbols(|s: Tagged2| s.label).to_vec())?;
    say("a filtered reader", labels(&v.iter().cloned().filter_map(Some).to_vec()))?;
    {
        let mut src = v.read_symbols();
        let (mut a, mut b) = src.split();
        let mut first = vec![];
        for _ in 0..cut { first.extend(SymbolReader::next_symbol(&mut a)); }
        say("one half", labels(&b.to_vec()))?;
        first.extend(a.to_vec());
        say("the other half", labels(&first))?;
    }
    {
        let mut tape = Tape::new(v.read_symbols());
        let mut got = vec![];
        for _ in 0..cut { got.extend(tape.next_symbol()); }
        let n = got.len();
        tape.rewind(n);
        let again: Vec<Tagged2> = tape.to_vec();
        say("a tape read again", labels(&again))?;
        if labels(&got) != want[..n] { return Err(format!("a tape of {:?} delivers {:?}", w, got)); }
    }
    let s: TaggedStream<Tagged2, u8> = TaggedStream::from_reader(&mut v.read_symbols());
    let flat = |s: &TaggedStream<Tagged2, u8>| { let mut out = vec![]; tree::expand(&tree::snapshot(s), &mut out); labels(&out) };
    say("a tagged stream", flat(&s))?;
    let mut one = s.clone();
    one.tag(3, cut / 2..cut);
    say("a stream with a tag", flat(&one))?;
    say("a stream with tags", flat(&s.with_tags(vec![(0..cut / 2, 4), (cut..w.len(), 4)].into_iter())))?;
    // A tokenizer that finds runs of equal symbols: what it skips, and what it tags
    let axis = four([0u8, 1, 2, 3].map(|key| Tagged2 { key, label: 5 }));
    let mut tm = TokenMatcher::new();
    for k in 0..2u8 { tm.add_pattern(axis.pattern(&P::Inf(1, Box::new(lit(&[k])))), k); }
    let dfa = tm.prepare_to_match();
    say("a tokenized stream", flat(&TaggedStream::from_tokenized_reader(&mut v.read_symbols(), &dfa)))?;
    let mut t = Tokenizer::new_prepared(v.read_symbols(), &dfa);
    let mut got = vec![];
    loop {
        match t.next_token() {
            Some((r, _)) => got.extend(want[r].iter().cloned()),
            None => match t.skip_input() { Some(s) => got.push(s.label), None => break },
        }
    }
    say("a tokenizer, skipping what is no token,", got)?;
    ctx.trace();
    Ok(())
}

fn curated() -> Vec<P> {
    let b = |p| Box::new(p);
    vec![
        P::Eps, lit(&[0]), lit(&[3]), lit(&[1, 2]), lit(&[3, 0]), lit(&[0, 0]), P::Range(0, 3), P::Range(0, 1), P::Range(2, 3), P::Range(1, 2),
        P::Inf(0, b(P::Range(0, 3))), P::Inf(1, b(lit(&[3]))), P::Inf(0, b(lit(&[0]))), P::Inf(1, b(P::Range(1, 3))),
        P::Any(vec![lit(&[0]), lit(&[1])]), P::Any(vec![P::Range(0, 2), P::Range(1, 3)]), P::Any(vec![lit(&[3]), P::Range(0, 2)]),
        P::All(vec![P::Range(0, 2), P::Range(1, 3)]), P::Rep(1, 3, b(P::Range(2, 3))), P::Rep(0, 3, b(lit(&[1]))),
        P::All(vec![P::Inf(0, b(P::Range(0, 3))), lit(&[3])]), P::Any(vec![P::Inf(1, b(P::Range(0, 0))), P::Range(3, 3), P::Any(vec![])]),
    ]
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let c = curated();
    let k = c.len() as u64;
    let long = t.pick(4, 5);
    {
        let c = c.clone();
        f.push(family("patterns", format!("every pair of {} patterns over four neighbouring symbols, with outputs in order, in the other order and equal, over every word of up to {} of the four; matched, tokenized and tagged (words of up to 3); the same for {}", k, long, TYPES_TEXT), k * k * 3, move |i, ctx| {
            let d = digits(i, &[3, k, k]);
            let (a, b) = [(0u8, 1u8), (2, 1), (3, 3)][d[0] as usize];
            let s = Set { ps: vec![(c[d[1] as usize].clone(), a), (c[d[2] as usize].clone(), b)], words: words(long), tokens: 3 };
            for ty in 0..TYPES { run_type(ty, &s, ctx)?; }
            ctx.sample(|| format!("{:?}", s.ps));
            Ok(())
        }));
    }
    if let Tier::Thorough = t {
        let c = c.clone();
        let o = [[0u8, 1, 2], [2, 1, 0], [1, 0, 3], [3, 3, 1], [1, 3, 3], [2, 2, 2]];
        f.push(family("three-patterns", format!("every three of the {} patterns with outputs in six orders, over every word of up to 3; the same types", k), k * k * k * 6, move |i, ctx| {
            let d = digits(i, &[6, k, k, k]);
            let o = o[d[0] as usize];
            let s = Set { ps: (0..3).map(|j| (c[d[j + 1] as usize].clone(), o[j])).collect(), words: words(3), tokens: 2 };
            for ty in 0..TYPES { run_type(ty, &s, ctx)?; }
            Ok(())
        }));
    }
    {
        let g = Grammar::new(vec![lit(&[0]), lit(&[3]), P::Range(0, 3), P::Range(1, 2), lit(&[2, 3])], vec![Un::Inf(0), Un::Inf(1), Un::Rep(0, 2), Un::Rep(1, 3)], false, t.pick(3, 4));
        f.push(family("grammar", format!("every pattern of at most {} nodes over the four symbols, every word of up to 3; the same types", t.pick(3, 4)), g.total(), move |i, ctx| {
            let s = Set { ps: vec![(g.get(i), 1)], words: words(3), tokens: 2 };
            for ty in 0..TYPES { run_type(ty, &s, ctx)?; }
            Ok(())
        }));
    }
    {
        let o = [[0u8, 1, 2], [2, 1, 0], [1, 0, 3], [3, 3, 1], [1, 3, 3], [2, 2, 2]];
        f.push(family("outputs", format!("every three of {} patterns with outputs in six orders, over every word of up to 3 symbols, for {} types of outputs: extreme numbers, enumerations, options, lists, boxes, pairs, reversed strings, arrays, shared ones, and ones compared by a part", k, OUTS), k * k * k * 6, move |i, ctx| {
            let d = digits(i, &[6, k, k, k]);
            let o = o[d[0] as usize];
            let s = Set { ps: (0..3).map(|j| (c[d[j + 1] as usize].clone(), o[j])).collect(), words: words(if i % 8 == 0 { 3 } else { 2 }), tokens: 2 };
            // each three with two of the types, every pair with all
            let few = d[1] != d[2] && d[2] != d[3];
            for k in 0..OUTS { if few && k as u64 % 5 != (d[1] + d[2] + d[3]) % 5 { continue; } run_out(k, &s, ctx)?; }
            Ok(())
        }));
    }
    {
        let c = curated();
        f.push(family("unit-outputs", format!("every three of {} patterns that all have the same output, over every word of up to 3 symbols, and every machine of three states with two transitions, for types of outputs that have one value only: (), empty structures, enumerations of one, empty arrays", k), k * k * k + 90 * 90, move |i, ctx| {
            if i < k * k * k {
                let d = digits(i, &[k, k, k]);
                let s = Set { ps: d.iter().map(|j| (c[*j as usize].clone(), 0)).collect(), words: words(if d[1] == d[2] { 3 } else { 2 }), tokens: 3 };
                for u in 0..UNITS { if d[1] != d[2] && (u as u64 + d[0]) % 3 != 0 { continue; } run_unit(u, &s, ctx)?; }
            } else {
                let d = digits(i - k * k * k, &[90, 90]);
                let tr = |x: u64| { let e = digits(x, &[3, 10, 3]); (e[0] as u32, RANGES[e[1] as usize], e[2] as u32) };
                for js in [vec![], vec![(0, 1)], vec![(1, 2), (2, 1)]] {
                    let m = Machine { ts: d.iter().map(|x| tr(*x)).collect(), joins: js, words: words(2) };
                    for u in 0..UNITS { run_unit(u, &m, ctx)?; }
                }
            }
            Ok(())
        }));
    }
    f.push(family("ranges", "every set of ranges over the four symbols: lookups, the form without overlaps, and every pair of ranges; the same types".into(), 1024, |i, ctx| {
        for ty in 0..TYPES { run_type(ty, &Ranges(i as usize), ctx)?; }
        Ok(())
    }));
    {
        let mut js: Vec<Vec<(u32, u32)>> = vec![vec![], vec![(0, 1)], vec![(1, 0)], vec![(0, 2)], vec![(2, 0)], vec![(1, 2), (2, 1)]];
        if t.pick(0, 1) == 1 { js.extend(vec![vec![(0, 1), (1, 2)], vec![(2, 1), (1, 0), (0, 2)]]); }
        let (nj, depth) = (js.len() as u64, t.pick(2usize, 3));
        f.push(family("machines", format!("machines of 3 states with every {} transitions out of 90 on ranges of the four symbols and {} sets of joins, overlaps removed, compiled, over every word of up to 3 symbols; the same types", depth, nj), 90u64.pow(depth as u32) * nj, move |i, ctx| {
            let mut radix = vec![nj];
            radix.extend(vec![90; depth]);
            let d = digits(i, &radix);
            // the transitions in one order; of three, those with joins are spread over the sets of joins
            if d[1..].windows(2).any(|w| w[0] > w[1]) || (depth == 3 && d[0] > 0 && (d[1] + d[2] + d[3]) % nj != d[0]) { return Ok(()); }
            let tr = |x: u64| { let e = digits(x, &[3, 10, 3]); (e[0] as u32, RANGES[e[1] as usize], e[2] as u32) };
            let m = Machine { ts: d[1..].iter().map(|x| tr(*x)).collect(), joins: js[d[0] as usize].clone(), words: words(if d[0] == 0 { 3 } else { 2 }) };
            for ty in 0..TYPES { if d[0] > 0 && (ty as u64 + d[1]) % 3 != 0 { continue; } run_type(ty, &m, ctx)?; }
            Ok(())
        }));
    }
    f.push(family("hand-made", "every machine of two states over the four symbols given to the builder by hand, symbol by symbol and in the longest ranges; the same types".into(), 6561 * 2, |i, ctx| {
        for ty in 0..TYPES { run_type(ty, &Hand(i), ctx)?; }
        Ok(())
    }));
    {
        let len = t.pick(6, 8);
        f.push(family("delivered", format!("every word of up to {} of three symbols that are equal by key but labelled apart, through each kind of reader, halves, tapes, tags and tokenizers, each cut at every place: the symbols delivered are those of the source", len), string_count(3, len), move |i, ctx| {
            let w = string(3, i);
            for cut in 0..=w.len() { delivered(&w, cut, ctx)?; }
            ctx.state(&w);
            Ok(())
        }));
    }
    {
        // A matching state that does as it is told: after each symbol goes on, accepts or rejects; likewise when finished
        struct Told<'a> { plan: &'a [u64], finish: u64, log: &'a std::cell::RefCell<Vec<u8>>, out: &'a u8 }
        impl<'a> MatchingState<'a, u8, u8> for Told<'a> {
            fn next(self, s: u8) -> MatchAction<'a, u8, Self> {
                self.log.borrow_mut().push(s);
                match self.plan.first() { Some(1) => Accept(1000 + s as usize, self.out), Some(2) => Reject, Some(_) => More(Told { plan: &self.plan[1..], ..self }), None => More(self) }
            }
            fn finish(self) -> MatchAction<'a, u8, Self> {
                self.log.borrow_mut().push(255);
                if self.finish == 0 { Accept(7, self.out) } else { Reject }
            }
        }
        struct Src { left: Vec<u8>, asked: usize }
        impl SymbolReader<u8> for Src { fn next_symbol(&mut self) -> Option<u8> { self.asked += 1; self.left.pop() } }
        let (steps, n) = (t.pick(6usize, 9), t.pick(7u64, 10));
        f.push(family("own-states", format!("matching states of our own that go on, accept or reject after each of {} symbols as told, accept or reject when finished, or have decided at the start, over sources of 0 to {} symbols", steps, n), 3u64.pow(steps as u32) * 2 * 3 * (n + 1), move |i, ctx| {
            let d = digits(i, &[2, 3, n + 1, 3u64.pow(steps as u32)]);
            let plan = digits(d[3], &vec![3; steps]);
            let len = d[2] as usize;
            let syms: Vec<u8> = (0..len as u8).map(|x| x * 3 + 1).collect();
            let (log, out) = (std::cell::RefCell::new(vec![]), 42u8);
            let mut src = Src { left: syms.iter().rev().cloned().collect(), asked: 0 };
            let start = match d[1] { 0 => More(Told { plan: &plan, finish: d[0], log: &log, out: &out }), 1 => Accept(55, &out), _ => Reject };
            let got = match match_pattern(start, &mut src) { Accept(n, o) => { if *o != 42 { return Err("another output".into()); } Some(n) }, Reject => None, More(_) => return Err("more".into()) };
            ctx.trace();
            // Where it is decided
            let at = plan.iter().position(|x| *x > 0).filter(|x| *x < len);
            let (want, heard, asked) = match (d[1], at) {
                (1, _) => (Some(55), vec![], 0),
                (2, _) => (None, vec![], 0),
                (_, Some(k)) => (if plan[k] == 1 { Some(1000 + syms[k] as usize) } else { None }, syms[..=k].to_vec(), k + 1),
                _ => (if d[0] == 0 { Some(7) } else { None }, syms.iter().cloned().chain(std::iter::once(255)).collect(), len + 1),
            };
            for _ in 0..heard.len() { ctx.step(); }
            if got != want || *log.borrow() != heard || src.asked != asked { return Err(format!("plan {:?} (0 go on, 1 accept, 2 reject), start {}, finish {}, source {:?}: result {:?}, expected {:?}; heard {:?}, expected {:?}; source asked {} times, expected {}", plan, d[1], d[0], syms, got, want, log.borrow(), heard, src.asked, asked)); }
            ctx.state(&(want, heard, asked));
            Ok(())
        }));
    }
    f
}

thread_local! { static WORDS4: std::cell::RefCell<Vec<Option<Rc<Vec<Vec<u8>>>>>> = std::cell::RefCell::new(vec![None; 9]); }
fn words(n: u32) -> Rc<Vec<Vec<u8>>> {
    WORDS4.with(|w| w.borrow_mut()[n as usize].get_or_insert_with(|| Rc::new(strings(4, n))).clone())
}

fn main() {
    mc::engine::main(Check {
        property: "C30",
        level: "model_checking",
        assumptions: vec!["a symbol type's order is total and its successor and predecessor are exact wherever they exist".into()],
        families,
    })
}
