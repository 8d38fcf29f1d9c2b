//! C29: a refused call or a failing callback leaves everything usable.
use concordance::*;
use mc::engine::*;
use mc::machine::*;
use mc::model::*;
use mc::space::*;
use mc::tree::{self, Stream};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ------------------------------------------------------------------ things that fail on demand

thread_local! { static FUSE: Cell<u64> = Cell::new(0); }
/// The j-th tick from now (1 = the next) fails; 0: none does
fn arm(j: u64) { FUSE.with(|f| f.set(j)) }
/// Ticks left; 0 if it fired (or was never armed)
fn disarm() -> u64 { FUSE.with(|f| f.replace(0)) }
fn tick() {
    FUSE.with(|f| {
        let j = f.get();
        if j > 0 { f.set(j - 1); if j == 1 { panic!("the fuse blew"); } }
    })
}

/// A symbol whose comparison, copying and counting can fail
#[derive(Debug)]
struct Touchy(u8);
impl Clone for Touchy { fn clone(&self) -> Touchy { tick(); Touchy(self.0) } }
impl PartialEq for Touchy { fn eq(&self, o: &Touchy) -> bool { tick(); self.0 == o.0 } }
impl Eq for Touchy {}
impl PartialOrd for Touchy { fn partial_cmp(&self, o: &Touchy) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Touchy { fn cmp(&self, o: &Touchy) -> std::cmp::Ordering { tick(); self.0.cmp(&o.0) } }
impl Countable for Touchy {
    fn next(&self) -> Touchy { tick(); Touchy(self.0 + 1) }
    fn prev(&self) -> Touchy { tick(); Touchy(self.0 - 1) }
}

#[derive(Default)]
struct Log { calls: Cell<usize>, given: Cell<usize>, faults: RefCell<Vec<usize>> }
impl Log {
    fn new(faults: &[usize]) -> Rc<Log> { let l = Log::default(); *l.faults.borrow_mut() = faults.to_vec(); Rc::new(l) }
    fn fails(&self, call: usize) -> bool { self.faults.borrow().contains(&call) }
}
/// Delivers the given symbols; the calls numbered in the log's faults fail, and deliver nothing
struct Source<S> { syms: Rc<Vec<S>>, log: Rc<Log> }
impl<S: Clone> Source<S> {
    fn new(syms: &Rc<Vec<S>>, log: &Rc<Log>) -> Source<S> { Source { syms: syms.clone(), log: log.clone() } }
}
impl<S: Clone> SymbolReader<S> for Source<S> {
    fn next_symbol(&mut self) -> Option<S> {
        let c = self.log.calls.get();
        self.log.calls.set(c + 1);
        if self.log.fails(c) { panic!("the source failed"); }
        let g = self.log.given.get();
        if g < self.syms.len() { self.log.given.set(g + 1); Some(self.syms[g].clone()) } else { None }
    }
}

/// The sets of at most two of the calls 0..n
fn fault_sets(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    v.extend(subsets(n, 1));
    v.extend(subsets(n, 2));
    v
}

// ------------------------------------------------------------------ tape

#[derive(Clone, Copy, Debug)]
enum TOp { Read(usize), Rewind(usize), RewindAll, TooFar(usize), Cut, Resize }

fn run_tape(ops: &[TOp], len: usize, faults: &[usize], ctx: &mut Ctx) -> CaseResult {
    let syms = Rc::new((0..len).map(|x| Rc::new(x)).collect::<Vec<_>>());
    let log = Log::new(faults);
    let mut t = Tape::new(Source::new(&syms, &log));
    let (mut p, mut c, mut f, mut e, mut calls) = (0usize, 0usize, 0usize, false, 0usize);
    let fail = |k: usize, e: String| format!("source of {} symbols that fails at calls {:?} (from 0), operations {:?}: operation {}: {}", len, faults, ops, k, e);
    for (k, op) in ops.iter().enumerate() {
        match *op {
            TOp::Read(n) => for _ in 0..n {
                let asks = p == f && !e;
                let fails = asks && log.fails(calls);
                let got = panics(|| t.next_symbol());
                ctx.step();
                if asks { calls += 1; }
                if fails {
                    ctx.outcome("the source failed");
                    match got { Err(ref m) if m.contains("the source failed") => {} other => return Err(fail(k, format!("expected the source's failure, got {:?}", other))) }
                } else {
                    let want = if p < len { Some(p) } else { None };
                    let got = match got { Ok(g) => g.map(|x| *x), Err(m) => return Err(fail(k, format!("reading failed: {}", m))) };
                    if got != want { return Err(fail(k, format!("read {:?}, expected {:?}", got, want))); }
                    if p < len { p += 1; f = f.max(p); } else { e = true; }
                }
                if log.calls.get() != calls { return Err(fail(k, format!("the source was asked {} times, expected {}", log.calls.get(), calls))); }
            },
            TOp::Rewind(_) | TOp::RewindAll | TOp::TooFar(_) => {
                let n = match *op { TOp::Rewind(n) => n, TOp::TooFar(n) => (p - c).saturating_add(n), _ => p - c };
                match (panics(|| t.rewind(n)), n <= p - c) {
                    (Ok(()), true) => p -= n,
                    (Err(_), false) => ctx.outcome("refused"),
                    (r, _) => return Err(fail(k, format!("rewinding by {} at {} with the cut at {}: {:?}", n, p, c, r))),
                }
                ctx.step();
            }
            TOp::Cut => { t.cut(); c = p; ctx.step(); }
            TOp::Resize => { t.resize(); ctx.step(); }
        }
        if t.get_source_position() != p { return Err(fail(k, format!("position {}, expected {}", t.get_source_position(), p))); }
        if t.buffer_size() != f - c { return Err(fail(k, format!("holds {} symbols, expected {}", t.buffer_size(), f - c))); }
        if t.at_end_of_reader() != (e && p == f) { return Err(fail(k, format!("at_end_of_reader is {}, expected {}", t.at_end_of_reader(), e && p == f))); }
        ctx.state(&(p, c, f, e, calls, faults));
    }
    // and dropping it in the middle of a failure leaves nothing behind
    log.faults.borrow_mut().push(log.calls.get());
    let r = panics(move || { let mut t = t; while t.next_symbol().is_some() {} });
    if r.is_ok() && !e { return Err(fail(ops.len(), "the source's failure did not get through".into())); }
    if syms.iter().any(|s| Rc::strong_count(s) != 1) { return Err(fail(ops.len(), "symbols are left behind after the tape was dropped by a failure".into())); }
    ctx.trace();
    ctx.sample(|| format!("source {} failing at {:?}: {:?}", len, faults, ops));
    Ok(())
}

fn tape_family(name: &str, ops: Vec<TOp>, depth: usize, len: usize, at: usize) -> Family {
    let b = ops.len() as u64;
    let faults = fault_sets(at);
    family(name, format!("a tape over a source of {} symbols of which at most two of the first {} calls fail ({} ways): all {} sequences of {} operations from {:?}, each followed by a replay of everything; refused rewinds and failed reads are followed by the rest of the sequence", len, at, faults.len(), b.pow(depth as u32), depth, ops), b.pow(depth as u32), move |i, ctx| {
        let mut w: Vec<TOp> = seq(i, b, depth).into_iter().map(|x| ops[x]).collect();
        w.extend([TOp::RewindAll, TOp::TooFar(1), TOp::Read(len + 4), TOp::RewindAll, TOp::TooFar(usize::MAX), TOp::Read(len + 1)]);
        for fs in &faults { run_tape(&w, len, fs, ctx)?; }
        Ok(())
    })
}

// ------------------------------------------------------------------ split readers

type Half = SplitSymbolReader<'static, Rc<usize>>;
/// Operation 0..n: read leaf; n..2n: drop leaf; 2n..3n: read leaf and drop it, by the failure if there is one
fn run_split(ops: &[usize], nested: bool, len: usize, faults: &[usize], ctx: &mut Ctx) -> CaseResult {
    let syms = Rc::new((0..len).map(|x| Rc::new(x)).collect::<Vec<_>>());
    let log = Log::new(faults);
    let src = Box::into_raw(Box::new(Source::new(&syms, &log)));
    let mut leaves: Vec<Option<Half>> = vec![];
    let mut outer: Option<*mut Half> = None;
    {
        let (a, b): (Half, Half) = unsafe { (*src).split() };
        leaves.push(Some(b));
        if nested {
            let a = Box::into_raw(Box::new(a));
            let (c, d): (Half, Half) = unsafe { (*a).split() };
            outer = Some(a);
            leaves.push(Some(c));
            leaves.push(Some(d));
        } else { leaves.push(Some(a)); }
    }
    let n = leaves.len();
    let mut pos = vec![0usize; n];
    let (mut furthest, mut calls) = (0usize, 0usize);
    let fail = |k: usize, e: String| format!("{} symbols, source fails at calls {:?} (from 0), {} leaves, operations {:?} (0.. read, {}.. drop, {}.. read and drop): operation {}: {}", len, faults, n, &ops[..ops.len().min(40)], n, 2 * n, k, e);
    // once a half has been told of the end, the others may be told from what is kept or from the source, which may fail then
    let mut end_known = false;
    for (k, op) in ops.iter().enumerate() {
        let x = op % n;
        if leaves[x].is_none() { continue; }
        ctx.step();
        if op / n == 1 { let l = leaves[x].take(); if panics(move || drop(l)).is_err() { return Err(fail(k, "dropping failed".into())); } continue; }
        let asks = pos[x] >= furthest;
        let mut fails = asks && log.fails(calls);
        let got = if op / n == 0 { let l = leaves[x].as_mut().unwrap(); panics(|| l.next_symbol()) } else { let mut l = leaves[x].take().unwrap(); panics(move || l.next_symbol()) };
        if asks { calls = log.calls.get(); }
        if end_known && pos[x] >= len && got.is_ok() { fails = false; }
        if fails {
            ctx.outcome("the source failed");
            match got { Err(ref m) if m.contains("the source failed") => {} other => return Err(fail(k, format!("expected the source's failure, got {:?}", other))) }
        } else {
            let got = match got { Ok(g) => g.map(|x| *x), Err(m) => return Err(fail(k, format!("reading failed: {}", m))) };
            let want = if pos[x] < len { Some(pos[x]) } else { None };
            if got != want { return Err(fail(k, format!("leaf {} read {:?}, expected {:?}", x, got, want))); }
            if got.is_some() { pos[x] += 1; furthest = furthest.max(pos[x]); } else { end_known = true; }
        }
        if log.given.get() != furthest { return Err(fail(k, format!("{} symbols taken from the source, the furthest half is at {}", log.given.get(), furthest))); }
        if ops.len() < 40 { ctx.state(&(&pos, leaves.iter().map(|l| l.is_some()).collect::<Vec<_>>(), calls, faults)); }
    }
    // every half that is left sees the rest, whatever still fails on the way
    for x in 0..n {
        if let Some(l) = leaves[x].as_mut() {
            let mut tries = 0;
            loop {
                match panics(|| l.next_symbol()) {
                    Ok(Some(g)) => { if *g != pos[x] { return Err(fail(ops.len(), format!("leaf {} went on with {}, expected {}", x, g, pos[x]))); } pos[x] += 1; }
                    Ok(None) => break,
                    Err(_) => { tries += 1; if tries > faults.len() { return Err(fail(ops.len(), "reading keeps failing".into())); } }
                }
            }
            if pos[x] != len { return Err(fail(ops.len(), format!("leaf {} ended after {} of {} symbols", x, pos[x], len))); }
            furthest = len;
        }
    }
    if panics(|| leaves.clear()).is_err() { return Err(fail(ops.len(), "dropping the halves failed".into())); }
    if let Some(a) = outer { if panics(|| unsafe { drop(Box::from_raw(a)) }).is_err() { return Err(fail(ops.len(), "dropping the outer half failed".into())); } }
    // the source goes on from the furthest half
    log.faults.borrow_mut().clear();
    let mut src = unsafe { Box::from_raw(src) };
    let got = src.next_symbol().map(|x| *x);
    if got != (if furthest < len { Some(furthest) } else { None }) { return Err(fail(ops.len(), format!("the source goes on with {:?} after the furthest half was at {}", got, furthest))); }
    drop(src);
    if syms.iter().any(|s| Rc::strong_count(s) != 1) { return Err(fail(ops.len(), "symbols are left behind".into())); }
    ctx.trace();
    ctx.sample(|| format!("{} leaves, {:?}, failing at {:?}", n, &ops[..ops.len().min(40)], faults));
    Ok(())
}

fn split_family(name: &str, nested: bool, depth: usize, len: usize, at: usize) -> Family {
    let n = if nested { 3 } else { 2 };
    let b = 3 * n as u64;
    let faults = fault_sets(at);
    family(name, format!("{} halves{} over a source of {} symbols of which at most two of the first {} calls fail: all {} sequences of {} operations (read, drop, read and be dropped by the failure); whatever is left then reads to the end", n, if nested { " (one half split again)" } else { "" }, len, at, b.pow(depth as u32), depth), b.pow(depth as u32), move |i, ctx| {
        let ops = seq(i, b, depth);
        for fs in &faults { run_split(&ops, nested, len, fs, ctx)?; }
        Ok(())
    })
}

// ------------------------------------------------------------------ tokenizers

fn sets() -> Vec<Vec<(P, u8)>> {
    let a = || lit(&[0]);
    vec![
        vec![(a(), 1)],
        vec![(lit(&[0, 1]), 1), (a(), 2)],
        vec![(lit(&[0, 0, 1]), 3), (lit(&[1]), 1)],
        vec![(P::Inf(1, Box::new(a())), 1), (lit(&[0, 1, 0]), 0)],
        vec![(P::Inf(0, Box::new(P::Range(0, 1))), 4)],
        vec![(P::Inf(0, Box::new(lit(&[0, 1]))), 4), (lit(&[1, 1]), 2)],
        vec![(P::All(vec![a(), P::Inf(0, Box::new(P::Range(0, 1))), lit(&[1])]), 4), (P::Eps, 2)],
    ]
}

/// Faults: calls of the source, or the comparison at which the fuse blows (counted over the whole run)
fn run_tokens<S: Sym1>(set: &[(P, u8)], dfa: &SymbolRangeDfa<S, u8>, w: &[u8], ops: &[usize], faults: &[usize], fuse: u64, ctx: &mut Ctx) -> Result<bool, String> {
    let syms = Rc::new(w.iter().map(|c| S::of(*c)).collect::<Vec<_>>());
    let log = Log::new(faults);
    let fail = |k: usize, e: String| format!("tokens {:?}, input {:?}, source failing at calls {:?}, comparison failing at {}, operations {:?} (0 next_token, 1 skip, 2 next_symbol, 3 iterate): operation {}: {}", set, w, faults, fuse, ops, k, e);
    let mut t = Tokenizer::new_prepared(Source::new(&syms, &log), dfa);
    let mut pos = 0usize;
    let token = |at: usize| match longest_of(set, w, at) { Some((n, o)) if n > 0 => Some((at..at + n, o)), _ => None };
    arm(fuse);
    let mut failed = 0;
    let mut k = 0;
    // a failed operation is followed by the same one again, and at the end everything is taken
    let mut all: Vec<usize> = ops.to_vec();
    all.extend(std::iter::repeat(3).take(w.len() + 2 + faults.len()));
    while k < all.len() {
        ctx.step();
        let op = all[k];
        let got: Result<(Option<(std::ops::Range<usize>, u8)>, Option<u8>), String> = panics(|| match op {
            0 => (t.next_token(), None),
            1 => (None, t.skip_input().map(|s| s.code())),
            2 => (None, SymbolReader::next_symbol(&mut t)),
            _ => (Iterator::next(&mut t), None),
        });
        let got = match got {
            Err(m) => {
                failed += 1;
                if !(m.contains("the source failed") || m.contains("the fuse blew")) { disarm(); return Err(fail(k, format!("failed: {}", m))); }
                if failed > faults.len() + 1 { disarm(); return Err(fail(k, "keeps failing".into())); }
                let p = t.get_source_position();
                if p < pos || p > log.given.get() { disarm(); return Err(fail(k, format!("after the failure the position is {}: it was {} before, and {} symbols were delivered", p, pos, log.given.get()))); }
                pos = p;
                ctx.outcome(if op == 3 { "failed while iterating" } else { "failed" });
                continue;
            }
            Ok(g) => g,
        };
        let mut nothing = false;
        let want = match op {
            0 | 2 => { let x = token(pos); match &x { Some((r, _)) => pos = r.end, None => nothing = true } if op == 0 { (x, None) } else { (None, x.map(|y| y.1)) } }
            1 => { let x = w.get(pos).cloned(); if x.is_some() { pos += 1; } (None, x) }
            _ => {
                let x = (pos..w.len()).filter_map(|at| token(at)).next();
                match &x { Some((r, _)) => pos = r.end, None => { pos = w.len(); nothing = true } }
                (x, None)
            }
        };
        if got != want { disarm(); return Err(fail(k, format!("got {:?}, expected {:?}", got, want))); }
        if t.get_source_position() != pos { disarm(); return Err(fail(k, format!("position {}, expected {}", t.get_source_position(), pos))); }
        if nothing && t.at_end_of_reader() != (pos == w.len()) { disarm(); return Err(fail(k, format!("at_end_of_reader is {} at {} of {} after a request that yielded nothing", t.at_end_of_reader(), pos, w.len()))); }
        k += 1;
    }
    let blew = fuse > 0 && disarm() == 0;
    ctx.trace();
    ctx.state(&(set, w, faults, failed));
    ctx.sample(|| format!("{:?} over {:?}, failing at {:?}: {:?}", set, w, faults, ops));
    Ok(blew)
}

trait Sym1: Clone + Ord + Countable + 'static { fn of(c: u8) -> Self; fn code(&self) -> u8; }
impl Sym1 for u8 { fn of(c: u8) -> u8 { c } fn code(&self) -> u8 { *self } }
impl Sym1 for Touchy { fn of(c: u8) -> Touchy { Touchy(c + 1) } fn code(&self) -> u8 { self.0 - 1 } }
impl Sym1 for Slow { fn of(c: u8) -> Slow { Slow(c + 1) } fn code(&self) -> u8 { self.0 - 1 } }

/// As Touchy, but only its comparisons fail: copying a symbol while a tape takes it from its source does not
#[derive(Debug, Clone)]
struct Slow(u8);
impl PartialEq for Slow { fn eq(&self, o: &Slow) -> bool { tick(); self.0 == o.0 } }
impl Eq for Slow {}
impl PartialOrd for Slow { fn partial_cmp(&self, o: &Slow) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Slow { fn cmp(&self, o: &Slow) -> std::cmp::Ordering { tick(); self.0.cmp(&o.0) } }
impl Countable for Slow { fn next(&self) -> Slow { Slow(self.0 + 1) } fn prev(&self) -> Slow { Slow(self.0 - 1) } }

fn pattern<S: Sym1>(p: &P) -> Pattern<S> {
    match p {
        P::Eps => Epsilon,
        P::Lit(v) => Match(v.iter().map(|c| S::of(*c)).collect()),
        P::Range(a, b) => MatchRange(S::of(*a), S::of(*b)),
        P::Inf(n, x) => RepeatInfinite(*n, Box::new(pattern(x))),
        P::Rep(a, b, x) => Repeat(*a..*b, Box::new(pattern(x))),
        P::All(v) => MatchAll(v.iter().map(|x| pattern(x)).collect()),
        P::Any(v) => MatchAny(v.iter().map(|x| pattern(x)).collect()),
    }
}
fn matcher<S: Sym1>(set: &[(P, u8)]) -> TokenMatcher<S, u8> {
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(pattern::<S>(p), *o); }
    m
}

// ------------------------------------------------------------------ layers

#[derive(Clone, Copy, Debug, PartialEq)]
enum Layer { Map, Boxed, Taped, Split }

/// Builds the stack; split halves are leaked into the closure's own boxes and freed with it
struct Stack { top: Option<Box<dyn SymbolReader<u32>>>, frees: Vec<Box<dyn FnOnce()>> }
impl Drop for Stack {
    fn drop(&mut self) { self.top.take(); while let Some(f) = self.frees.pop() { f() } }
}
fn stack(layers: &[Layer], n: u32, log: &Rc<Log>, maps: &Rc<Log>) -> Stack {
    let syms = Rc::new((0..n).collect::<Vec<u32>>());
    let mut s = Stack { top: Some(Box::new(Source::new(&syms, log))), frees: vec![] };
    for (k, l) in layers.iter().enumerate() {
        let below = s.top.take().unwrap();
        s.top = Some(match l {
            Layer::Map => { let maps = maps.clone(); Box::new(below.map_symbols(move |x: u32| { let c = maps.calls.get(); maps.calls.set(c + 1); if maps.fails(c) { panic!("the mapping failed"); } x * 10 + k as u32 + 1 })) }
            Layer::Boxed => Box::new(below),
            Layer::Taped => Box::new(Tape::new(below)),
            Layer::Split => {
                let raw: *mut Box<dyn SymbolReader<u32>> = Box::into_raw(Box::new(below));
                let raw2 = raw as usize;
                s.frees.push(Box::new(move || unsafe { drop(Box::from_raw(raw2 as *mut Box<dyn SymbolReader<u32>>)) }));
                let (a, b): (SplitSymbolReader<'static, u32>, SplitSymbolReader<'static, u32>) = unsafe { (*raw).split() };
                drop(b);
                Box::new(a)
            }
        });
    }
    s
}

#[derive(Clone, Debug, PartialEq)]
enum Seen { Some(u32), End, Failed }
/// What asking for a symbol at the top gives, one after another
fn expected(layers: &[Layer], n: u32, sf: &[usize], mf: &[usize]) -> Vec<Seen> {
    let (mut calls, mut maps, mut given) = (0, 0, 0);
    let mut out = vec![];
    'next: loop {
        if sf.contains(&calls) { calls += 1; out.push(Seen::Failed); continue; }
        calls += 1;
        if given >= n { out.push(Seen::End); return out; }
        let mut x = given;
        given += 1;
        for (k, l) in layers.iter().enumerate() {
            if *l == Layer::Map {
                let c = maps;
                maps += 1;
                if mf.contains(&c) { out.push(Seen::Failed); continue 'next; }
                x = x * 10 + k as u32 + 1;
            }
        }
        out.push(Seen::Some(x));
    }
}

/// Consumers: 0 symbol by symbol, 1 to_vec, 2 a tagged stream, 3 matching, 4 a tokenized stream
fn run_layers(layers: &[Layer], n: u32, sf: &[usize], mf: &[usize], consumer: usize, skip: usize, dfa: &SymbolRangeDfa<u32, u8>, ctx: &mut Ctx) -> CaseResult {
    let (log, maps) = (Log::new(sf), Log::new(mf));
    let mut s = stack(layers, n, &log, &maps);
    let want = expected(layers, n, sf, mf);
    let mut at = 0;
    let fail = |at: usize, e: String| format!("layers {:?} over 0..{}, source failing at calls {:?}, mapping at {:?}, consumer {} (0 reads, 1 to_vec, 2 from_reader, 3 match_pattern, 4 from_tokenized_reader) after {} reads: at {}: {}", layers, n, sf, mf, consumer, skip, at, e);
    let good = |m: &str| m.contains("the source failed") || m.contains("the mapping failed");
    let top = s.top.as_mut().unwrap();
    let mut read = 0;
    let mut rounds = 0;
    while at < want.len() && rounds < 40 {
        rounds += 1;
        ctx.step();
        let c = if read < skip { 0 } else { consumer };
        let stop = want[at..].iter().position(|x| !matches!(x, Seen::Some(_))).map(|k| at + k).unwrap();
        let run: Vec<u32> = want[at..stop].iter().map(|x| if let Seen::Some(v) = x { *v } else { 0 }).collect();
        let failed = want[stop] == Seen::Failed;
        match c {
            0 => {
                let got = panics(|| top.next_symbol());
                let g = match &got { Ok(Some(x)) => Seen::Some(*x), Ok(None) => Seen::End, Err(m) if good(m) => Seen::Failed, Err(m) => return Err(fail(at, m.clone())) };
                if g != want[at] { return Err(fail(at, format!("read {:?}, expected {:?}", g, want[at]))); }
                at += 1;
                read += 1;
            }
            1 | 2 | 4 => {
                let got: Result<Vec<u32>, String> = match c {
                    1 => panics(|| top.to_vec()),
                    2 => panics(|| { let s: TaggedStream<u32, u8> = TaggedStream::from_reader(&mut **top); flat(&s) }),
                    _ => panics(|| { let s: TaggedStream<u32, u8> = TaggedStream::from_tokenized_reader(&mut **top, dfa); flat(&s) }),
                };
                match (got, failed) {
                    (Ok(v), false) => if v != run { return Err(fail(at, format!("got {:?}, expected {:?}", v, run))); },
                    (Err(ref m), true) if good(m) => ctx.outcome("collecting failed"),
                    (g, _) => return Err(fail(at, format!("got {:?}, expected {}", g, if failed { "the failure" } else { "success" }))),
                }
                at = stop + 1;
            }
            _ => {
                // the matcher takes up to three symbols
                let got = panics(|| match match_pattern(dfa.start(), &mut **top) { Accept(k, o) => Some((k, *o)), _ => None });
                let three = run.len().min(3);
                if run.len() < 3 && failed {
                    match got { Err(ref m) if good(m) => ctx.outcome("matching failed"), g => return Err(fail(at, format!("matching gave {:?}, expected the failure", g))) }
                    at = stop + 1;
                } else {
                    let w = if run.is_empty() { None } else { Some((three, three as u8)) };
                    match got { Ok(ref g) if *g == w => {} g => return Err(fail(at, format!("matching gave {:?}, expected {:?}", g, w))) }
                    // it asks for a fourth only if it could go on: the matcher has no state after three, so one more symbol is taken
                    if run.len() >= 3 {
                        match want.get(at + 3) { Some(Seen::Failed) => return Err("unreachable".into()), _ => {} }
                    }
                    at = if run.len() < 3 { stop + 1 } else { at + 4.min(want.len() - at) };
                }
            }
        }
    }
    // the end stays, and the matcher is as good as before
    log.faults.borrow_mut().clear();
    match panics(|| top.next_symbol()) { Ok(None) => {} g => return Err(fail(at, format!("after the end: {:?}", g))) }
    let d = match match_pattern(dfa.start(), &mut vec![7u32, 8].read_symbols()) { Accept(k, o) => Some((k, *o)), _ => None };
    if d != Some((2, 2)) { return Err(fail(at, format!("the matcher gave {:?} afterwards", d))); }
    ctx.trace();
    ctx.state(&(consumer, skip, sf, mf));
    ctx.sample(|| format!("{:?} failing at {:?}/{:?}, consumer {}", layers, sf, mf, consumer));
    Ok(())
}
fn flat(s: &TaggedStream<u32, u8>) -> Vec<u32> {
    let mut out = vec![];
    tree::expand(&tree::snapshot(s), &mut out);
    out
}

// ------------------------------------------------------------------ streams

#[derive(Clone, Debug)]
enum SOp { /// tag a range
    Tag(usize, usize), /// many at once
    Many(Vec<(usize, usize)>), /// many, from an iterator that fails when asked for item k
    Breaks(Vec<(usize, usize)>, usize), /// tokenized with a mapping that fails at symbol k
    MapFails(usize) }

fn run_stream(ops: &[SOp], n: usize, dfa: &SymbolRangeDfa<u32, u8>, ctx: &mut Ctx) -> CaseResult {
    let base: Vec<u32> = (0..n as u32).collect();
    let mut s: Stream<u32> = TaggedStream::from_reader(&mut base.read_symbols());
    let mut m = tree::snapshot(&s);
    for (k, op) in ops.iter().enumerate() {
        let g = 40 + k as u8;
        let fail = |e: String| format!("stream of {} symbols, operations {:?}: operation {}: {}", n, ops, k, e);
        ctx.step();
        match op {
            SOp::Tag(lo, hi) => {
                let ok = lo <= hi && *hi <= m.len();
                let r = panics(|| s.tag(g, *lo..*hi));
                if r.is_ok() != ok { return Err(fail(format!("{:?}", r))); }
                if ok { m = tree::tag(&m, g, *lo, *hi); } else { ctx.outcome("tag refused"); }
            }
            SOp::Many(_) | SOp::Breaks(..) => {
                let (v, breaks) = match op { SOp::Many(v) => (v, None), SOp::Breaks(v, b) => (v, Some(*b)), _ => unreachable!() };
                let ok = breaks.map_or(true, |b| b > v.len()) && v.iter().all(|(a, b)| a <= b && *b <= m.len()) && v.windows(2).all(|w| w[0].1 <= w[1].0);
                let tags: Vec<(std::ops::Range<usize>, u8)> = v.iter().map(|(a, b)| (*a..*b, g)).collect();
                let asked = Cell::new(0usize);
                let it = tags.into_iter();
                let mut it2 = it;
                let r = panics(|| s.with_tags(std::iter::from_fn(|| { if Some(asked.get()) == breaks { asked.set(asked.get() + 1); panic!("the tags failed"); } asked.set(asked.get() + 1); it2.next() })));
                match (r, ok) {
                    (Ok(x), true) => {
                        let want = tree::with_tags(&m, &v.iter().map(|(a, b)| (*a, *b, g)).collect::<Vec<_>>());
                        tree::same(&x, &want).map_err(|e| fail(e))?;
                        tree::same(&s, &m).map_err(|e| fail(format!("the stream itself: {}", e)))?;
                        s = x;
                        m = want;
                    }
                    (Err(e), false) => { if breaks.map_or(false, |b| b == 0) && !e.contains("the tags failed") { return Err(fail(format!("expected the failure of the tags, got {}", e))); } ctx.outcome("tags refused") }
                    (r, _) => return Err(fail(format!("{:?}", r.map(|x| tree::snapshot(&x))))),
                }
            }
            SOp::MapFails(at) => {
                let mut c = 0;
                let r = panics(|| s.tokenize(dfa, |x| { c += 1; if c == at + 1 { panic!("the mapping failed"); } match x { TagSymbol::Untagged(_) => 1u32, TagSymbol::Tagged(..) => 2u32 } }));
                match r {
                    Err(e) if *at < m.len() && e.contains("the mapping failed") => ctx.outcome("mapping failed"),
                    Ok(x) if *at >= m.len() => {
                        // the matcher takes any one to three symbols
                        let mut tags = vec![];
                        let mut p = 0;
                        while p < m.len() { let e = (p + 3).min(m.len()); tags.push((p, e, (e - p) as u8)); p = e; }
                        let want = tree::with_tags(&m, &tags);
                        tree::same(&x, &want).map_err(|e| fail(e))?;
                    }
                    r => return Err(fail(format!("tokenizing: {:?}", r.map(|x| tree::snapshot(&x))))),
                }
            }
        }
        tree::same(&s, &m).map_err(|e| fail(format!("afterwards: {}", e)))?;
        ctx.state(&m);
    }
    ctx.trace();
    ctx.sample(|| format!("{} symbols {:?} -> {:?}", n, ops, m));
    Ok(())
}

fn stream_ops(n: usize) -> Vec<SOp> {
    let mut v = vec![];
    let b = n + 2;
    for lo in 0..b { for hi in 0..b { v.push(SOp::Tag(lo, hi)); } }
    let some: Vec<(usize, usize)> = (0..b).flat_map(|lo| (0..b).map(move |hi| (lo, hi))).collect();
    for x in &some { v.push(SOp::Many(vec![*x])); }
    for x in &some { for y in &some { if x.0 <= x.1 && x.1 <= n && (y.0 != x.0 || y.1 != x.1) { v.push(SOp::Many(vec![*x, *y])); } } }
    v.push(SOp::Many(vec![]));
    for k in 0..3 { v.push(SOp::Breaks(vec![(0, 1), (1, n)], k)); }
    v.push(SOp::Breaks(vec![(1, n.max(1))], 0));
    v.push(SOp::Breaks(vec![(1, n.max(1))], 1));
    for k in 0..n + 1 { v.push(SOp::MapFails(k)); }
    v
}

// ------------------------------------------------------------------ compiling

/// A machine that fails at the call on which the fuse blows
struct Failing(Listed<SymbolRange<u8>, u8>);
impl StateMachine<SymbolRange<u8>, u8> for Failing {
    fn count_states(&self) -> StateId { tick(); self.0.count_states() }
    fn get_transitions_for_state(&self, s: StateId) -> Vec<(SymbolRange<u8>, StateId)> { tick(); self.0.get_transitions_for_state(s) }
    fn output_symbol_for_state(&self, s: StateId) -> Option<&u8> { tick(); self.0.output_symbol_for_state(s) }
    fn output_symbols_for_state(&self, s: StateId) -> Vec<&u8> { tick(); self.0.output_symbols_for_state(s) }
}
/// A builder that fails likewise
struct Fuses(SymbolRangeDfaBuilder<u8, u8>);
impl DfaBuilder<SymbolRange<u8>, u8, SymbolRangeDfa<u8, u8>> for Fuses {
    fn start_state(&mut self) { tick(); self.0.start_state() }
    fn transition(&mut self, s: SymbolRange<u8>, t: StateId) { tick(); self.0.transition(s, t) }
    fn accept(&mut self, o: u8) { tick(); self.0.accept(o) }
    fn build(self) -> SymbolRangeDfa<u8, u8> { tick(); self.0.build() }
}
/// A mutable machine that notes the calls it gets
struct Noted { calls: Rc<RefCell<Vec<String>>>, max: StateId }
impl StateMachine<SymbolRange<u8>, u8> for Noted {
    fn count_states(&self) -> StateId { self.max + 1 }
    fn get_transitions_for_state(&self, _: StateId) -> Vec<(SymbolRange<u8>, StateId)> { vec![] }
    fn output_symbol_for_state(&self, _: StateId) -> Option<&u8> { None }
}
impl Noted { fn note(&mut self, e: String, s: &[StateId]) { tick(); for x in s { self.max = self.max.max(*x); } self.calls.borrow_mut().push(e); } }
impl MutableStateMachine<SymbolRange<u8>, u8> for Noted {
    fn add_transition(&mut self, a: StateId, r: SymbolRange<u8>, b: StateId) { self.note(format!("{} {:?} {}", a, r, b), &[a, b]) }
    fn create_state(&mut self, a: StateId) { self.note(format!("create {}", a), &[a]) }
    fn set_output_symbol(&mut self, a: StateId, o: u8) { self.note(format!("output {} {}", a, o), &[a]) }
    fn join_states(&mut self, a: StateId, b: StateId) { self.note(format!("join {} {}", a, b), &[a, b]) }
}

fn run_dfa<S: Sym1>(d: &SymbolRangeDfa<S, u8>, w: &[u8]) -> Option<(usize, u8)> {
    match match_pattern(d.start(), &mut VecReader::from_vec(w.iter().map(|c| S::of(*c)).collect())) { Accept(k, o) => Some((k, *o)), _ => None }
}

fn families(t: Tier) -> Vec<Family> {
    use TOp::*;
    let mut f = vec![
        tape_family("tape", vec![Read(1), Read(3), Rewind(1), RewindAll, TooFar(1), Cut, Resize], t.pick(6, 7), 5, 6),
        tape_family("tape-long", vec![Read(2), Read(5), Rewind(2), RewindAll, TooFar(2), Cut], t.pick(5, 7), 17, t.pick(9, 12)),
        split_family("split", false, t.pick(6, 8), 3, 5),
        split_family("split-nested", true, t.pick(5, 6), 3, t.pick(4, 5)),
    ];
    {
        const N: [usize; 14] = [1, 3, 4, 7, 8, 15, 16, 31, 64, 255, 256, 1025, 4097, 70000];
        f.push(family("long", format!("a tape read n symbols on, with a failure then and another up to three calls later, before or after a cut, rewound or refused; and two halves (one split again or not) of which one is n ahead when the source fails, read on or dropped by the failure; n in {:?}", N), 14 * 3 * 6 + 14 * 3 * 4, move |i, ctx| {
            if i < 14 * 3 * 6 {
                let d = digits(i, &[14, 3, 6]);
                let (n, gap) = (N[d[0] as usize], d[1] as usize);
                let mut w = match d[2] { 0 => vec![Read(n)], 1 => vec![Read(n), Cut], 2 => vec![Read(n), Rewind(n / 2), Cut], 3 => vec![Read(n), RewindAll], 4 => vec![Read(n), TooFar(1), Resize], _ => vec![Read(n - n / 3), Cut, Read(n / 3)] };
                w.extend([Read(1), TooFar(1), Read(n + 2), RewindAll, Read(2 * n + 12), RewindAll, TooFar(3), Read(4)]);
                return run_tape(&w, 2 * n + 9, &[n, n + 1 + gap], ctx);
            }
            let d = digits(i - 14 * 3 * 6, &[14, 3, 4]);
            let n = N[d[0] as usize];
            let nested = d[2] >= 2;
            let leaves = if nested { 3 } else { 2 };
            let lead = d[2] as usize % 2;
            let mut ops = vec![lead; n];
            match d[1] { 0 => ops.push(lead), 1 => ops.push(2 * leaves + lead), _ => ops.extend([lead, lead, leaves + 1 - lead]) }
            ops.extend(vec![1 - lead; n / 2]);
            if n > 5000 { return Ok(()); }
            run_split(&ops, nested, n + 3, &[n, n + 2], ctx)
        }));
    }
    // tokenizers
    {
        let sets = sets();
        let n = sets.len() as u64;
        let len = t.pick(5, 6);
        let inputs = strings(2, len);
        let faults = fault_sets(len as usize + 2);
        let depth = t.pick(3, 4);
        f.push(family("tokenizer", format!("{} sets of patterns x all {} inputs of up to {} symbols x all sequences of {} operations (next_token, skip, next_symbol, iterate), then iterating to the end; at most two of the source's calls fail, and the operation is then asked for again", n, inputs.len(), len, depth), n * 4u64.pow(depth as u32), move |i, ctx| {
            let set = &sets[(i % n) as usize];
            let ops = seq(i / n, 4, depth);
            let dfa: SymbolRangeDfa<u8, u8> = matcher(set).prepare_to_match();
            for w in &inputs { for fs in &faults { run_tokens(set, &dfa, w, &ops, fs, 0, ctx)?; } }
            Ok(())
        }));
    }
    {
        let sets = sets();
        let n = sets.len() as u64;
        let inputs = strings(2, t.pick(4, 5));
        f.push(family("tokenizer-compare", "the same with symbols whose comparison fails once, at every comparison made; all sequences of two operations, then iterating to the end".into(), n * 16, move |i, ctx| {
            let set = &sets[(i % n) as usize];
            let ops = seq(i / n, 4, 2);
            let dfa: SymbolRangeDfa<Slow, u8> = matcher(set).prepare_to_match();
            for w in &inputs {
                for j in 1.. { if !run_tokens(set, &dfa, w, &ops, &[], j, ctx)? { break; } }
            }
            Ok(())
        }));
    }
    // layers
    {
        let kinds = [Layer::Map, Layer::Boxed, Layer::Taped, Layer::Split];
        let mut all: Vec<Vec<Layer>> = vec![vec![]];
        for d in 1..=t.pick(3usize, 4) { for i in 0..4u64.pow(d as u32) { all.push(seq(i, 4, d).into_iter().map(|x| kinds[x]).collect()); } }
        let n = all.len() as u64;
        f.push(family("layers", format!("all {} stacks of mapping, boxing, tape and split layers x 0 to 4 symbols x one or two failures of source or mapping x five ways of consuming (symbol by symbol, to_vec, a stream, matching, a tokenized stream), begun at once or after one read", n), n * 5, move |i, ctx| {
            let layers = &all[(i % n) as usize];
            let consumer = (i / n) as usize;
            let dfa: SymbolRangeDfa<u32, u8> = {
                let mut m = TokenMatcher::new();
                let any = || MatchRange(0u32, 1_000_000u32);
                m.add_pattern(any(), 1); m.add_pattern(MatchAll(vec![any(), any()]), 2); m.add_pattern(MatchAll(vec![any(), any(), any()]), 3);
                m.prepare_to_match()
            };
            for len in 0..5u32 {
                for skip in 0..2 {
                    let nf = len as usize + 2;
                    for sf in fault_sets(nf) { 
                        if consumer == 3 && !lined_up(layers, len, &sf, &[], skip) { continue; }
                        run_layers(layers, len, &sf, &[], consumer, skip, &dfa, ctx)?;
                        if sf.len() < 2 && layers.contains(&Layer::Map) {
                            for m in 0..nf * 2 {
                                if consumer == 3 && !lined_up(layers, len, &sf, &[m], skip) { continue; }
                                run_layers(layers, len, &sf, &[m], consumer, skip, &dfa, ctx)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // streams
    for n in 0..t.pick(5usize, 6) {
        let ops = stream_ops(n);
        let b = ops.len() as u64;
        f.push(family(&format!("stream-{}", n), format!("a stream of {} symbols: all {} pairs of calls from {} (tags and pairs of tags with any ends from 0 to {}, reversed, out of order, overlapping or reaching outside included; tags from an iterator that fails; tokenizing with a mapping that fails), each followed by a tag of everything", n, b * b, b, n + 1), b, move |i, ctx| {
            let dfa: SymbolRangeDfa<u32, u8> = {
                let mut m = TokenMatcher::new();
                let any = || MatchRange(1u32, 2u32);
                m.add_pattern(any(), 1); m.add_pattern(MatchAll(vec![any(), any()]), 2); m.add_pattern(MatchAll(vec![any(), any(), any()]), 3);
                m.prepare_to_match()
            };
            for o in &ops {
                run_stream(&[ops[i as usize].clone(), o.clone(), SOp::MapFails(1), SOp::Tag(0, 1), SOp::Tag(0, n + 3)], n, &dfa, ctx)?;
            }
            Ok(())
        }));
    }
    // compiling
    {
        let sets = sets();
        let n = sets.len() as u64;
        let inputs = strings(2, 4);
        let inputs2 = inputs.clone();
        let sets2 = sets.clone();
        f.push(family("compile", format!("the machine of each of {} sets of patterns, shared and compiled while the machine or the builder fails, at every call; compiling it then gives the same matcher", n), n, move |i, ctx| {
            let set = &sets[i as usize];
            let machine = matcher::<u8>(set).to_ndfa();
            let rows: Vec<Vec<(SymbolRange<u8>, StateId)>> = (0..machine.count_states()).map(|s| machine.get_transitions_for_state(s)).collect();
            let out: Vec<Option<u8>> = (0..machine.count_states()).map(|s| machine.output_symbols_for_state(s).into_iter().min().cloned()).collect();
            let shared: Rc<dyn StateMachine<SymbolRange<u8>, u8>> = Rc::new(Failing(Listed { trans: rows, out }));
            for j in 1.. {
                arm(j);
                let r = panics(|| DfaCompiler::build(shared.clone(), Fuses(SymbolRangeDfaBuilder::new())));
                disarm();
                ctx.step();
                match r {
                    Err(ref m) if m.contains("the fuse blew") => ctx.outcome("failed"),
                    Err(m) => return Err(format!("{:?}: with call {} failing: {}", set, j, m)),
                    Ok(_) => break,
                }
                let d = DfaCompiler::build(shared.clone(), SymbolRangeDfaBuilder::new());
                for w in &inputs { let (g, e) = (run_dfa(&d, w), longest_of(set, w, 0)); if g != e { return Err(format!("{:?}: compiled after a failure at call {}: {:?} gives {:?}, expected {:?}", set, j, w, g, e)); } }
                if Rc::strong_count(&shared) != 1 { return Err(format!("{:?}: the failed compilation still holds the machine", set)); }
                ctx.trace();
            }
            Ok(())
        }));
        f.push(family("prepare", format!("a token matcher of each of {} sets of patterns, prepared while comparing, copying or counting a symbol fails, at every such call (up to 3000); preparing it then gives the right matcher, and so does its machine", n), n, move |i, ctx| {
            let set = &sets2[i as usize];
            let m = matcher::<Touchy>(set);
            for j in 1..3000 {
                arm(j);
                let r = panics(|| m.prepare_to_match());
                disarm();
                ctx.step();
                if r.is_ok() { ctx.outcome("every call has failed once"); break; }
                if j % 7 == 1 {
                    let d: SymbolRangeDfa<Touchy, u8> = m.prepare_to_match();
                    for w in &inputs2 { let (g, e) = (run_dfa(&d, w), longest_of(set, w, 0)); if g != e { return Err(format!("{:?}: prepared after a failure at call {}: {:?} gives {:?}, expected {:?}", set, j, w, g, e)); } }
                }
                ctx.trace();
            }
            Ok(())
        }));
    }
    {
        let g = Grammar::new(atoms3(0, 1, 2), unaries(), false, t.pick(3, 4));
        let total = g.total();
        f.push(family("pattern", format!("all {} patterns up to {} operators, compiled onto a machine that fails at every one of its calls in turn: the calls up to there are those of a compilation without failures, and the pattern is unchanged", total, t.pick(3, 4)), total, move |i, ctx| {
            let p = g.get(i);
            let pat: Pattern<u8> = pattern(&p);
            let copy: Pattern<u8> = pattern(&p);
            let clean = Rc::new(RefCell::new(vec![]));
            let end = pat.compile(&mut Noted { calls: clean.clone(), max: 0 }, 0);
            let want = clean.borrow().clone();
            for j in 1..=want.len() as u64 + 1 {
                let calls = Rc::new(RefCell::new(vec![]));
                let mut m = Noted { calls: calls.clone(), max: 0 };
                arm(j);
                let r = panics(|| pat.compile(&mut m, 0));
                disarm();
                ctx.step();
                let got = calls.borrow().clone();
                let upto = (j as usize - 1).min(want.len());
                let ok = if j as usize <= want.len() { r.is_err() } else { r == Ok(end) };
                if !ok || got[..] != want[..upto] { return Err(format!("{:?}: failing at call {}: {:?}; the calls were {:?}, expected {:?}", p, j, r, got, &want[..upto])); }
                if pat != copy { return Err(format!("{:?}: the pattern changed", p)); }
            }
            ctx.trace();
            Ok(())
        }));
    }
    f
}

/// Whether no failure falls on the symbol a matcher reads after its third
fn lined_up(layers: &[Layer], n: u32, sf: &[usize], mf: &[usize], skip: usize) -> bool {
    let w = expected(layers, n, sf, mf);
    let mut at = skip.min(w.len());
    while at < w.len() {
        let stop = w[at..].iter().position(|x| !matches!(x, Seen::Some(_))).map(|k| at + k).unwrap();
        if stop - at < 3 { at = stop + 1; } else { if w[at + 3] == Seen::Failed { return false; } at += 4; }
    }
    true
}

fn main() {
    mc::engine::main(Check { property: "C29", level: "fault_enumeration", assumptions: vec![
        "a failing source delivers nothing in the call that fails, and its next symbol in the next one".into(),
        "copying a symbol does not fail while a tape or split reader takes it from its source".into(),
    ], families })
}
