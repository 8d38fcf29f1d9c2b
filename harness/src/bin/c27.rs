//! C27: streaming needs memory only for what may still be asked for.
//! Every short cycle of operations is repeated until tens of thousands of symbols have gone
//! through; an allocator that counts watches what is held.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cmp::Ordering;

struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn count(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { count(l.size() as isize); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { count(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { count(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { count(n as isize - l.size() as isize); System.realloc(p, l, n) }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// A symbol that takes some room
#[derive(Clone, Debug)]
struct Big { v: u64, _room: [u64; 7] }
const ROOM: isize = 64;
fn big(v: u64) -> Big { Big { v, _room: [v; 7] } }
impl PartialEq for Big { fn eq(&self, o: &Big) -> bool { self.v == o.v } }
impl Eq for Big {}
impl PartialOrd for Big { fn partial_cmp(&self, o: &Big) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Big { fn cmp(&self, o: &Big) -> Ordering { self.v.cmp(&o.v) } }
impl std::hash::Hash for Big { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.v.hash(h) } }
impl Countable for Big {
    fn next(&self) -> Big { big(self.v + 1) }
    fn prev(&self) -> Big { big(self.v - 1) }
}

/// An endless source that holds nothing: a word repeated, or numbers counting up
struct Endless<'a> { word: &'a [u8], at: u64 }
impl<'a> SymbolReader<Big> for Endless<'a> {
    fn next_symbol(&mut self) -> Option<Big> {
        self.at += 1;
        Some(big(if self.word.is_empty() { self.at - 1 } else { self.word[((self.at - 1) % self.word.len() as u64) as usize] as u64 }))
    }
}

/// What is held beyond what was held at the beginning
struct Meter { base: isize, early: isize }
impl Meter {
    fn new() -> Meter {
        let base = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(base));
        Meter { base, early: 0 }
    }
    fn peak(&self) -> isize { PEAK.with(|p| p.get()) - self.base }
    fn now(&self) -> isize { LIVE.with(|l| l.get()) - self.base }
    fn quarter(&mut self) { self.early = self.peak(); }
    /// `window` symbols may have to be held at once
    fn verdict(&self, window: usize, read: u64) -> Result<(), String> {
        let peak = self.peak();
        let most = 16 * (ROOM + 8) * (window as isize + 8) + 65536;
        if peak > most {
            return Err(format!("{} bytes are held after {} symbols of {} bytes, of which {} at a time may still be asked for", peak, read, ROOM, window));
        }
        if peak > 2 * self.early + 4096 {
            return Err(format!("what is held grows: {} bytes after a quarter of {} symbols, {} bytes after all ({} at a time may still be asked for)", self.early, read, peak, window));
        }
        Ok(())
    }
}

const LONG: u64 = 20_000;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum TapeOp { Read(usize), Back(usize), BackToCut, Cut }

/// Where a tape is: the cut, the position, how far it has read
#[derive(Clone, Copy, Default, Debug, Hash)]
struct TapeAt { cut: u64, pos: u64, high: u64, most: u64 }

impl TapeAt {
    fn step(&mut self, op: TapeOp) -> bool {
        match op {
            TapeOp::Read(n) => { self.pos += n as u64; self.high = self.high.max(self.pos); }
            TapeOp::Back(n) => { if self.pos - self.cut < n as u64 { return false; } self.pos -= n as u64; }
            TapeOp::BackToCut => self.pos = self.cut,
            TapeOp::Cut => self.cut = self.pos,
        }
        self.most = self.most.max(self.high - self.cut);
        true
    }
}

fn tape_cycle(cycle: &[TapeOp], long: u64, ctx: &mut Ctx) -> CaseResult {
    // the cycle has to be possible over and over, and to get on
    let mut m = TapeAt::default();
    for _ in 0..3 {
        let before = m.cut;
        for op in cycle { if !m.step(*op) { return Ok(()); } }
        if m.cut == before { return Ok(()); }
    }
    let mut m = TapeAt::default();
    let mut meter = Meter::new();
    let mut tape = Tape::new(Endless { word: &[], at: 0 });
    let mut quarter = false;
    while m.cut < long {
        for op in cycle {
            match *op {
                TapeOp::Read(n) => for k in 0..n as u64 {
                    let got = tape.next_symbol();
                    if got.as_ref().map(|b| b.v) != Some(m.pos + k) { return Err(format!("cycle {:?}: symbol {} of the tape is {:?}", cycle, m.pos + k, got.map(|b| b.v))); }
                },
                TapeOp::Back(n) => tape.rewind(n),
                TapeOp::BackToCut => tape.rewind((m.pos - m.cut) as usize),
                TapeOp::Cut => tape.cut(),
            }
            m.step(*op);
            ctx.step();
        }
        if !quarter && m.cut >= long / 4 { meter.quarter(); quarter = true; }
    }
    let verdict = meter.verdict(m.most as usize, m.high);
    ctx.trace();
    ctx.state(&cycle);
    ctx.outcome(&format!("window of {} to {}", m.most.next_power_of_two() / 2, m.most.next_power_of_two()));
    verdict.map_err(|e| format!("a tape, cycle {:?}: {}", cycle, e))
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum End { BothOn, DropFirst, DropSecond }

/// Each half reads in turn: (half, how many)
fn split_cycle(cycle: &[(usize, usize)], end: End, lead: usize, ctx: &mut Ctx) -> CaseResult {
    let mut at = [lead as u64, 0u64];
    let mut gap = lead as u64;
    let mut meter = Meter::new();
    let mut source = Endless { word: &[], at: 0 };
    let (a, b) = source.split();
    let mut half = [Some(a), Some(b)];
    let take = |half: &mut [Option<SplitSymbolReader<Big>>; 2], h: usize, n: usize, from: u64| -> Result<(), String> {
        let r = half[h].as_mut().unwrap();
        for k in 0..n as u64 {
            let got = r.next_symbol();
            if got.as_ref().map(|b| b.v) != Some(from + k) { return Err(format!("symbol {} of half {} is {:?}", from + k, h + 1, got.map(|b| b.v))); }
        }
        Ok(())
    };
    take(&mut half, 0, lead, 0)?;
    let mut quarter = false;
    while at[1] < LONG / 2 {
        for &(h, n) in cycle {
            take(&mut half, h, n, at[h])?;
            at[h] += n as u64;
            gap = gap.max(at[0].max(at[1]) - at[0].min(at[1]));
            ctx.step();
        }
        if !quarter && at[1] >= LONG / 8 { meter.quarter(); quarter = true; }
    }
    let on = match end { End::BothOn => None, End::DropFirst => { half[0] = None; Some(1) } End::DropSecond => { half[1] = None; Some(0) } };
    if let Some(h) = on { take(&mut half, h, LONG as usize, at[h])?; at[h] += LONG; }
    let verdict = meter.verdict(gap as usize, at[0].max(at[1]));
    let held = meter.now();
    drop(half);
    drop(source);
    ctx.trace();
    ctx.state(&(cycle, end, lead));
    ctx.outcome(&format!("gap of {} to {}, {:?}", gap.next_power_of_two() / 2, gap.next_power_of_two(), end));
    verdict.map_err(|e| format!("split readers, {} ahead at first, cycle {:?}, {:?}: {} ({} at the end)", lead, cycle, end, e, held))
}

/// Three readers: the first half split again. `which` is divided first.
fn nested_cycle(cycle: &[(usize, usize)], drop_one: usize, ctx: &mut Ctx) -> CaseResult {
    let mut at = [0u64; 3];
    let mut gap = 0;
    let mut meter = Meter::new();
    let mut source = Endless { word: &[], at: 0 };
    let (mut ab, c) = source.split();
    {
        let (a, b) = ab.split();
        let mut part = [Some(a), Some(b), None];
        let mut c = Some(c);
        let mut quarter = false;
        let mut dropped = 3;
        for phase in 0..2 {
            let goal = LONG / 2 * (phase + 1);
            loop {
                for &(h, n) in cycle {
                    if h == dropped { continue; }
                    for k in 0..n as u64 {
                        let got = if h == 2 { c.as_mut().unwrap().next_symbol() } else { part[h].as_mut().unwrap().next_symbol() };
                        if got.as_ref().map(|b| b.v) != Some(at[h] + k) { return Err(format!("symbol {} of reader {} is {:?}", at[h] + k, h, got.map(|b| b.v))); }
                    }
                    at[h] += n as u64;
                    let left: Vec<u64> = (0..3).filter(|h| *h != dropped).map(|h| at[h]).collect();
                    gap = gap.max(left.iter().max().unwrap() - left.iter().min().unwrap());
                    ctx.step();
                }
                let low = (0..3).filter(|h| *h != dropped).map(|h| at[h]).min().unwrap();
                if !quarter && low >= LONG / 8 { meter.quarter(); quarter = true; }
                if low >= goal { break; }
            }
            dropped = drop_one;
            if drop_one == 2 { c = None; } else if drop_one < 2 { part[drop_one] = None; }
        }
        // two buffers, each as long as the gap at most
        let verdict = meter.verdict(2 * gap as usize, *at.iter().max().unwrap());
        drop(part);
        drop(c);
        ctx.trace();
        ctx.state(&(cycle, drop_one));
        verdict.map_err(|e| format!("a split reader with one half split again, cycle {:?}, reader {} dropped half way: {}", cycle, drop_one, e))
    }
}

type Set = Vec<(P, u8)>;

fn sets() -> Vec<Set> {
    let inf = |m: u32, p: P| P::Inf(m, Box::new(p));
    let rep = |a: u32, b: u32, p: P| P::Rep(a, b, Box::new(p));
    vec![
        vec![],
        vec![(lit(&[0]), 1)],
        vec![(lit(&[0]), 1), (lit(&[1]), 2), (lit(&[2]), 0)],
        vec![(lit(&[0, 1]), 1)],
        vec![(P::Eps, 0), (lit(&[1]), 1)],
        vec![(P::Eps, 1)],
        vec![(inf(1, lit(&[0])), 0), (lit(&[1]), 1)],
        vec![(lit(&[0]), 0), (P::All(vec![lit(&[0]), inf(0, lit(&[1])), lit(&[2])]), 2), (P::Range(1, 2), 1)],
        vec![(inf(0, lit(&[1, 2])), 1), (lit(&[0, 0]), 2)],
        vec![(lit(&[0]), 0), (lit(&[0, 1, 0, 1, 0, 1, 0, 1, 2]), 1)],
        vec![(rep(0, 9, lit(&[1])), 0), (lit(&[0, 0, 0, 2]), 1)],
        vec![(lit(&[3]), 0)],
        vec![(lit(&[0, 1, 2, 3]), 0)],
        vec![(P::All(vec![lit(&[0]), rep(0, 70, P::Range(0, 2)), lit(&[3])]), 0)],
        vec![(P::All(vec![lit(&[0]), rep(0, 70, P::Range(0, 2)), lit(&[3])]), 0), (lit(&[0]), 1)],
    ]
}

/// What tokenizing an endless repetition of a word gives, step by step: the end of the token (or nothing), how many symbols that needs
struct Expected { from: Vec<(Option<(usize, u8)>, usize)> }

/// None if some place of the word can be read on from for ever
fn expected(set: &Set, word: &[u8]) -> Option<Expected> {
    let mut r = RefAutomaton::new(set);
    let mut from = vec![];
    for start in 0..word.len() {
        let mut st = r.start();
        let mut best = None;
        let mut n = 0;
        loop {
            st = r.step(st, word[(start + n) % word.len()]);
            n += 1;
            if r.is_empty(st) { break; }
            if let Some(o) = r.output(st) { best = Some((n, o)); }
            if n > 300 { return None; }
        }
        from.push((best, n));
    }
    Some(Expected { from })
}

const DRIVES: u64 = 4;

fn tokenizing(set: &Set, dfa: &SymbolRangeDfa<Big, u8>, word: &[u8], drive: u64, long: u64, ctx: &mut Ctx) -> CaseResult {
    let e = match expected(set, word) { Some(e) => e, None => { ctx.outcome("reads on for ever"); return Ok(()); } };
    // an iterator that is asked for a token where there is none looks for ever
    let any = (0..word.len()).any(|k| e.from[k].0.is_some());
    let mut meter = Meter::new();
    let mut t = Tokenizer::new_prepared(Endless { word, at: 0 }, dfa);
    let mut pos = 0u64;
    let mut window = 1;
    let mut tokens = 0u64;
    let mut quarter = false;
    let fail = |pos: u64, what: String| Err(format!("tokens {:?}, the word {:?} for ever, drive {}: at {}: {}", set, word, drive, pos, what));
    if drive == 0 && !any { return Ok(()); }
    while pos < long {
        let (token, looks) = e.from[(pos % word.len() as u64) as usize];
        window = window.max(looks);
        if drive == 0 {
            // the iterator gets to the next token by itself
            match token {
                None => { pos += 1; }
                Some((n, o)) => {
                    match t.next() {
                        Some((range, out)) => if range.start as u64 != pos || range.end as u64 != pos + n as u64 || out != o { return fail(pos, format!("{:?} for a token {} of {}", (range, out), o, n)); },
                        None => return fail(pos, "the end".into()),
                    }
                    pos += n as u64;
                    tokens += 1;
                    ctx.step();
                }
            }
        } else {
            // by hand; drive 3 asks each time twice as often as needed and never takes the tokens of one symbol
            let got = if drive == 2 { t.next_symbol() } else { t.next_token().map(|x| x.1) };
            if got != token.map(|x| x.1) { return fail(pos, format!("{:?} where {:?} is expected", got, token)); }
            match token {
                Some((n, _)) => { pos += n as u64; tokens += 1; }
                None => {
                    if drive == 3 && t.next_token().is_some() { return fail(pos, "a token the second time".into()); }
                    let skipped = t.skip_input();
                    if skipped.as_ref().map(|b| b.v) != Some(word[(pos % word.len() as u64) as usize] as u64) { return fail(pos, format!("{:?} skipped", skipped)); }
                    pos += 1;
                }
            }
            if drive == 3 {
                // skip one more whatever is there
                t.skip_input();
                pos += 1;
            }
            ctx.step();
        }
        if !quarter && pos >= long / 4 { meter.quarter(); quarter = true; }
    }
    let verdict = meter.verdict(window, pos);
    drop(t);
    ctx.trace();
    ctx.state(&(set, word, drive));
    ctx.outcome(&format!("{} of 10 symbols in tokens or more", 10 * tokens.min(pos) / pos));
    verdict.or_else(|x| fail(pos, x))
}

fn prepare(set: &Set) -> SymbolRangeDfa<Big, u8> {
    let ax = Axis::new((0..5).map(big).collect());
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(ax.pattern(p), *o); }
    m.prepare_to_match()
}

const USES: u64 = 14;

/// One use of the library from making to dropping; `stop` says how far it gets
fn using(how: u64, p: &Pattern<Big>, kept: &SymbolRangeDfa<Big, u8>, input: &Vec<Big>, stop: usize) {
    let small = |r: &mut dyn SymbolReader<Big>| { for _ in 0..stop { r.next_symbol(); } };
    match how {
        0 => { let q = p.clone().append(p).or(p).repeat(0..3).repeat_forever(1); drop(q.clone()); drop(q); }
        1 => { let m = p.to_ndfa(1u8); m.get_transitions_for_state(0); m.output_symbols_for_state(0); }
        2 => {
            let mut n: Ndfa<SymbolRange<Big>, u8> = Ndfa::new();
            let end = p.compile(&mut n, 0);
            n.join_states(end, 0);
            n.join_states(0, end + 1);
            n.set_output_symbol(end, 1);
            n.set_output_symbol(end, 2);
            if stop > 0 { n.fix_overlapping_ranges(); }
            if stop > 1 { DfaCompiler::build(n, SymbolRangeDfaBuilder::new()); }
        }
        3 => { let d = p.clone().prepare_to_match(); drop(d.clone()); let s = d.description(); drop(s); }
        4 => {
            let mut m = TokenMatcher::new();
            m.add_pattern(p.clone(), 2u8);
            if stop > 0 { (&m).prepare_to_match(); }
            m.add_pattern(p.clone(), 1u8);
            if stop > 1 { (&m).prepare_to_match(); m.to_ndfa(); }
        }
        5 => {
            let mut st = kept.start();
            for s in input.iter().take(stop) { st = match st { More(s2) => s2.next(s.clone()), x => x } }
            if let More(ref s) = st { let other = s.clone(); other.finish(); }
        }
        6 => { matches_prepared(input, kept); matches(input, p.clone()); }
        7 => { let mut t = Tape::new(input.read_symbols()); small(&mut t); t.rewind(stop.min(input.len()) / 2); if stop % 2 == 0 { t.cut(); } small(&mut t); t.rewind(0); }
        8 => {
            let mut r = input.read_symbols();
            let (mut a, mut b) = r.split();
            small(&mut a);
            if stop % 2 == 0 { drop(a); small(&mut b); } else { b.next_symbol(); let (mut c, d) = b.split(); small(&mut c); drop(c); drop(a); drop(d); }
        }
        9 => {
            // the halves outlive what they have read; the source is read on after them
            let mut r = input.read_symbols();
            { let (mut a, b) = r.split(); small(&mut a); drop(b); a.next_symbol(); }
            r.to_vec();
        }
        10 => { let mut t = Tokenizer::new_prepared(input.read_symbols(), kept); for k in 0..stop { if k % 3 == 2 || t.next_token().is_none() { t.skip_input(); } } }
        11 => { let t: Vec<_> = Tokenizer::new(input.read_symbols(), p.clone()).take(stop).collect(); drop(t); }
        12 => {
            let mut s: TaggedStream<Big, u8> = TaggedStream::from_reader(&mut input.read_symbols());
            for k in 0..stop.min(20) { let hi = k.min(s.len()); s.tag(k as u8, hi / 2..hi); }
            let two = s.with_tags(vec![(0..stop.min(s.len()), 9)].into_iter());
            s.tokenize(kept, |x| match x { TagSymbol::Untagged(b) => b, TagSymbol::Tagged(_, _) => big(0) });
            drop(s.clone());
            drop(s);
            drop(two);
        }
        _ => { let mut r = VecReader::from_vec(input.clone()); small(&mut r); let mut b: Box<dyn SymbolReader<Big>> = Box::new(r.map_symbols(|b| b)); small(&mut b); }
    }
}

fn given_back(how: u64, p: &P, input: &[u8], stop: usize, ctx: &mut Ctx) -> CaseResult {
    let ax = Axis::new((0..5).map(big).collect());
    let pat = ax.pattern(p);
    let kept = pat.to_ndfa(3u8).prepare_to_match();
    let input: Vec<Big> = input.iter().map(|x| big(*x as u64)).collect();
    // (what is set up once for the whole program may stay)
    using(how, &pat, &kept, &input, stop);
    let base = LIVE.with(|l| l.get());
    for _ in 0..3 { using(how, &pat, &kept, &input, stop); }
    let left = LIVE.with(|l| l.get()) - base;
    ctx.trace();
    ctx.step();
    if left != 0 { return Err(format!("pattern {:?}, {} symbols, use {} as far as {}: {} bytes are still held after three uses are over", p, input.len(), how, stop, left)); }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    {
        let g = Grammar::new(atoms3(0, 1, 2), unaries(), false, t.pick(3, 4));
        let n = g.total();
        f.push(family("given-back", format!("{} uses of the library (patterns, machines, matchers, matches, tapes, split readers, tokenizers, tagged streams), each with every pattern of at most {} nodes, an input of 0, 1, 5 or 40 symbols, and broken off after 0, 1, 2, 5 or 64 steps: when it is over nothing is held that was not held before", USES, t.pick(3, 4)), n * USES, move |i, ctx| {
            let p = g.get(i / USES);
            for word in [vec![], vec![0], vec![0, 1, 2, 0, 1], (0..40u8).map(|x| x % 3).collect()] {
                for stop in [0usize, 1, 2, 5, 64] { given_back(i % USES, &p, &word, stop, ctx)?; }
            }
            ctx.state(&i);
            ctx.outcome("all given back");
            Ok(())
        }));
    }
    {
        use TapeOp::*;
        let ops = [Read(1), Read(2), Read(7), Back(1), Back(3), BackToCut, Cut];
        let n = t.pick(5u32, 7);
        let total = string_count(7, n);
        f.push(family("tape", format!("every cycle of up to {} of the operations {:?} on a tape that is possible for ever and moves the cut, repeated until {} symbols are cut off", n, ops, LONG), total, move |i, ctx| {
            let cycle: Vec<TapeOp> = string(7, i).iter().map(|d| ops[*d as usize]).collect();
            if cycle.is_empty() || !cycle.contains(&Cut) { return Ok(()); }
            ctx.sample(|| format!("{:?}", cycle));
            tape_cycle(&cycle, LONG, ctx)
        }));
        let sizes = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025];
        let k = sizes.len() as u64;
        f.push(family("tape-windows", format!("read n, go back m of them and cut, or cut in between: n and m from {:?}", sizes), k * k * 4, move |i, ctx| {
            let d = digits(i, &[k, k, 4]);
            let (n, m) = (sizes[d[0] as usize], sizes[d[1] as usize]);
            if m > n { return Ok(()); }
            let cycle = match d[2] {
                0 => vec![Read(n), Back(m), Cut, Read(1)],
                1 => vec![Read(n), Cut, Read(m), BackToCut],
                2 => vec![Read(n), Cut, Read(m), Cut],
                _ => vec![Read(n), BackToCut, Read(m), Cut],
            };
            tape_cycle(&cycle, LONG.max(40 * n as u64), ctx)
        }));
    }
    {
        let ops: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 20), (1, 1), (1, 2), (1, 20)];
        let n = t.pick(4u32, 6);
        let total = string_count(6, n);
        let leads = [0usize, 1, 5, 100];
        f.push(family("split", format!("every cycle of up to {} reads of 1, 2 or 20 symbols by the two halves that leaves them as far apart as before, one half 0, 1, 5 or 100 ahead, repeated over {} symbols; then both kept or one dropped and the other read on for {}", n, LONG / 2, LONG), total * 12, move |i, ctx| {
            let d = digits(i, &[12, total]);
            let cycle: Vec<(usize, usize)> = string(6, d[1]).iter().map(|d| ops[*d as usize]).collect();
            let sum = |h: usize| cycle.iter().filter(|x| x.0 == h).map(|x| x.1).sum::<usize>();
            if cycle.is_empty() || sum(0) != sum(1) { return Ok(()); }
            ctx.sample(|| format!("{:?}", cycle));
            split_cycle(&cycle, [End::BothOn, End::DropFirst, End::DropSecond][(d[0] % 3) as usize], leads[(d[0] / 3) as usize], ctx)
        }));
        // any two reads by each of the three
        let ops3: [(usize, usize); 6] = [(0, 1), (0, 20), (1, 1), (1, 20), (2, 1), (2, 20)];
        let n = t.pick(6u32, 7);
        let total = string_count(6, n);
        f.push(family("split-again", format!("the same of three readers, one half being split again: every cycle of up to {} reads of 1 or 20 that leaves them as far apart as before; one of the three, or none, is dropped half way", n), total * 4, move |i, ctx| {
            let d = digits(i, &[4, total]);
            let cycle: Vec<(usize, usize)> = string(6, d[1]).iter().map(|d| ops3[*d as usize]).collect();
            let sum = |h: usize| cycle.iter().filter(|x| x.0 == h).map(|x| x.1).sum::<usize>();
            if cycle.is_empty() || sum(0) != sum(1) || sum(1) != sum(2) { return Ok(()); }
            ctx.sample(|| format!("{:?}", cycle));
            nested_cycle(&cycle, d[0] as usize, ctx)
        }));
    }
    {
        let ss = sets();
        let ns = ss.len() as u64;
        let n = t.pick(4u32, 6);
        let words = string_count(4, n);
        let block = 16;
        f.push(family("tokens", format!("{} sets of patterns over every endless repetition of a word of up to {} symbols over 4, by the iterator, by hand with skipping, through next_symbol, and with symbols skipped between the tokens", ns, n), ns * DRIVES * (words + block - 1) / block, move |i, ctx| {
            let d = digits(i, &[DRIVES, ns, words]);
            let set = &ss[d[1] as usize];
            let dfa = prepare(set);
            for w in d[2] * block..((d[2] + 1) * block).min(words) {
                let word = string(4, w);
                if word.is_empty() { continue; }
                tokenizing(set, &dfa, &word, d[0], LONG / 2, ctx)?;
            }
            Ok(())
        }));
        // tokens far apart, long tokens, long look-ahead
        let sizes = [1usize, 2, 3, 4, 5, 8, 9, 16, 31, 32, 33, 64, 65, 100, 128, 200, 256, 257];
        let k = sizes.len() as u64;
        f.push(family("tokens-apart", format!("tokens of n symbols (as a literal, a bounded repetition, a run) m symbols apart, n and m from {:?}, by the same four ways", sizes), k * k * 3 * DRIVES, move |i, ctx| {
            let d = digits(i, &[k, k, 3, DRIVES]);
            let (n, m) = (sizes[d[0] as usize], sizes[d[1] as usize]);
            let p = match d[2] {
                0 => lit(&vec![0; n]),
                1 => P::Rep(n as u32, n as u32 + 1, Box::new(lit(&[0]))),
                _ => P::Inf(1, Box::new(lit(&[0]))),
            };
            let set = vec![(p, 1), (lit(&[1, 2]), 0)];
            let dfa = prepare(&set);
            let mut word = vec![0u8; n];
            word.extend(vec![1u8; m]);
            tokenizing(&set, &dfa, &word, d[3], LONG, ctx)
        }));
    }
    {
        // one match over a long input, readers on readers
        let lens = [20_000u64, 50_000, 131_072];
        f.push(family("matching", "one match that goes on for up to 131072 symbols: stepped by hand, by match_pattern, through a mapped, a filtered, a boxed reader, and through one half of a split reader whose other half is dropped".into(), 3 * 6, move |i, ctx| {
            let n = lens[(i % 3) as usize];
            // a counted source
            struct Counted { left: u64 }
            impl SymbolReader<Big> for Counted {
                fn next_symbol(&mut self) -> Option<Big> { if self.left == 0 { None } else { self.left -= 1; Some(big(self.left % 2)) } }
            }
            let set: Set = vec![(P::Inf(1, Box::new(P::Range(0, 1))), 1), (lit(&[0, 1, 0]), 0)];
            let dfa = prepare(&set);
            let meter = Meter::new();
            let mut source = Counted { left: n };
            let got = {
                let result = match i / 3 {
                    0 => {
                        let mut state = dfa.start();
                        loop {
                            state = match state {
                                More(s) => match source.next_symbol() { Some(x) => s.next(x), None => s.finish() },
                                end => break end,
                            };
                        }
                    }
                    1 => match_pattern(dfa.start(), &mut source),
                    2 => match_pattern(dfa.start(), &mut source.map_symbols(|b| b)),
                    3 => match_pattern(dfa.start(), &mut (0..n).filter_map(|x| Some(big(x % 2)))),
                    4 => { let mut b: Box<dyn SymbolReader<Big>> = Box::new(source); match_pattern(dfa.start(), &mut b) }
                    _ => { let (mut a, b) = source.split(); drop(b); match_pattern(dfa.start(), &mut a) }
                };
                match result { Accept(k, o) => Some((k, *o)), _ => None }
            };
            let mut m = meter;
            // (a buffer of any constant size is allowed)
            m.early = 30_000;
            let verdict = m.verdict(1, n);
            ctx.step();
            ctx.trace();
            ctx.state(&i);
            ctx.outcome(&format!("{:?}", got.map(|g| g.1)));
            if got != Some((n as usize, 1)) { return Err(format!("{} symbols, way {}: {:?}", n, i / 3, got)); }
            verdict.map_err(|e| format!("way {}: {}", i / 3, e))
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C27",
        level: "model_checking",
        assumptions: vec!["what is held is measured in bytes asked from the allocator; a constant factor over the symbols that may still be asked for is allowed (16 times that many symbols, and 64 kB)".into(), "histories are cycles repeated over some 20000 symbols, not every history of that length".into()],
        families,
    })
}
