//! C31: the work for a symbol does not grow with what has gone before.
//! Symbols count how often they are copied, compared and dropped and an allocator counts what is
//! requested, while every short cycle of operations goes on for thousands of symbols; and the
//! processor time of each kind of operation is compared between short and long streams.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;

struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static WORK: Cell<u64> = const { Cell::new(0) };
}

/// A request for memory is one unit of work, and another for every 64 bytes
fn asked(n: usize) { let _ = BYTES.try_with(|b| b.set(b.get() + 64 + n as u64)); }
fn work(n: u64) { let _ = WORK.try_with(|b| b.set(b.get() + n)); }
fn done() -> u64 { WORK.with(|w| w.get()) + BYTES.with(|b| b.get()) / 64 }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { asked(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { asked(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { asked(n); System.realloc(p, l, n) }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// A symbol that counts what is done with it
#[derive(Debug)]
struct W(u32);
impl Clone for W { fn clone(&self) -> W { work(1); W(self.0) } }
impl Drop for W { fn drop(&mut self) { work(1); } }
impl PartialEq for W { fn eq(&self, o: &W) -> bool { work(1); self.0 == o.0 } }
impl Eq for W {}
impl std::hash::Hash for W { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl PartialOrd for W { fn partial_cmp(&self, o: &W) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for W { fn cmp(&self, o: &W) -> Ordering { work(1); self.0.cmp(&o.0) } }
impl Countable for W {
    fn next(&self) -> W { W(self.0.wrapping_add(1)) }
    fn prev(&self) -> W { W(self.0.wrapping_sub(1)) }
}

/// A word after which another is repeated for ever, or numbers counting up; ends after so many
struct Source<'a> { lead: &'a [u8], word: &'a [u8], at: u64, end: u64 }
impl<'a> SymbolReader<W> for Source<'a> {
    fn next_symbol(&mut self) -> Option<W> {
        work(1);
        if self.at == self.end { return None; }
        let k = self.at;
        self.at += 1;
        Some(W(if (k as usize) < self.lead.len() { self.lead[k as usize] as u32 } else if self.word.is_empty() { k as u32 } else { self.word[((k - self.lead.len() as u64) % self.word.len() as u64) as usize] as u32 }))
    }
}
fn counting_up() -> Source<'static> { Source { lead: &[], word: &[], at: 0, end: u64::MAX } }

/// What has been done since, against what has been asked for
struct Meter { base: u64, units: u64, each: u64, next: u64 }
impl Meter {
    /// `each` is the most work for a unit, on average over all units so far
    fn new(each: u64) -> Meter { Meter { base: done(), units: 0, each, next: 1 } }
    fn add(&mut self, n: u64) { self.units += n; }
    fn verdict(&self) -> Result<(), String> {
        let w = done() - self.base;
        if w > self.each * self.units + 2048 {
            return Err(format!("{} copies, comparisons, releases and requests for memory for what comes to {} symbols and calls, over {} for each", w, self.units, self.each));
        }
        Ok(())
    }
    /// At every power of two
    fn look(&mut self) -> Result<(), String> {
        if self.units < self.next { return Ok(()); }
        self.next = self.units.next_power_of_two() * 2;
        self.verdict()
    }
}

const LONG: u64 = 6_000;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum TapeOp { Read(usize), Back(usize), BackToCut, Cut }

fn tape_cycle(lead: usize, cycle: &[TapeOp], ctx: &mut Ctx) -> CaseResult {
    // (position, cut); the cycle has to be possible again and again
    let (mut pos, mut cut) = (lead as u64, 0u64);
    let mut left = 0;
    for round in 0..3 {
        if round == 2 { left = pos - cut; }
        for op in cycle {
            match *op { TapeOp::Read(n) => pos += n as u64, TapeOp::Back(n) => { if pos - cut < n as u64 { return Ok(()); } pos -= n as u64; } TapeOp::BackToCut => pos = cut, TapeOp::Cut => cut = pos }
        }
    }
    if pos - cut < left { return Ok(()); }
    let (mut pos, mut cut) = (0u64, 0u64);
    let mut m = Meter::new(32);
    let mut tape = Tape::new(counting_up());
    let fail = |pos: u64, e: String| format!("a tape read {} symbols on, then {:?} again and again, at {}: {}", lead, cycle, pos, e);
    let first = [TapeOp::Read(lead)];
    let mut next: &[TapeOp] = &first;
    let mut calls = 0;
    while calls < LONG + lead as u64 {
        for op in next {
            match *op {
                TapeOp::Read(n) => { for _ in 0..n { if tape.next_symbol().map(|w| w.0 as u64) != Some(pos) { return Err(fail(pos, "another symbol".into())); } pos += 1; } m.add(n as u64); calls += n as u64; }
                TapeOp::Back(n) => { tape.rewind(n); m.add(n as u64); pos -= n as u64; }
                TapeOp::BackToCut => { let n = pos - cut; tape.rewind(n as usize); pos = cut; m.add(n); }
                TapeOp::Cut => { tape.cut(); cut = pos; }
            }
            m.add(1);
            calls += 1;
            ctx.step();
            if tape.get_source_position() as u64 != pos { return Err(fail(pos, "another position".into())); }
        }
        m.look().map_err(|e| fail(pos, e))?;
        next = cycle;
    }
    m.verdict().map_err(|e| fail(pos, e))?;
    drop(tape);
    m.verdict().map_err(|e| fail(pos, format!("dropped: {}", e)))?;
    ctx.state(&(lead, cycle));
    ctx.trace();
    Ok(())
}

/// (half, how many); `nested`: the first half is split again and the third reader is the second half
fn split_cycle(cycle: &[(usize, usize)], lead: usize, nested: bool, drop_one: usize, ctx: &mut Ctx) -> CaseResult {
    let mut m = Meter::new(32);
    let mut source = counting_up();
    let r = {
        let (mut a, b) = source.split();
        let mut at = [0u64; 3];
        let mut go = |readers: &mut [Option<SplitSymbolReader<'_, W>>; 3], second: &mut Option<SplitSymbolReader<'_, W>>, at: &mut [u64; 3], m: &mut Meter, h: usize, n: usize| -> Result<(), String> {
            let r: Option<&mut dyn SymbolReader<W>> = if h == 2 { second.as_mut().map(|r| r as &mut dyn SymbolReader<W>) } else { readers[h].as_mut().map(|r| r as &mut dyn SymbolReader<W>) };
            if let Some(r) = r {
                for _ in 0..n {
                    if r.next_symbol().map(|w| w.0 as u64) != Some(at[h]) { return Err(format!("reader {}: another symbol at {}", h, at[h])); }
                    at[h] += 1;
                }
                m.add(3 * n as u64);
                ctx.step();
            }
            m.look().map_err(|e| format!("with the readers at {:?}: {}", at, e))
        };
        let mut run = |readers: &mut [Option<SplitSymbolReader<'_, W>>; 3], second: &mut Option<SplitSymbolReader<'_, W>>| -> Result<(), String> {
            go(readers, second, &mut at, &mut m, 0, lead)?;
            let mut calls = 0;
            while calls < LONG as usize { for (h, n) in cycle { go(readers, second, &mut at, &mut m, *h, *n)?; calls += n; } }
            if drop_one < 2 { readers[drop_one] = None; }
            if drop_one == 2 { *second = None; }
            // one that was dropped gives back all that was held for it
            for (h, x) in at.iter().enumerate() { let _ = h; m.add(*x); }
            while calls < 2 * LONG as usize { for (h, n) in cycle { go(readers, second, &mut at, &mut m, *h, *n)?; calls += n; } }
            m.verdict()
        };
        if nested {
            let (c, d) = a.split();
            run(&mut [Some(c), Some(d), None], &mut Some(b))
        } else {
            run(&mut [Some(a), None, None], &mut Some(b))
        }
    };
    ctx.state(&(cycle, lead, nested, drop_one));
    ctx.trace();
    r.map_err(|e| format!("halves of a split{} of which one is {} symbols ahead at first, then (reader, symbols) {:?} again and again, reader {} dropped half way: {}", if nested { " (the first split again)" } else { "" }, lead, cycle, drop_one, e))
}

type Set = Vec<(P, u8)>;
type Dfa = SymbolRangeDfa<W, u8>;

fn axis() -> Axis<W> { Axis::new((0..5).map(W).collect()) }

fn prepare(set: &Set) -> Dfa {
    let ax = axis();
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(ax.pattern(p), *o); }
    m.prepare_to_match()
}

/// The most transitions of any state
fn widest(d: &Dfa) -> u64 { (0..d.count_states()).map(|s| d.get_transitions_for_state(s).len() as u64).max().unwrap_or(0) }

fn match_case(p: &P, dfa: &Dfa, wide: u64, lead: &[u8], word: &[u8], n: u64, ctx: &mut Ctx) -> CaseResult {
    let each = 8 * wide + 24;
    let fail = |k: u64, e: String| format!("pattern {:?} (at most {} transitions from a state), {:?} and then {:?} again and again, symbol {}: {}", p, wide, lead, word, k, e);
    // by hand: every single symbol
    let mut src = Source { lead, word, at: 0, end: n };
    let before = done();
    let mut st = dfa.start();
    if done() - before > 16 { return Err(fail(0, format!("{} for starting", done() - before))); }
    let mut k = 0u64;
    while let More(state) = st {
        if k % 61 == 7 {
            let before = done();
            let other = state.clone();
            if done() - before > 16 { return Err(fail(k, format!("{} for copying the match in progress", done() - before))); }
            other.finish();
            if done() - before > 32 { return Err(fail(k, format!("{} for finishing a copy of the match in progress", done() - before))); }
        }
        let s = src.next_symbol();
        let before = done();
        st = match s { Some(s) => state.next(s), None => state.finish() };
        if done() - before > each { return Err(fail(k, format!("{} copies, comparisons, releases and requests for memory for one symbol, over {}", done() - before, each))); }
        k += 1;
        ctx.step();
    }
    if let More(_) = st { return Err(fail(k, "still going on".into())); }
    let asked = src.at;
    // by the library
    let mut src = Source { lead, word, at: 0, end: n };
    let before = done();
    let r = match_pattern(dfa.start(), &mut src);
    let w = done() - before;
    if src.at != asked { return Err(fail(src.at, format!("match_pattern took {} symbols, by hand {}", src.at, asked))); }
    let same = match (&r, &st) { (Accept(a, b), Accept(c, d)) => a == c && b == d, (Reject, Reject) => true, _ => false };
    if !same { return Err(fail(asked, "match_pattern and the match by hand differ".into())); }
    if w > (each + 4) * (asked + 1) + 64 { return Err(fail(asked, format!("{} for {} symbols in match_pattern, over {} for each", w, asked, each + 4))); }
    ctx.state(&(p, lead, word));
    ctx.outcome(if asked > 50 { "goes on" } else { "ends early" });
    ctx.trace();
    Ok(())
}

fn sets() -> Vec<Set> {
    let inf = |m: u32, p: P| P::Inf(m, Box::new(p));
    let rep = |a: u32, b: u32, p: P| P::Rep(a, b, Box::new(p));
    vec![
        vec![(lit(&[0]), 1)],
        vec![(lit(&[0]), 1), (lit(&[1]), 2), (lit(&[2]), 0)],
        vec![(lit(&[0, 1]), 1)],
        vec![(P::Eps, 0), (lit(&[1]), 1)],
        vec![(inf(1, lit(&[0])), 0), (lit(&[1]), 1)],
        vec![(lit(&[0]), 0), (P::All(vec![lit(&[0]), inf(0, lit(&[1])), lit(&[2])]), 2), (P::Range(1, 2), 1)],
        vec![(inf(0, lit(&[1, 2])), 1), (lit(&[0, 0]), 2)],
        vec![(lit(&[0]), 0), (lit(&[0, 1, 0, 1, 0, 1, 0, 1, 2]), 1)],
        vec![(rep(0, 9, lit(&[1])), 0), (lit(&[0, 0, 0, 2]), 1)],
        vec![(lit(&[3]), 0)],
        vec![(P::All(vec![lit(&[0]), rep(0, 70, P::Range(0, 2)), lit(&[3])]), 0), (lit(&[0]), 1)],
        vec![(inf(1, P::Range(0, 2)), 0)],
        vec![(P::All(vec![inf(1, P::Range(0, 1)), lit(&[2])]), 0), (lit(&[1]), 1)],
    ]
}

/// 0 next_token (and skip_input), 1 the iterator, 2 next_symbol (and skip_input)
fn tokens(set: &Set, dfa: &Dfa, wide: u64, lead: &[u8], word: &[u8], drive: u64, n: u64, ctx: &mut Ctx) -> CaseResult {
    let w: Vec<u8> = (0..n as usize).map(|k| if k < lead.len() { lead[k] } else { word[(k - lead.len()) % word.len()] }).collect();
    let mut r = RefAutomaton::new(set);
    // (token, how many symbols it looks at) at a place
    let mut at = |pos: usize| -> (Option<(usize, u8)>, u64) {
        let mut st = r.start();
        let mut best = None;
        let mut k = 0;
        while pos + k < w.len() {
            st = r.step(st, w[pos + k]);
            k += 1;
            if r.is_empty(st) { break; }
            if let Some(o) = r.output(st) { best = Some((k, o)); }
        }
        (best, k as u64 + 1)
    };
    // (the reference takes memory too, so the expected tokens come first)
    let mut plan = vec![];
    let mut pos = 0;
    let mut total = 0;
    while pos < w.len() && total < 40 * n {
        let (t, looks) = at(pos);
        total += looks;
        plan.push((pos, t, looks));
        pos += t.map_or(1, |x| x.0);
    }
    let fail = |pos: usize, e: String| format!("tokens {:?}, {:?} and then {:?} again and again, {} symbols, by {}, at {}: {}", set, lead, word, n, ["next_token", "the iterator", "next_symbol"][drive as usize], pos, e);
    let mut m = Meter::new(8 * wide + 48);
    let mut t = Tokenizer::new_prepared(Source { lead, word, at: 0, end: n }, dfa);
    let mut looked = 0;
    for (pos, token, looks) in plan {
        looked += looks;
        match (drive, token) {
            (1, None) => continue,
            (1, Some((l, o))) => { if t.next() != Some((pos..pos + l, o)) { return Err(fail(pos, "another token".into())); } }
            (2, _) => { if t.next_symbol() != token.map(|x| x.1) { return Err(fail(pos, "another token".into())); } if token.is_none() { t.skip_input(); } }
            _ => { if t.next_token() != token.map(|(l, o)| (pos..pos + l, o)) { return Err(fail(pos, "another token".into())); } if token.is_none() { t.skip_input(); } }
        }
        m.add(looked + 2);
        looked = 0;
        m.look().map_err(|e| fail(pos, e))?;
        ctx.step();
    }
    m.add(looked);
    m.verdict().map_err(|e| fail(w.len(), e))?;
    ctx.state(&(set, lead, word, drive));
    ctx.trace();
    Ok(())
}

const LAYERS: u64 = 6;

/// Puts the rest of the layers on a reader and reads from the top of the stack
fn stacked<'x>(layers: &[u64], mut r: Box<dyn SymbolReader<W> + 'x>, f: &mut dyn FnMut(&mut dyn SymbolReader<W>) -> CaseResult) -> CaseResult {
    let rest = match layers.first() { None => return f(&mut *r), Some(_) => &layers[1..] };
    match layers[0] {
        0 => stacked(rest, Box::new(r.map_symbols(|w| w)), f),
        1 => stacked(rest, Box::new(std::iter::from_fn(move || r.next_symbol()).filter_map(|w| if w.0 % 3 == 2 { None } else { Some(w) })), f),
        2 => stacked(rest, Box::new(r), f),
        3 => stacked(rest, Box::new(Tape::new(r)), f),
        4 => { let (a, b) = r.split(); let x = stacked(rest, Box::new(b), f); drop(a); x }
        _ => { let (a, b) = r.split(); drop(b); stacked(rest, Box::new(a), f) }
    }
}

fn cpu() -> u64 {
    #[repr(C)]
    struct Ts { s: i64, n: i64 }
    extern "C" { fn clock_gettime(c: i32, t: *mut Ts) -> i32; }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t); }
    t.s as u64 * 1_000_000_000 + t.n as u64
}

const TIMED: u64 = 22;

/// The processor time that an operation takes over and over on a stream of about n symbols: (nanoseconds, units)
fn timed(kind: u64, n: usize) -> (u64, u64) {
    struct Up(u32, u32);
    impl SymbolReader<u32> for Up { fn next_symbol(&mut self) -> Option<u32> { if self.0 == self.1 { None } else { self.0 += 1; Some(self.0 - 1) } } }
    let up = || Up(0, n as u32);
    let one = |p: Pattern<u32>| { let mut m = TokenMatcher::new(); m.add_pattern(p, 1u8); m.prepare_to_match() };
    let all = one(MatchRange(0, u32::max_value()).repeat_forever(0));
    let any = one(MatchRange(0, u32::max_value()));
    let pairs = one(MatchRange(0, u32::max_value()).repeat(2..3));
    let never = one(Match(vec![4_000_000_000]));
    fn keep<T>(x: T) { std::hint::black_box(&x); }
    let n64 = n as u64;
    let numbers: Vec<u32> = (0..n as u32).collect();
    let text: String = (0..n).map(|k| ['a', '\u{e9}', '\u{4e00}'][k % 3]).collect();
    let bytes: Vec<u8> = (0..n).map(|k| k as u8).collect();
    let mut far = Tape::new(up());
    if kind == 2 || kind == 3 { for _ in 0..n { far.next_symbol(); } far.rewind(n / 2); }
    let mut source = up();
    let mut source2 = up();
    let stream: TaggedStream<u32, u8> = TaggedStream::from_reader(&mut numbers.read_symbols());
    let owned = numbers.clone();
    let mut bytes_in: &[u8] = &bytes;
    let t0 = cpu();
    let units = match kind {
        0 => { let mut t = Tape::new(up()); for _ in 0..n { keep(t.next_symbol()); } n64 }
        1 => { let mut t = Tape::new(up()); for k in 0..n { keep(t.next_symbol()); if k % 3 == 2 { t.cut(); } } n64 }
        2 => { for _ in 0..n { keep(far.next_symbol()); far.rewind(1); keep(far.get_source_position()); keep(far.at_end_of_reader()); keep(far.buffer_size()); } n64 }
        3 => { for k in 0..n / 2 { keep(far.next_symbol()); if k % 2 == 0 { far.cut(); } } n64 }
        4 => { let mut t = Tape::new(up()); for _ in 0..n { keep(t.next_symbol()); } t.rewind(n); for _ in 0..n { keep(t.next_symbol()); t.cut(); } 2 * n64 }
        5 => { let (mut a, mut b) = source.split(); for _ in 0..n { keep(a.next_symbol()); } for _ in 0..n { keep(b.next_symbol()); } 2 * n64 }
        6 => { let (mut a, mut b) = source.split(); for _ in 0..n { keep(a.next_symbol()); keep(b.next_symbol()); } 2 * n64 }
        7 => { let (mut a, mut b) = source.split(); for _ in 0..n / 2 { keep(a.next_symbol()); } for _ in 0..n / 2 { keep(a.next_symbol()); keep(b.next_symbol()); } 2 * n64 }
        8 => { let (mut a, b) = source.split(); let (mut c, mut d) = a.split(); for _ in 0..n { keep(c.next_symbol()); } drop(b); for _ in 0..n { keep(d.next_symbol()); } 3 * n64 }
        9 => { keep(match_pattern(all.start(), &mut source2)); n64 }
        10 => { let mut st = all.start(); for k in 0..n { if let More(s) = st { keep(s.clone().finish()); st = s.next(k as u32); } } n64 }
        11 => { let mut t = Tokenizer::new_prepared(up(), &any); for _ in 0..n { keep(t.next_token()); } n64 }
        12 => { keep(Tokenizer::new_prepared(up(), &pairs).count()); n64 }
        13 => { let mut t = Tokenizer::new_prepared(up(), &never); for _ in 0..n { keep(t.next_token()); keep(t.skip_input()); } n64 }
        14 => { keep(Tokenizer::new_prepared(up(), &never).count()); n64 }
        15 => { let mut r = VecReader::from_vec(owned); while let Some(x) = r.next_symbol() { keep(x); } n64 }
        16 => { let mut r = numbers.read_symbols(); while let Some(x) = r.next_symbol() { keep(x); } n64 }
        17 => { let mut r = text.read_symbols(); while let Some(x) = r.next_symbol() { keep(x); } n64 }
        18 => { let mut r = ByteSymbolReader::from(&mut bytes_in); while let Some(x) = r.next_symbol() { keep(x); } n64 }
        19 => { keep(source2.to_vec()); n64 }
        20 => { let t = stream.with_tags((0..n / 4).map(|k| (4 * k..4 * k + 2, k as u8))); keep(t.len()); n64 }
        _ => { let t = stream.tokenize(&pairs, |x| match x { TagSymbol::Untagged(u) => u, _ => 0 }); keep(t.len()); n64 }
    };
    (cpu() - t0, units)
}

fn time_case(kind: u64, ctx: &mut Ctx) -> CaseResult {
    // the least of several times, for a unit, in picoseconds
    let per = |n: usize, tries: usize| (0..tries).map(|_| { let (t, u) = timed(kind, n); t * 1000 / u }).min().unwrap();
    let base = (8..=10).map(|e| per(1 << e, 5)).min().unwrap().max(3_000);
    let mut n = 1 << 11;
    while n <= 1 << 17 {
        let mut p = per(n, 2);
        // (once more before it counts)
        if p > 100 * base { p = p.min(per(n, 6)); }
        ctx.step();
        if p > 100 * base {
            return Err(format!("operation {}: {} ns for each symbol of a stream of up to 1024 symbols, {} ns for each of {}", kind, base as f64 / 1000.0, p as f64 / 1000.0, n));
        }
        n *= 2;
    }
    ctx.state(&kind);
    ctx.trace();
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    {
        use TapeOp::*;
        let ops = [Read(1), Read(2), Read(7), Back(1), Back(3), BackToCut, Cut];
        let leads = [0usize, 5, 64, 1000];
        for len in 1..=t.pick(5, 7) {
            f.push(family(&format!("tape-cycles-{}", len), format!("every cycle of {} operations out of {:?} that can go on for ever, after {:?} symbols, for {} calls: copies, comparisons, releases and memory requested", len, ops, leads, LONG), 7u64.pow(len as u32) * 4, move |i, ctx| {
                let cycle: Vec<TapeOp> = seq(i / 4, 7, len).into_iter().map(|k| ops[k]).collect();
                tape_cycle(leads[(i % 4) as usize], &cycle, ctx)
            }));
        }
    }
    {
        let steps = [1usize, 2, 5];
        let leads = [0usize, 1, 37, 2000];
        for nested in [false, true] {
            let readers: Vec<usize> = if nested { vec![0, 1, 2] } else { vec![0, 2] };
            let base = (readers.len() * 3) as u64;
            let len = t.pick(if nested { 3 } else { 4 }, if nested { 5 } else { 6 });
            f.push(family(if nested { "nested-splits" } else { "splits" }, format!("every cycle of {} reads of {:?} symbols from one of {} readers, one of them {:?} symbols ahead at first and any of them dropped half way, for {} symbols", len, steps, readers.len(), leads, 2 * LONG), base.pow(len as u32) * 4 * 4, move |i, ctx| {
                let cycle: Vec<(usize, usize)> = seq(i / 16, base, len).into_iter().map(|k| (readers[k / 3], steps[k % 3])).collect();
                split_cycle(&cycle, leads[(i % 4) as usize], nested, (i / 4 % 4) as usize, ctx)
            }));
        }
    }
    {
        let size = t.pick(4, 5);
        let total = Grammar::new(atoms3(0, 1, 2), unaries(), false, size).total();
        f.push(family("matches", format!("every pattern of at most {} nodes over 3 symbols; inputs that begin with a word of at most 1 symbol and repeat one of 1 to 3 to 300 symbols: the work for starting, for each single symbol, for copying and finishing, and for match_pattern, against the most transitions a state has", size), total, move |i, ctx| {
            thread_local! { static G: std::cell::RefCell<Option<Rc<Grammar>>> = std::cell::RefCell::new(None); static WORDS: (Vec<Vec<u8>>, Vec<Vec<u8>>) = (strings(3, 1), strings(3, 3).into_iter().filter(|w| !w.is_empty()).collect()); }
            let g = G.with(|g| g.borrow_mut().get_or_insert_with(|| Rc::new(Grammar::new(atoms3(0, 1, 2), unaries(), false, size))).clone());
            let p = g.get(i);
            let dfa = prepare(&vec![(p.clone(), 1)]);
            let wide = widest(&dfa);
            WORDS.with(|w| { for lead in &w.0 { for word in &w.1 { match_case(&p, &dfa, wide, lead, word, 300, ctx)?; } } Ok(()) })
        }));
    }
    {
        let all = sets();
        let n_sets = all.len() as u64;
        let words: Vec<Vec<u8>> = strings(4, t.pick(3, 5)).into_iter().filter(|w| !w.is_empty()).collect();
        let n = t.pick(1500u64, 4000);
        f.push(family("long-matches", format!("{} matchers over inputs that repeat each of {} words to 20000 symbols", n_sets, words.len()), n_sets * words.len() as u64, {
            let (all, words) = (all.clone(), words.clone());
            move |i, ctx| {
                let (set, word) = (&all[(i % n_sets) as usize], &words[(i / n_sets) as usize]);
                let dfa = prepare(set);
                match_case(&set[0].0, &dfa, widest(&dfa), &[], word, 20_000, ctx)
            }
        }));
        f.push(family("tokens", format!("{} sets of tokens over inputs that begin with at most one symbol and repeat each of {} words to {} symbols, asked in 3 ways: the work against the symbols looked at", n_sets, words.len(), n), n_sets * words.len() as u64 * 5 * 3, move |i, ctx| {
            let d = digits(i, &[3, 5, n_sets, words.len() as u64]);
            let set = &all[d[2] as usize];
            let dfa = prepare(set);
            let lead: Vec<u8> = if d[1] == 4 { vec![] } else { vec![d[1] as u8] };
            tokens(set, &dfa, widest(&dfa), &lead, &words[d[3] as usize], d[0], n, ctx)
        }));
    }
    for len in 0..=t.pick(5usize, 7) {
        f.push(family(&format!("stacks-{}", len), format!("every stack of {} layers (mapped, filtered, boxed, tape that is never cut, second half of a split whose first half reads nothing, half whose other half is gone) over a source of {} symbols", len, LONG), LAYERS.pow(len as u32), move |i, ctx| {
            let layers: Vec<u64> = seq(i, LAYERS, len).into_iter().map(|x| x as u64).collect();
            let mut m = Meter::new(24 * (len as u64 + 1));
            let r = stacked(&layers, Box::new(Source { lead: &[], word: &[], at: 0, end: LONG }), &mut |r| {
                let mut last = None;
                while let Some(w) = r.next_symbol() {
                    if last.map_or(false, |l| l >= w.0) { return Err(format!("{} after {:?}", w.0, last)); }
                    // (what the filters leave out has been read as well)
                    m.add((w.0 - last.unwrap_or(0)) as u64 + 1);
                    last = Some(w.0);
                    m.look()?;
                    ctx.step();
                }
                m.verdict()
            });
            ctx.state(&layers);
            ctx.trace();
            r.map_err(|e| format!("layers {:?} (0 mapped, 1 filtered, 2 boxed, 3 tape, 4 second half, 5 first half): {}", layers, e))
        }));
    }
    {
        let sizes: Vec<usize> = t.pick(vec![1, 2, 17, 100, 1000], vec![1, 2, 3, 17, 64, 100, 500, 1000, 4000]);
        let k = sizes.len() as u64;
        f.push(family("streams", format!("streams of {:?} symbols with a tag over w of every k symbols (k up to 8, w up to k), made from a reader, tagged at once, tokenized, tokenized again, compared, copied, read: the work against the symbols and tags there are; and tagged one by one, each for a pass over the stream", sizes), k * 8 * 8, move |i, ctx| {
            let d = digits(i, &[8, 8, k]);
            let (step, w, n) = (d[0] as usize + 1, d[1] as usize + 1, sizes[d[2] as usize]);
            if w > step { return Ok(()); }
            let run: Set = vec![(P::Inf(1, Box::new(lit(&[0]))), 1), (lit(&[1, 2]), 2)];
            let dfa = prepare(&run);
            // symbols and tags at every level
            fn size(s: &TaggedStream<W, u8>) -> u64 { (0..s.len()).map(|k| 1 + match &s[k] { TagSymbol::Tagged(_, x) => size(x), _ => 0 }).sum() }
            let ranges = || (0..n / step).map(move |k| (k * step..k * step + w, (k % 3) as u8));
            let mut at = 0;
            let mut stage = |name: &str, units: u64, before: u64| -> CaseResult {
                at += 1;
                let done = done() - before;
                ctx.step();
                if done > 64 * units + 256 { return Err(format!("{} symbols, a tag over {} of every {}: {} took {} for {} symbols and tags", n, w, step, name, done, units)); }
                Ok(())
            };
            let n64 = n as u64;
            let mut r = Source { lead: &[], word: &[0, 0, 1, 2, 3], at: 0, end: n64 };
            let b = done();
            let s: TaggedStream<W, u8> = TaggedStream::from_reader(&mut r);
            stage("making a stream", n64, b)?;
            let b = done();
            let one = s.with_tags(ranges());
            stage("with_tags", 2 * n64, b)?;
            let b = done();
            let again = one.clone();
            stage("copying", size(&one), b)?;
            let b = done();
            let same = again == one;
            stage("comparing", size(&one), b)?;
            if !same { return Err("a copy differs".into()); }
            let b = done();
            let two = again.tokenize(&dfa, |x| match x { TagSymbol::Untagged(u) => u, TagSymbol::Tagged(t, _) => W(t as u32) });
            stage("tokenizing a tagged stream", 2 * size(&one), b)?;
            let b = done();
            let three = two.tokenize(&dfa, |x| match x { TagSymbol::Untagged(u) => u, TagSymbol::Tagged(t, _) => W(t as u32) });
            stage("tokenizing it again", 2 * size(&two), b)?;
            let b = done();
            let mut r = three.read_symbols();
            while let Some(x) = r.next_symbol() { drop(x); }
            stage("reading", size(&three), b)?;
            let b = done();
            let flat: TaggedStream<W, u8> = TaggedStream::from_tokenized_reader(&mut Source { lead: &[], word: &[0, 0, 1, 2, 3], at: 0, end: n64 }, &dfa);
            stage("tokenizing a reader", 2 * n64, b)?;
            let z = size(&flat);
            let b = done();
            drop(flat);
            stage("dropping", z, b)?;
            if n <= 1000 {
                let b = done();
                let mut each = s.clone();
                let mut passes = 1;
                for (r, t) in ranges().collect::<Vec<_>>().into_iter().rev() { each.tag(t, r); passes += 1; }
                stage("tagging one by one", 2 * n64 * passes, b)?;
                if each != one { return Err("tagged one by one differs".into()); }
            }
            ctx.state(&(n, step, w, size(&three)));
            ctx.trace();
            Ok(())
        }));
    }
    f.push(family("bytes", "reading bytes from a source that gives them in pieces of up to 1 to 4096: how often it is asked, and memory requested".into(), 14, |i, ctx| {
        struct Pieces { left: usize, piece: usize, calls: u64 }
        impl std::io::Read for Pieces { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.calls += 1; let k = self.left.min(self.piece).min(b.len()); self.left -= k; for x in &mut b[..k] { *x = 7; } Ok(k) } }
        let piece = [1usize, 2, 3, 7, 64, 1000, 4096][(i % 7) as usize];
        let mut src = Pieces { left: 20_000, piece, calls: 0 };
        let before = done();
        {
            if i < 7 {
                let mut r = ByteSymbolReader::from(&mut src);
                for k in 0..20_000 { if r.next_symbol() != Some(7) { return Err(format!("byte {}", k)); } ctx.step(); }
                if r.next_symbol() != None { return Err("no end".into()); }
            } else {
                let mut r = ByteSymbolReader::new(std::io::Read::bytes(&mut src));
                for k in 0..20_000 { if r.next_symbol() != Some(7) { return Err(format!("byte {}", k)); } ctx.step(); }
                if r.next_symbol() != None { return Err("no end".into()); }
            }
        }
        let w = done() - before;
        ctx.state(&i);
        ctx.trace();
        if w > 60_000 || src.calls > 40_002 { return Err(format!("20000 bytes in pieces of up to {}: {} requests for memory, {} reads", piece, w, src.calls)); }
        Ok(())
    }));
    f.push(family("time", format!("{} operations on streams of 256 to 131072 symbols: the processor time for a symbol of a long stream against that of a short one", TIMED), TIMED, |i, ctx| time_case(i, ctx)));
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C31",
        level: "model_checking",
        assumptions: vec![
            "work is counted as copies, comparisons and releases of symbols, requests for memory, and reads of the source; what is none of these is seen only in processor time, where a factor of 100 between a stream of up to 1024 symbols and one of up to 131072 is allowed".into(),
        ],
        families,
    })
}
