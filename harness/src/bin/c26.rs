//! C26: readers stacked on readers deliver the composition of what each does, on demand.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use std::cell::Cell;
use std::collections::VecDeque;
use std::rc::Rc;

type Set = Vec<(P, u8)>;
type Dfa = SymbolRangeDfa<u8, u8>;
type Dyn<'a> = Box<dyn SymbolReader<u8> + 'a>;

/// Symbols are 0, 1, 2 throughout: what a layer delivers can be read by any other
fn sets() -> &'static [Set] {
    static SETS: std::sync::OnceLock<Vec<Set>> = std::sync::OnceLock::new();
    SETS.get_or_init(|| { let mut v = own_sets(); v.extend(bank_sets()); v })
}

const OWN: usize = 4;

/// Every pattern and every pair of patterns (in order, with outputs 0 and 1, or 2 and 1) of a bank
fn bank_sets() -> Vec<Set> {
    let inf = |m: u32, p: P| P::Inf(m, Box::new(p));
    // (no bounded repetition: its machine reads a last copy that leads nowhere, which matching may do)
    let bank = vec![
        lit(&[0]), lit(&[1]), lit(&[2]), lit(&[1, 1]), lit(&[0, 1, 2]), lit(&[0, 1, 1, 2]),
        P::All(vec![lit(&[0]), inf(0, lit(&[1])), lit(&[2])]),
        P::All(vec![inf(0, lit(&[0])), lit(&[1])]),
        inf(1, lit(&[0, 1])), inf(0, P::Range(0, 1)), P::Range(0, 2),
        P::All(vec![P::Any(vec![P::Eps, lit(&[0])]), lit(&[1])]),
        P::All(vec![inf(0, P::Range(0, 2)), lit(&[2])]),
        P::Any(vec![lit(&[0, 0]), lit(&[1, 2, 1])]),
        P::Any(vec![lit(&[0]), lit(&[2]), lit(&[0, 2, 0]), lit(&[2, 0, 0, 2])]),
    ];
    let mut v: Vec<Set> = bank.iter().map(|p| vec![(p.clone(), 0)]).collect();
    for (i, p) in bank.iter().enumerate() { for (j, q) in bank.iter().enumerate() { v.push(vec![(p.clone(), if i < j { 0 } else { 2 }), (q.clone(), 1)]); } }
    v
}

/// Machines for all of the sets, prepared once in every thread
fn dfas() -> &'static [Dfa] {
    thread_local! { static D: std::cell::OnceCell<&'static [Dfa]> = std::cell::OnceCell::new(); }
    D.with(|d| *d.get_or_init(|| Box::leak(sets().iter().map(prepare).collect::<Vec<_>>().into_boxed_slice())))
}

fn own_sets() -> Vec<Set> {
    let inf = |m: u32, p: P| P::Inf(m, Box::new(p));
    vec![
        // every symbol a token
        vec![(lit(&[0]), 1), (lit(&[1]), 2), (lit(&[2]), 0)],
        // runs; 2 starts no token
        vec![(inf(1, lit(&[0])), 0), (lit(&[1]), 1)],
        // look-ahead that fails
        vec![(lit(&[0]), 0), (P::All(vec![lit(&[0]), inf(0, lit(&[1])), lit(&[2])]), 2), (P::Range(1, 2), 1)],
        // the empty match is no token
        vec![(inf(0, lit(&[1, 2])), 1), (lit(&[0, 0]), 2)],
    ]
}

fn axis() -> Axis<u8> { Axis::new(vec![0, 1, 2, 3]) }

fn prepare(set: &Set) -> Dfa {
    let ax = axis();
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(ax.pattern(p), *o); }
    m.prepare_to_match()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Layer {
    /// x becomes x + 1, 2 becomes 0
    Map,
    /// 2s are left out, by an iterator
    Filter,
    Tape,
    /// two are read from a tape, one is given back
    TapeBack,
    /// two are read from a tape, which is cut there; one more is read and given back
    TapeCut,
    /// the other half is dropped at once
    First,
    /// the other half reads two and is dropped
    Second,
    /// the other half follows one step behind
    Leads,
    /// the other half is one step ahead
    Follows,
    /// the other half is kept where it is
    Trails,
    /// the other half reads 40 first and is kept
    Ahead,
    /// the other half follows two steps behind, and is dropped after five
    Loses,
    /// the other half stays where it is, and is dropped after six
    Drops,
    Boxed,
    /// collected and read back
    Collected,
    /// output symbols of a tokenizer
    Tokens(usize),
    /// output symbols of an iterated tokenizer, through filter_map
    Iterated(usize),
    /// one token is asked for, one symbol skipped, then output symbols
    Skipped(usize),
}
use Layer::*;

fn layers() -> Vec<Layer> {
    let mut v = vec![Map, Filter, Tape, TapeBack, TapeCut, First, Second, Leads, Follows, Trails, Ahead, Loses, Drops, Boxed, Collected];
    for s in 0..4 { v.push(Tokens(s)); v.push(Iterated(s)); }
    v.push(Skipped(1));
    v.push(Skipped(2));
    v
}

// ---------------------------------------------------------------- the real stack

struct Source { w: Vec<u8>, asked: Rc<Cell<usize>> }
impl SymbolReader<u8> for Source {
    fn next_symbol(&mut self) -> Option<u8> {
        let k = self.asked.get();
        self.asked.set(k + 1);
        self.w.get(k).cloned()
    }
}

struct Leading<'a> { a: SplitSymbolReader<'a, u8>, b: SplitSymbolReader<'a, u8>, first: bool, bad: Rc<Cell<bool>>, last: Option<Option<u8>> }
impl<'a> SymbolReader<u8> for Leading<'a> {
    fn next_symbol(&mut self) -> Option<u8> {
        if self.first {
            // deliver from a, b repeats what a gave the last time
            let x = self.a.next_symbol();
            if let Some(l) = self.last.take() { if self.b.next_symbol() != l { self.bad.set(true); } }
            self.last = Some(x);
            x
        } else {
            let x = match self.last.take() { Some(x) => x, None => self.b.next_symbol() };
            let y = self.a.next_symbol();
            if x != y { self.bad.set(true); }
            // b goes one ahead only once a has delivered something
            y
        }
    }
}

/// Delivers from one half and keeps the other
struct Keeping<'a> { from: SplitSymbolReader<'a, u8>, _other: SplitSymbolReader<'a, u8> }
impl<'a> SymbolReader<u8> for Keeping<'a> {
    fn next_symbol(&mut self) -> Option<u8> { self.from.next_symbol() }
}

struct Losing<'a> { a: SplitSymbolReader<'a, u8>, b: Option<SplitSymbolReader<'a, u8>>, read: VecDeque<Option<u8>>, lag: usize, dropped: usize, count: usize, bad: Rc<Cell<bool>> }
impl<'a> SymbolReader<u8> for Losing<'a> {
    fn next_symbol(&mut self) -> Option<u8> {
        let x = self.a.next_symbol();
        self.count += 1;
        self.read.push_back(x);
        if self.count > self.lag { if let Some(b) = &mut self.b { if b.next_symbol() != self.read.pop_front().unwrap() { self.bad.set(true); } } }
        if self.count == self.dropped { self.b = None; }
        x
    }
}

struct Ctl<'c> { dfas: &'c [Dfa], bad: Rc<Cell<bool>> }

fn real<'a>(l: &[Layer], r: Dyn<'a>, c: &'a Ctl<'a>, f: &mut dyn FnMut(&mut dyn SymbolReader<u8>) -> CaseResult) -> CaseResult {
    let mut r = r;
    if l.is_empty() { return f(&mut r); }
    let rest = &l[1..];
    match l[0] {
        Map => real(rest, Box::new(r.map_symbols(|x: u8| (x + 1) % 3)), c, f),
        Filter => real(rest, Box::new(std::iter::from_fn(move || r.next_symbol()).filter_map(|x| if x == 2 { None } else { Some(x) })), c, f),
        Tape => real(rest, Box::new(concordance::Tape::new(r)), c, f),
        TapeBack => {
            let mut t = concordance::Tape::new(r);
            let n = t.next_symbol().is_some() as usize + t.next_symbol().is_some() as usize;
            t.rewind(n.min(1));
            real(rest, Box::new(t), c, f)
        }
        TapeCut => {
            let mut t = concordance::Tape::new(r);
            t.next_symbol();
            t.next_symbol();
            t.cut();
            if t.next_symbol().is_some() { t.rewind(1); }
            real(rest, Box::new(t), c, f)
        }
        First => { let (a, b) = r.split(); drop(b); real_short(rest, Box::new(a), c, f) }
        Second => { let (mut a, b) = r.split(); a.next_symbol(); a.next_symbol(); drop(a); real_short(rest, Box::new(b), c, f) }
        Leads | Follows => {
            let (a, b) = r.split();
            real_short(rest, Box::new(Leading { a, b, first: l[0] == Leads, bad: c.bad.clone(), last: None }), c, f)
        }
        Trails => { let (a, b) = r.split(); real_short(rest, Box::new(Keeping { from: a, _other: b }), c, f) }
        Ahead => { let (mut a, b) = r.split(); for _ in 0..40 { a.next_symbol(); } real_short(rest, Box::new(Keeping { from: b, _other: a }), c, f) }
        Loses => { let (a, b) = r.split(); real_short(rest, Box::new(Losing { a, b: Some(b), read: VecDeque::new(), lag: 2, dropped: 5, count: 0, bad: c.bad.clone() }), c, f) }
        Drops => { let (a, b) = r.split(); real_short(rest, Box::new(Losing { a, b: Some(b), read: VecDeque::new(), lag: 6, dropped: 6, count: 0, bad: c.bad.clone() }), c, f) }
        Boxed => { let b: Dyn = Box::new(r); let b: Dyn = Box::new(b); real(rest, b, c, f) }
        Collected => { let v = r.to_vec(); real(rest, Box::new(VecReader::from_vec(v)), c, f) }
        Tokens(s) => real(rest, Box::new(Tokenizer::new_prepared(r, &c.dfas[s])), c, f),
        Iterated(s) => real(rest, Box::new(Tokenizer::new_prepared(r, &c.dfas[s]).filter_map(|(_, o)| Some(o))), c, f),
        Skipped(s) => {
            let mut t = Tokenizer::new_prepared(r, &c.dfas[s]);
            t.next_token();
            t.skip_input();
            real(rest, Box::new(t), c, f)
        }
    }
}
/// With a shorter lifetime
fn real_short<'b>(l: &[Layer], r: Dyn<'b>, c: &Ctl, f: &mut dyn FnMut(&mut dyn SymbolReader<u8>) -> CaseResult) -> CaseResult {
    let c2 = Ctl { dfas: c.dfas, bad: c.bad.clone() };
    fn go<'x>(l: &[Layer], r: Dyn<'x>, c: &'x Ctl<'x>, f: &mut dyn FnMut(&mut dyn SymbolReader<u8>) -> CaseResult) -> CaseResult { real(l, r, c, f) }
    go(l, r, &c2, f)
}

// ---------------------------------------------------------------- the reference

type Model = Box<dyn FnMut() -> Option<u8>>;

/// Longest token at the beginning of `buf`, which is filled only as far as the token can still grow
fn lookahead(set: usize, buf: &mut VecDeque<u8>, ended: &mut bool, src: &mut Model) -> Option<(usize, u8)> {
    thread_local! { static REF: std::cell::RefCell<Vec<RefAutomaton<u8>>> = std::cell::RefCell::new(sets().iter().map(|s| RefAutomaton::new(s)).collect()); }
    let step = |st: u32, x: u8| REF.with(|r| { let r = &mut r.borrow_mut()[set]; let n = r.step(st, x); (n, r.is_empty(n), r.output(n)) });
    let mut st = 0;
    let mut best = None;
    let mut i = 0;
    loop {
        if i == buf.len() {
            if *ended { break; }
            match src() { Some(x) => buf.push_back(x), None => { *ended = true; break; } }
        }
        let (n, dead, out) = step(st, buf[i]);
        st = n;
        i += 1;
        if dead { break; }
        if let Some(o) = out { best = Some((i, o)); }
    }
    best
}

fn model(l: &[Layer], mut src: Model) -> Model {
    for layer in l {
        let below = src;
        src = match *layer {
            Map => { let mut b = below; Box::new(move || b().map(|x| (x + 1) % 3)) }
            Filter => { let mut b = below; Box::new(move || loop { match b() { Some(2) => {} x => return x } }) }
            Boxed | First | Leads | Follows | Trails | Loses | Drops => below,
            Tape => fused(below, vec![], false),
            TapeBack => {
                let mut b = below;
                let (x, mut ended) = (b(), false);
                let y = if x.is_some() { b() } else { None };
                if y.is_none() { ended = true; }
                fused(b, y.or(x).into_iter().collect(), ended)
            }
            TapeCut => {
                let mut b = below;
                let mut ended = false;
                let mut last = None;
                for _ in 0..3 { last = None; if !ended { last = b(); ended = last.is_none(); } }
                fused(b, last.into_iter().collect(), ended)
            }
            Second | Ahead => {
                let mut b = below;
                let mut q: VecDeque<Option<u8>> = (0..if *layer == Second { 2 } else { 40 }).map(|_| b()).collect();
                Box::new(move || match q.pop_front() { Some(x) => x, None => b() })
            }
            Collected => { let mut b = below; let mut v = VecDeque::new(); while let Some(x) = b() { v.push_back(x); } Box::new(move || v.pop_front()) }
            Tokens(s) | Iterated(s) | Skipped(s) => {
                let set = s;
                let (mut buf, mut ended, mut b) = (VecDeque::new(), false, below);
                if let Skipped(_) = layer {
                    if let Some((n, _)) = lookahead(set, &mut buf, &mut ended, &mut b) { buf.drain(..n); }
                    if buf.is_empty() && !ended { match b() { Some(x) => buf.push_back(x), None => ended = true } }
                    buf.pop_front();
                }
                let iterate = matches!(layer, Iterated(_));
                Box::new(move || loop {
                    match lookahead(set, &mut buf, &mut ended, &mut b) {
                        Some((n, o)) => { buf.drain(..n); return Some(o); }
                        None if !iterate || buf.is_empty() && ended => return None,
                        None => { buf.pop_front(); }
                    }
                })
            }
        };
    }
    src
}

fn fused(mut b: Model, q: Vec<u8>, mut ended: bool) -> Model {
    let mut q: VecDeque<u8> = q.into();
    Box::new(move || {
        if let Some(x) = q.pop_front() { return Some(x); }
        if ended { return None; }
        let x = b();
        ended = x.is_none();
        x
    })
}

// ---------------------------------------------------------------- comparison

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Top { Read, Match(usize), Stream }

fn check(l: &[Layer], w: &[u8], top: Top, dfas: &[Dfa], ctx: &mut Ctx) -> CaseResult {
    let asked = Rc::new(Cell::new(0));
    let masked = Rc::new(Cell::new(0usize));
    let (m2, w2) = (masked.clone(), w.to_vec());
    let mut m = model(l, Box::new(move || { let k = m2.get(); m2.set(k + 1); w2.get(k).cloned() }));
    let ctl = Ctl { dfas, bad: Rc::new(Cell::new(false)) };
    let src = Source { w: w.to_vec(), asked: asked.clone() };
    let fail = |e: String| Err(format!("{:?} over the source {:?}, {:?}: {}", l, w, top, e));
    let a2 = asked.clone();
    let res = real(l, Box::new(src), &ctl, &mut |r| {
        // reads n symbols beyond the end too
        let read = |r: &mut dyn SymbolReader<u8>, m: &mut Model, ctx: &mut Ctx| -> CaseResult {
            let mut ends = 0;
            let mut k = 0;
            loop {
                ctx.step();
                let (g, want) = (r.next_symbol(), m());
                if g != want { return Err(format!("symbol {} is {:?}, expected {:?}", k, g, want)); }
                if a2.get() > masked.get() { return Err(format!("after symbol {} the source had been asked {} times, {} are enough", k, a2.get(), masked.get())); }
                k += 1;
                if g.is_none() { ends += 1; }
                if ends == 3 { return Ok(()); }
                if k > 3 * w.len() + 200 { return Err("does not end".into()); }
            }
        };
        match top {
            Top::Read => read(r, &mut m, ctx),
            Top::Match(s) => {
                let (mut buf, mut ended) = (VecDeque::new(), false);
                let tok = lookahead(s, &mut buf, &mut ended, &mut m);
                let empty = longest_of(&sets()[s], &[], 0);
                let want = tok.or(empty);
                let got = match match_pattern(dfas[s].start(), r) { Accept(n, o) => Some((n, *o)), Reject => None, More(_) => return Err("more".into()) };
                if got != want { return Err(format!("matching gives {:?}, expected {:?}", got, want)); }
                if a2.get() > masked.get() { return Err(format!("matching asked the source {} times, {} are enough", a2.get(), masked.get())); }
                read(r, &mut m, ctx)
            }
            Top::Stream => {
                let s: TaggedStream<u8, u8> = TaggedStream::from_reader(r);
                let mut want = vec![];
                while let Some(x) = m() { want.push(x); }
                if s.len() != want.len() { return Err(format!("a stream of {} symbols, expected {:?}", s.len(), want)); }
                for i in 0..s.len() { if s[i] != TagSymbol::Untagged(want[i]) { return Err(format!("symbol {} of the stream is {:?}, expected {:?}", i, s[i], want)); } }
                Ok(())
            }
        }
    });
    ctx.trace();
    ctx.state(&(l, w, asked.get()));
    if let Err(e) = res { return fail(e); }
    if ctl.bad.get() { return fail("the halves of a split reader differ".into()); }
    ctx.outcome(&format!("asked {} times for {}", asked.get(), w.len()));
    ctx.sample(|| format!("{:?} over {:?}: source asked {} times", l, w, asked.get()));
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let ls = layers();
    let n = ls.len() as u64;
    let tops = [Top::Read, Top::Match(1), Top::Match(2), Top::Stream];
    let mut f = vec![];
    for (depth, len) in [(0usize, t.pick(6u32, 8)), (1, t.pick(6, 8)), (2, t.pick(6, 7)), (3, t.pick(5, 7)), (4, t.pick(2, 5))] {
        let ls = ls.clone();
        f.push(family(&format!("stacks-{}", depth), format!("every stack of {} of {} layers {:?} over every source of up to {} symbols of 3: read to the end and beyond, matched and read on, made into a stream", depth, n, ls, len), n.pow(depth as u32), move |i, ctx| {
            let l: Vec<Layer> = seq(i, n, depth).into_iter().map(|x| ls[x]).collect();
            for j in 0..string_count(3, len) {
                let w = string(3, j);
                for top in tops {
                    if depth == 4 && top != Top::Read { continue; }
                    check(&l, &w, top, dfas(), ctx)?;
                }
            }
            Ok(())
        }));
    }
    {
        // sources long enough for a buffer, a counter or a stride of 8, 16, 32, 64, 128 or 256 to show: runs
        // (tokens and look-ahead of that length, ended or not) and periodic ones
        let ls = ls.clone();
        let d = t.pick(2usize, 3);
        let lens: Vec<usize> = match t { Tier::Quick => vec![9, 17, 33, 65, 130, 260, 520, 1030], Tier::Thorough => vec![7, 8, 9, 16, 17, 32, 33, 34, 64, 65, 66, 127, 128, 130, 256, 258, 515, 1030, 2060] };
        f.push(family("long", format!("every stack of up to {} layers over sources of {:?} symbols: runs of each symbol, with or without another symbol in front, in the middle or at the end, and periodic ones", d, lens), (0..=d as u32).map(|k| n.pow(k)).sum(), move |i, ctx| {
            let mut i = i;
            let mut k = 0;
            while i >= n.pow(k) { i -= n.pow(k); k += 1; }
            let l: Vec<Layer> = seq(i, n, k as usize).into_iter().map(|x| ls[x]).collect();
            for &m in &lens {
                if k == 3 && m > 70 || k == 2 && m > 300 { continue; }
                for x in 0..3u8 {
                    let y = (x + 1) % 3;
                    let run = vec![x; m];
                    let mut ws = vec![run.clone(), [&[0][..], &run[..], &[2]].concat(), [&[0][..], &run[..], &[0]].concat(), [&run[..], &[y], &run[..]].concat()];
                    ws.push((0..m).map(|j| ((j + x as usize) % 3) as u8).collect());
                    ws.push((0..m).map(|j| ((j / 2 + x as usize) % 3) as u8).collect());
                    if k == 3 { ws.truncate(2); }
                    for w in ws {
                        for top in tops { if k < 2 || top == Top::Read { check(&l, &w, top, dfas(), ctx)?; } }
                    }
                }
            }
            Ok(())
        }));
    }
    {
        // tokenizers for many pattern sets, over and under another layer
        let bottoms = [None, Some(Map), Some(TapeBack), Some(Leads), Some(Loses)];
        let nt = t.pick(3usize, 4);
        let len = t.pick(6u32, 8);
        let total = (sets().len() - OWN) as u64;
        f.push(family("patterns", format!("{} sets of one or two patterns of 15, each tokenized, iterated and tokenized after a skip, straight from the source and over {:?}, with nothing, a tape{} or an iterated tokenizer on top, over every source of up to {} symbols of 3", total, &bottoms[1..], if nt == 4 { ", a split reader" } else { "" }, len), total, move |i, ctx| {
            let s = OWN + i as usize;
            let ws: Vec<Vec<u8>> = (0..string_count(3, len)).map(|j| string(3, j)).collect();
            for b in bottoms { for m in [Tokens(s), Iterated(s), Skipped(s)] { for top in 0..nt {
                let mut l: Vec<Layer> = b.into_iter().collect();
                l.push(m);
                match top { 0 => {} 1 => l.push(Tape), 2 => l.push(Iterated(2)), _ => l.push(Follows) }
                let len = match (b.is_some(), top > 0) { (false, false) => len, (true, true) => len - 2, _ => len - 1 };
                for w in ws.iter().filter(|w| w.len() <= len as usize) { check(&l, w, Top::Read, dfas(), ctx)?; }
            } } }
            Ok(())
        }));
        f.push(family("patterns-matched", format!("{} sets of one or two patterns of 15, matched straight from the source and over every layer, which is then read to its end, over every source of up to {} symbols of 3", total, len - 1), total, move |i, ctx| {
            let s = OWN + i as usize;
            for j in 0..string_count(3, len - 1) {
                let w = string(3, j);
                check(&[], &w, Top::Match(s), dfas(), ctx)?;
                if w.len() + 1 < len as usize { for &x in &layers() { check(&[x], &w, Top::Match(s), dfas(), ctx)?; } }
            }
            Ok(())
        }));
    }
    {
        let words: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 1, 2], vec![0, 0, 1, 1, 2, 0, 2, 1, 0, 0], vec![2, 2, 2, 1], vec![0, 1, 1, 1, 1, 1, 1, 1, 0], vec![1, 2, 1, 2, 0, 0, 0, 0, 1]];
        let ls = ls.clone();
        let d = t.pick(3usize, 4);
        f.push(family("deep", format!("every stack of {} layers, repeated three times on top of itself, over 7 sources", d), n.pow(d as u32), move |i, ctx| {
            let l: Vec<Layer> = seq(i, n, d).into_iter().map(|x| ls[x]).collect();
            let l: Vec<Layer> = [&l[..], &l[..], &l[..]].concat();
            for w in &words { check(&l, w, Top::Read, dfas(), ctx)?; }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C26", level: "model_checking", assumptions: vec!["sources keep reporting the end once they have reported it".into()], families })
}
