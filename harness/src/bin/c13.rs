//! C13: a tape replays its source exactly, and rewinds no further than the cut.
use concordance::*;
use mc::engine::*;
use mc::space::*;
use std::cell::Cell;
use std::rc::Rc;

/// A source that delivers 0, 1, 2, .. and knows how it was used
struct Source { next: usize, len: usize, log: Rc<Log> }
#[derive(Default)]
struct Log { calls: Cell<usize>, after_end: Cell<bool> }
impl SymbolReader<usize> for Source {
    fn next_symbol(&mut self) -> Option<usize> {
        self.log.calls.set(self.log.calls.get() + 1);
        if self.next < self.len {
            self.next += 1;
            Some(self.next - 1 + 1000)
        } else {
            if self.next > self.len { self.log.after_end.set(true); }
            self.next = self.len + 1;
            None
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op { Read(usize), Rewind(usize), /// to the cut
    RewindAll, /// n further than the cut
    RewindTooFar(usize), Cut, Resize }

/// The reference: position, cut, furthest symbol taken, whether the end was reported
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Model { p: usize, c: usize, f: usize, e: bool }

fn run(ops: &[Op], len: usize, ctx: &mut Ctx) -> CaseResult {
    let log = Rc::new(Log::default());
    let mut t = Tape::new(Source { next: 0, len, log: log.clone() });
    let mut m = Model { p: 0, c: 0, f: 0, e: false };
    let fail = |k: usize, e: String| format!("source of {} symbols, operations {:?}: after {} of them: {}", len, ops, k, e);
    for (k, op) in ops.iter().enumerate() {
        let refused = match *op {
            Op::Read(n) => {
                for _ in 0..n {
                    let got = t.next_symbol();
                    ctx.step();
                    let want = if m.p < len { Some(m.p + 1000) } else { None };
                    if m.p < len { m.p += 1; m.f = m.f.max(m.p); } else { m.e = true; }
                    if got != want { return Err(fail(k + 1, format!("read {:?}, expected {:?}", got, want))); }
                    if log.calls.get() != m.f + m.e as usize { return Err(fail(k + 1, format!("the source was asked {} times, expected {}", log.calls.get(), m.f + m.e as usize))); }
                }
                false
            }
            Op::Rewind(_) | Op::RewindAll | Op::RewindTooFar(_) => {
                let n = match *op { Op::Rewind(n) => n, Op::RewindAll => m.p - m.c, Op::RewindTooFar(n) => (m.p - m.c).saturating_add(n), _ => 0 };
                let allowed = n <= m.p - m.c;
                let r = panics(|| t.rewind(n));
                ctx.step();
                match (r, allowed) {
                    (Ok(()), true) => { m.p -= n; false }
                    (Err(_), false) => true,
                    (Ok(()), false) => return Err(fail(k + 1, format!("rewinding by {} from position {} succeeded, but the tape was cut at {}", n, m.p, m.c))),
                    (Err(e), true) => return Err(fail(k + 1, format!("rewinding by {} from position {} (cut at {}) was refused: {}", n, m.p, m.c, e))),
                }
            }
            Op::Cut => { t.cut(); ctx.step(); m.c = m.p; false }
            Op::Resize => { t.resize(); ctx.step(); false }
        };
        ctx.state(&(m, len));
        if refused { ctx.outcome("refused"); break; }
        if t.get_source_position() != m.p { return Err(fail(k + 1, format!("position is {}, expected {}", t.get_source_position(), m.p))); }
        if t.buffer_size() != m.f - m.c { return Err(fail(k + 1, format!("holds {} symbols, expected {}", t.buffer_size(), m.f - m.c))); }
        let end = m.e && m.p == m.f;
        if t.at_end_of_reader() != end { return Err(fail(k + 1, format!("at_end_of_reader is {}, expected {}", t.at_end_of_reader(), end))); }
        if log.after_end.get() { return Err(fail(k + 1, "the source was asked again after it had ended".into())); }
        if log.calls.get() != m.f + m.e as usize { return Err(fail(k + 1, format!("the source was asked {} times, expected {}", log.calls.get(), m.f + m.e as usize))); }
    }
    ctx.trace();
    ctx.outcome(&format!("position {}, cut {}, furthest {}", m.p.min(6), m.c.min(6), m.f.min(6)));
    ctx.sample(|| format!("source {} {:?} -> {:?}", len, ops, m));
    Ok(())
}

fn words(name: &str, ops: Vec<Op>, depth: usize, lens: Vec<usize>) -> Family {
    let b = ops.len() as u64;
    let nl = lens.len() as u64;
    // every sequence ends with a full replay of what is retained and two reads at the end, to see all
    // of the buffer's contents
    family(name, format!("all {} sequences of {} operations from {:?} over sources of {:?} symbols, each followed by a rewind to the cut, a replay to the end and a rewind to the cut again; a refused rewind ends the sequence (those with more than four resizes left out)", b.pow(depth as u32), depth, ops, lens), b.pow(depth as u32) * nl, move |i, ctx| {
        let len = lens[(i % nl) as usize];
        let mut w: Vec<Op> = seq(i / nl, b, depth).into_iter().map(|x| ops[x]).collect();
        // (a tape may grow by any factor each time it is resized: many times over is for "resized" alone)
        if w.iter().filter(|o| **o == Op::Resize).count() > 4 { return Ok(()); }
        w.extend([Op::RewindAll, Op::Read(len + 2), Op::RewindAll, Op::Read(1)]);
        run(&w, len, ctx)
    })
}

fn families(t: Tier) -> Vec<Family> {
    use Op::*;
    let mut f = vec![
        words("primitive", vec![Read(1), Rewind(1), Rewind(2), Cut], t.pick(11, 13), vec![0, 3, 12]),
        words("primitive-resize", vec![Read(1), Rewind(1), Cut, Resize], t.pick(11, 12), vec![2, 12]),
        words("macro", vec![Read(1), Read(2), Read(3), Read(5), Rewind(1), Rewind(2), Rewind(4), RewindAll, Cut], t.pick(6, 7), vec![5, 40]),
        words("bounds", vec![Read(1), Read(3), Read(4), Rewind(1), RewindAll, Cut, RewindTooFar(1), RewindTooFar(2), RewindTooFar(4), RewindTooFar(8), RewindTooFar(usize::MAX)], t.pick(5, 6), vec![3, 30]),
        words("growth", vec![Read(1), Read(7), Read(16), Rewind(6), Rewind(15), RewindAll, Cut, Resize], t.pick(6, 7), vec![20, 200]),
    ];
    {
        let ops = [Read(1), Read(3), Rewind(1), RewindAll, Cut];
        f.push(family("resized", "every sequence of 4 of 5 operations, then 5 to 8 resizes, all at once or with a read, a rewind or a cut between each".into(), 5u64.pow(4) * 4 * 4, move |i, ctx| {
            let d = digits(i, &[5u64.pow(4), 4, 4]);
            let mut w: Vec<Op> = seq(d[0], 5, 4).into_iter().map(|x| ops[x]).collect();
            for _ in 0..5 + d[1] { w.push(Resize); match d[2] { 0 => {} 1 => w.push(Read(1)), 2 => w.push(RewindAll), _ => w.push(Cut) } }
            w.extend([RewindAll, Read(30), RewindAll, Read(1)]);
            run(&w, 25, ctx)
        }));
    }
    // rounds: read a, rewind b, cut, repeated - puts first, read and last at every offset of the ring
    {
        let n = t.pick(9u64, 12);
        f.push(family("rounds", format!("three rounds of (read a, rewind b, cut) with a, b < {} in every combination, then a replay", n), (n * n).pow(3), move |i, ctx| {
            let d = digits(i, &[n, n, n, n, n, n]);
            let mut w = vec![];
            for r in 0..3 {
                let (a, b) = (d[2 * r] as usize, d[2 * r + 1] as usize);
                if b > a { return Ok(()); }
                w.extend([Read(a), Rewind(b), Cut]);
            }
            w.extend([Read(9), RewindAll, Read(60), RewindAll]);
            run(&w, 40, ctx)
        }));
    }
    {
        let n = t.pick(36u64, 70);
        f.push(family("offsets", format!("read a, rewind to the cut, read a, cut, read b, rewind c, cut, resize or not, read everything, for all a, b < {} and c <= b", n), n * n * n * 2, move |i, ctx| {
            let d = digits(i, &[n, n, n, 2]);
            let (a, b, c) = (d[0] as usize, d[1] as usize, d[2] as usize);
            if c > b { return Ok(()); }
            let mut w = vec![Read(a), RewindAll, Read(a), Cut, Read(b), Rewind(c), Cut];
            if d[3] == 1 { w.push(Resize); }
            w.extend([Read(150), RewindAll, RewindTooFar(1)]);
            run(&w, a + b + 20, ctx)
        }));
    }
    f.push(family("cycles", "n cycles of (read a, rewind b, cut) with a up to 20, b < a, for 400 symbols: the ring wraps at every phase of every capacity up to 64".into(), 20 * 20 * 3, |i, ctx| {
        let d = digits(i, &[20, 20, 3]);
        let (a, b) = (d[0] as usize + 1, d[1] as usize);
        if b >= a { return Ok(()); }
        let mut w = vec![];
        match d[2] { 1 => w.extend([Read(40), RewindAll]), 2 => w.extend([Read(5), Rewind(3), Resize]), _ => {} }
        for k in 0..400 / (a - b) {
            w.extend([Read(a), Rewind(b)]);
            if k % 3 != 1 { w.push(Cut); }
        }
        w.extend([RewindAll, Read(500), RewindAll, Read(3)]);
        run(&w, 400, ctx)
    }));
    f.push(family("long", "read n symbols without a cut, rewind r of them, cut, read the rest, rewind to the cut, read again; n up to 70000".into(), 9 * 6, |i, ctx| {
        let n = [255usize, 256, 257, 1023, 1024, 4096, 65535, 65536, 70000][(i % 9) as usize];
        let r = [0, 1, 2, n / 2, n - 1, n][(i / 9) as usize];
        run(&[Read(n), Rewind(r), Cut, Read(n), RewindAll, Read(n + 3), RewindAll, RewindTooFar(1)], n + 7, ctx)
    }));
    // The ring at every capacity and every phase, left with few or many symbols by a cut
    {
        let caps: Vec<usize> = t.pick(vec![4, 8, 16, 32, 64, 128, 256], vec![4, 8, 16, 32, 64, 128, 256, 512, 1024]);
        let left = |cap: usize| -> Vec<usize> { let mut v: Vec<usize> = (0..=9).chain([cap / 4 - 1, cap / 4, cap / 4 + 1, cap / 2 - 1, cap / 2, cap / 2 + 1, cap - 3, cap - 2, cap - 1]).collect(); v.sort(); v.dedup(); v };
        let mut cases = vec![];
        for cap in &caps { for x in 0..2 * cap { for d in left(*cap) { for first in [0, 1, cap / 2] { if d <= x + first && (d <= *cap || x % 7 == 0) { cases.push((*cap, first, x, d)); } } } } }
        f.push(family("ring", format!("the storage grown to a capacity from {:?} by reading without a cut, rewound a little, cut, then read on by every amount up to twice the capacity, rewound by each of 0 to 9 and amounts about a quarter, half and all of the capacity, cut, read, rewound, cut and replayed", caps), cases.len() as u64, move |i, ctx| {
            let (cap, first, x, d) = cases[i as usize];
            let w = [Read(cap - 1), Rewind(first.min(cap - 1)), Cut, Read(x), Rewind(d.min(x + first)), Cut, Read(5), Rewind(2), Cut, Read(cap / 2), RewindAll, Read(cap + 9), RewindAll, Read(4), Cut, Read(9), RewindAll, RewindTooFar(1)];
            run(&w, if i % 3 == 0 { cap - 1 + x } else { 4 * cap + 30 }, ctx)
        }));
    }
    let big: Vec<Op> = vec![Read(1), Read(65_535), Read(65_536), Read(70_000), Rewind(1), Rewind(65_535), Rewind(65_536), RewindAll, RewindTooFar(1), RewindTooFar(65_536), Cut, Resize];
    {
        let big = big.clone();
        let k = big.len() as u64;
        let depth = t.pick(3usize, 4);
        f.push(family("huge", format!("every sequence of {} operations from {:?} over sources of 65536, 65537 and 200000 symbols, each followed by a replay to beyond the end; steps and positions compared after every symbol", depth, big), k.pow(depth as u32) * 3, move |i, ctx| {
            let len = [65_536, 65_537, 200_000][(i % 3) as usize];
            let mut w: Vec<Op> = seq(i / 3, k, depth).into_iter().map(|x| big[x]).collect();
            w.extend([RewindAll, Read(len + 2), RewindAll, Read(1)]);
            run(&w, len, ctx)
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C13", level: "model_checking", assumptions: vec!["sequences longer than the depths stated are covered by the structured families (rounds, offsets, cycles, long)".into()], families })
}
