//! C16: both halves of a split reader see the whole stream, however they are used.
use concordance::*;
use mc::engine::*;
use mc::space::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// How many instances of each symbol exist, and how often the source was asked
#[derive(Default)]
struct Log { live: RefCell<Vec<i64>>, calls: Cell<usize> }

struct Item { id: usize, log: Rc<Log> }
impl Item {
    fn new(id: usize, log: &Rc<Log>) -> Item {
        let mut l = log.live.borrow_mut();
        if l.len() <= id { l.resize(id + 1, 0); }
        l[id] += 1;
        Item { id, log: log.clone() }
    }
}
impl Clone for Item { fn clone(&self) -> Item { Item::new(self.id, &self.log) } }
impl Drop for Item { fn drop(&mut self) { self.log.live.borrow_mut()[self.id] -= 1; } }

struct Source { next: usize, len: usize, log: Rc<Log> }
impl SymbolReader<Item> for Source {
    fn next_symbol(&mut self) -> Option<Item> {
        self.log.calls.set(self.log.calls.get() + 1);
        if self.next < self.len { self.next += 1; Some(Item::new(self.next - 1, &self.log)) } else { None }
    }
}

type Half = SplitSymbolReader<'static, Item>;

enum Reader { Root(*mut Source), Half(*mut Half), Gone }

struct Node { reader: Reader, parent: Option<usize>, kids: Option<(usize, usize)>, pos: usize, /// reads, counting those that found the end
    reads: usize, depth: usize }

/// The tree of readers. Only leaves are used; dropping both halves of a split frees its reader again.
struct Tree { nodes: Vec<Node>, len: usize, log: Rc<Log>, history: Vec<String>, /// compared in full only every so many operations
    sparse: usize, ops: usize }

impl Tree {
    fn new(len: usize) -> Tree {
        let log = Rc::new(Log::default());
        let src = Box::into_raw(Box::new(Source { next: 0, len, log: log.clone() }));
        Tree { nodes: vec![Node { reader: Reader::Root(src), parent: None, kids: None, pos: 0, reads: 0, depth: 0 }], len, log, history: vec![], sparse: 1, ops: 0 }
    }
    fn alive(&self, n: usize) -> bool { !matches!(self.nodes[n].reader, Reader::Gone) }
    fn usable(&self, n: usize) -> bool { self.alive(n) && self.nodes[n].kids.is_none() }
    fn fail(&self, e: String) -> String { format!("source of {} symbols; {}: {}", self.len, self.history.join(", "), e) }

    fn note(&mut self, e: String) {
        let times = format!("{} x ", e);
        if self.sparse == 1 { self.history.push(e); return; }
        match self.history.last_mut() {
            Some(l) if l.starts_with(&times) => { let k: usize = l[times.len()..].parse().unwrap(); *l = format!("{}{}", times, k + 1); }
            _ => self.history.push(times + "1"),
        }
    }
    fn read(&mut self, n: usize, ctx: &mut Ctx) -> CaseResult {
        self.note(format!("read {}", n));
        ctx.step();
        let got = panics(|| unsafe {
            match self.nodes[n].reader { Reader::Root(s) => (*s).next_symbol(), Reader::Half(h) => (*h).next_symbol(), Reader::Gone => unreachable!() }
        }).map_err(|e| self.fail(format!("panic: {}", e)))?;
        let want = if self.nodes[n].pos < self.len { Some(self.nodes[n].pos) } else { None };
        let got = got.map(|x| x.id);
        if got != want { return Err(self.fail(format!("got {:?}, expected {:?}", got, want))); }
        // progress of this reader and of those it reads from
        self.nodes[n].reads += 1;
        if want.is_some() { self.nodes[n].pos += 1; }
        let mut at = n;
        while let Some(p) = self.nodes[at].parent {
            self.nodes[p].pos = self.nodes[p].pos.max(self.nodes[at].pos);
            self.nodes[p].reads = self.nodes[p].reads.max(self.nodes[at].reads);
            at = p;
        }
        self.ops += 1;
        if self.ops % self.sparse != 0 && self.nodes[n].pos < self.len && self.nodes[n].reads % self.sparse != 0 { return Ok(()); }
        self.check(ctx)
    }
    fn split(&mut self, n: usize, ctx: &mut Ctx) -> CaseResult {
        self.note(format!("split {} into {} and {}", n, self.nodes.len(), self.nodes.len() + 1));
        ctx.step();
        let (a, b): (Half, Half) = unsafe {
            match self.nodes[n].reader { Reader::Root(s) => (*s).split(), Reader::Half(h) => (*h).split(), Reader::Gone => unreachable!() }
        };
        let k = self.nodes.len();
        let (pos, reads, depth) = (self.nodes[n].pos, self.nodes[n].reads, self.nodes[n].depth + 1);
        for h in [a, b] {
            self.nodes.push(Node { reader: Reader::Half(Box::into_raw(Box::new(h))), parent: Some(n), kids: None, pos, reads, depth });
        }
        self.nodes[n].kids = Some((k, k + 1));
        self.check(ctx)
    }
    fn drop_half(&mut self, n: usize, ctx: &mut Ctx) -> CaseResult {
        self.note(format!("drop {}", n));
        self.ops = 0;
        ctx.step();
        let r = std::mem::replace(&mut self.nodes[n].reader, Reader::Gone);
        if let Reader::Half(h) = r {
            panics(|| unsafe { drop(Box::from_raw(h)) }).map_err(|e| self.fail(format!("panic: {}", e)))?;
        }
        let p = self.nodes[n].parent.unwrap();
        let (a, b) = self.nodes[p].kids.unwrap();
        if !self.alive(a) && !self.alive(b) { self.nodes[p].kids = None; }
        self.check(ctx)
    }
    fn check(&self, ctx: &mut Ctx) -> CaseResult {
        // the source is asked no more often than the furthest reader has read
        let r = &self.nodes[0];
        let calls = self.log.calls.get();
        if calls > r.reads { return Err(self.fail(format!("the source was asked {} times, the furthest reader has read {} times", calls, r.reads))); }
        // a symbol still held must be unread by some remaining reader
        let low = (0..self.nodes.len()).filter(|n| self.alive(*n) && *n != 0).map(|n| self.nodes[n].pos).min().unwrap_or(usize::MAX);
        for (id, n) in self.log.live.borrow().iter().enumerate() {
            if *n < 0 { return Err(self.fail(format!("symbol {} freed twice", id))); }
            if *n > 0 && id < low { return Err(self.fail(format!("symbol {} is still kept, but every remaining reader has read it", id))); }
        }
        let shape: Vec<(usize, usize, bool, Option<usize>)> = self.nodes.iter().enumerate().map(|(i, n)| (n.pos, n.reads, self.alive(i), n.parent)).collect();
        ctx.state(&(&shape, self.len));
        Ok(())
    }
    /// Everything left is read to the end (and once more), dropped, and the source read on
    fn finish(&mut self, how: usize, ctx: &mut Ctx) -> CaseResult {
        let mut order: Vec<usize> = (1..self.nodes.len()).filter(|n| self.usable(*n)).collect();
        if how == 1 { order.reverse(); }
        if how < 2 {
            for n in &order { while self.nodes[*n].pos < self.len { self.read(*n, ctx)?; } self.read(*n, ctx)?; }
        }
        loop {
            let mut todo: Vec<usize> = (1..self.nodes.len()).filter(|n| self.usable(*n)).collect();
            if how % 2 == 1 { todo.reverse(); }
            if todo.is_empty() { break; }
            for n in todo { self.drop_half(n, ctx)?; }
        }
        for _ in 0..3 { self.read(0, ctx)?; }
        if self.log.live.borrow().iter().any(|n| *n != 0) { return Err(self.fail("symbols are left over after everything was dropped".into())); }
        if let Reader::Root(s) = std::mem::replace(&mut self.nodes[0].reader, Reader::Gone) { unsafe { drop(Box::from_raw(s)) } }
        ctx.trace();
        ctx.outcome(&format!("{} readers", self.nodes.len()));
        ctx.sample(|| self.history.join(", "));
        Ok(())
    }
}

/// All interleavings of `depth` operations on the tree; splits up to `levels` deep and at most
/// `max_nodes` readers.
fn schedules(prefix: &[usize], len: usize, depth: usize, levels: usize, max_nodes: usize, finals: usize, ctx: &mut Ctx) -> CaseResult {
    explore(prefix, |ch| {
        let mut t = Tree::new(len);
        let lead = ch.choose(2);
        for _ in 0..lead { t.read(0, ctx)?; }
        t.split(0, ctx)?;
        for _ in 0..depth {
            // enabled operations
            let mut en: Vec<(u8, usize)> = vec![];
            for n in 0..t.nodes.len() {
                if !t.usable(n) { continue; }
                en.push((0, n));
                if n != 0 { en.push((1, n)); }
                if t.nodes[n].depth < levels && t.nodes.len() + 2 <= max_nodes { en.push((2, n)); }
            }
            let (op, n) = en[ch.choose(en.len())];
            match op { 0 => t.read(n, ctx)?, 1 => t.drop_half(n, ctx)?, _ => t.split(n, ctx)? }
        }
        let how = ch.choose(finals);
        t.finish(how, ctx)
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    // prefix: lead, then the first choices
    f.push({
        let d = t.pick(11usize, 14);
        family("one-split", format!("all interleavings of {} operations (read or drop either half, then read the source; split again at most once more) after 0 or 1 symbols were read before the split; sources of 0, 3 and {} symbols; four ways to finish", d, d + 2), 3 * 2 * 4 * 4 * 4, move |i, ctx| {
            let g = digits(i, &[4, 4, 4, 2, 3]);
            schedules(&[g[3] as usize, g[2] as usize, g[1] as usize, g[0] as usize], [0, 3, d + 2][g[4] as usize], d, 1, 3, 4, ctx)
        })
    });
    f.push({
        let d = t.pick(7usize, 9);
        family("split-again", format!("all interleavings of {} operations where the source may be split a second time once free", d), 2 * 2 * 6 * 6, move |i, ctx| {
            let g = digits(i, &[6, 6, 2, 2]);
            schedules(&[g[2] as usize, g[1] as usize, g[0] as usize], [2, 6][g[3] as usize], d, 1, 5, 2, ctx)
        })
    });
    f.push({
        let d = t.pick(7usize, 8);
        family("nested", format!("all interleavings of {} operations with halves split again (two levels, at most 7 readers)", d), 2 * 2 * 6 * 9 * 9, move |i, ctx| {
            let g = digits(i, &[9, 9, 6, 2, 2]);
            schedules(&[g[3] as usize, g[2] as usize, g[1] as usize, g[0] as usize], [2, 9][g[4] as usize], d, 2, 7, 2, ctx)
        })
    });
    f.push({
        let d = t.pick(6usize, 7);
        family("deep", format!("all interleavings of {} operations, three levels of splitting, at most 9 readers", d), 2 * 6 * 9 * 12, move |i, ctx| {
            let g = digits(i, &[12, 9, 6, 2]);
            schedules(&[g[3] as usize, g[2] as usize, g[1] as usize, g[0] as usize], 5, d, 3, 9, 1, ctx)
        })
    });
    // long distances between the halves
    {
        let n = t.pick(24u64, 48);
        f.push(family("distances", format!("first reads a, second reads b, first reads c, then one of them is dropped and the other reads d, for all a, b, c < {} and d in (0, 1, 2, 17, 40), either one dropped, four ways to finish", n), n * n * n * 5 * 2 * 4, move |i, ctx| {
            let d = digits(i, &[4, 2, 5, n, n, n]);
            let mut t = Tree::new((d[3] + d[4]) as usize + 12);
            t.split(0, ctx)?;
            for _ in 0..d[5] { t.read(1, ctx)?; }
            for _ in 0..d[4] { t.read(2, ctx)?; }
            for _ in 0..d[3] { t.read(1, ctx)?; }
            t.drop_half(1 + d[1] as usize, ctx)?;
            for _ in 0..[0, 1, 2, 17, 40][d[2] as usize] { t.read(2 - d[1] as usize, ctx)?; }
            t.finish(d[0] as usize, ctx)
        }));
    }
    f.push(family("far", "one half n symbols ahead of the other (n up to 5000), then the other catches up, or is dropped, or splits".into(), 10 * 4 * 4, |i, ctx| {
        let d = digits(i, &[4, 4, 10]);
        let n = [31usize, 32, 33, 63, 64, 65, 127, 128, 1000, 1500][d[2] as usize];
        let mut t = Tree::new(n + 9);
        t.split(0, ctx)?;
        for _ in 0..n { t.read(1, ctx)?; }
        match d[1] {
            0 => for _ in 0..n + 3 { t.read(2, ctx)?; },
            1 => t.drop_half(2, ctx)?,
            2 => { t.split(2, ctx)?; for _ in 0..n / 2 { t.read(3, ctx)?; } t.drop_half(3, ctx)?; t.read(4, ctx)?; }
            _ => { t.read(2, ctx)?; t.drop_half(1, ctx)?; t.read(2, ctx)?; }
        }
        t.finish(d[0] as usize, ctx)
    }));
    f.push(family("huge", "one half up to 131073 symbols ahead of the other, then the other catches up, is dropped, or splits; or both go on in steps of n/3".into(), 8 * 5 * 4, |i, ctx| {
        let d = digits(i, &[4, 5, 8]);
        let n = [4095usize, 4096, 4097, 10_000, 65_535, 65_536, 70_000, 131_073][d[2] as usize];
        let mut t = Tree::new(n + 9);
        t.sparse = 4999;
        t.split(0, ctx)?;
        match d[1] {
            0 => { for _ in 0..n { t.read(1, ctx)?; } for _ in 0..n + 3 { t.read(2, ctx)?; } }
            1 => { for _ in 0..n { t.read(2, ctx)?; } t.drop_half(1, ctx)?; for _ in 0..5 { t.read(2, ctx)?; } }
            2 => { for _ in 0..n { t.read(1, ctx)?; } t.split(2, ctx)?; for _ in 0..n / 2 { t.read(3, ctx)?; } t.drop_half(3, ctx)?; t.read(4, ctx)?; }
            3 => { for _ in 0..n { t.read(1, ctx)?; } for _ in 0..n / 3 { t.read(2, ctx)?; } t.drop_half(1, ctx)?; for _ in 0..n / 2 { t.read(2, ctx)?; } }
            _ => for k in 0..5 { for _ in 0..n / 3 { t.read(1 + k % 2, ctx)?; } }
        }
        t.finish(d[0] as usize, ctx)
    }));
    // the library's own sources
    f.push(family("sources", "all strings of 8 read-first/read-second choices over a str, a Vec and a mapped reader, the rest read through to_vec".into(), 256 * 3, |i, ctx| {
        let d = digits(i, &[256, 3]);
        let text = "pqrst";
        let v: Vec<char> = text.chars().collect();
        fn go<R: SymbolReader<char>>(mut r: R, bits: u64, ctx: &mut Ctx) -> CaseResult {
            let all = ['p', 'q', 'r', 's', 't'];
            {
                let (mut a, mut b) = r.split();
                let mut p = [0usize; 2];
                for k in 0..8 {
                    let x = (bits >> k & 1) as usize;
                    let got = if x == 0 { a.next_symbol() } else { b.next_symbol() };
                    ctx.step();
                    if got != all.get(p[x]).cloned() { return Err(format!("schedule {:08b} (low bit first), read {}: {:?}", bits, k, got)); }
                    p[x] += 1;
                }
                let (ra, rb) = (a.to_vec(), b.to_vec());
                if ra != all[p[0].min(5)..] || rb != all[p[1].min(5)..] { return Err(format!("schedule {:08b}: the rest was {:?} and {:?}", bits, ra, rb)); }
            }
            ctx.trace();
            if r.next_symbol().is_some() { return Err("the source has symbols left".into()); }
            Ok(())
        }
        match d[1] { 0 => go(text.read_symbols(), d[0], ctx), 1 => go(v.read_symbols(), d[0], ctx), _ => go(v.read_symbols().map_symbols(|x| x), d[0], ctx) }
    }));
    f
}

fn main() {
    mc::engine::main(Check { property: "C16", level: "model_checking", assumptions: vec!["the source keeps reporting its end once it has reported it".into(), "trees deeper than three levels are not explored".into()], families })
}
