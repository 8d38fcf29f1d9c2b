//! C24: bounded patterns decide after bounded input; ended sources are left alone.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::scale;
use mc::space::*;

fn axis() -> Axis<u8> { Axis::new(vec![10, 20, 30, 40]) }

/// Delivers `head` and then `cycle` for ever, or the end if there is no cycle
struct Source<'a> { head: &'a [u8], cycle: &'a [u8], taken: usize, ends: usize, budget: usize }
impl<'a> SymbolReader<u8> for Source<'a> {
    fn next_symbol(&mut self) -> Option<u8> {
        if self.taken < self.head.len() {
            self.taken += 1;
            return Some(self.head[self.taken - 1]);
        }
        if self.cycle.is_empty() {
            self.ends += 1;
            if self.ends > 1000 { panic!("asked an ended source 1000 times"); }
            return None;
        }
        if self.taken >= self.budget { panic!("took {} symbols without deciding", self.taken); }
        self.taken += 1;
        Some(self.cycle[(self.taken - 1 - self.head.len()) % self.cycle.len()])
    }
}

/// `check` borrows prepared matchers; `bound` is the most symbols that may be taken from an endless source
fn endless(set: &[(P, u8)], dfa: &SymbolRangeDfa<u8, u8>, bound: u64, head: &[u8], cycle: &[u8], ctx: &mut Ctx) -> CaseResult {
    let ax = axis();
    let (h, c) = (ax.string(head), ax.string(cycle));
    // the answer depends on no more than bound + 1 symbols
    let w: Vec<u8> = head.iter().cloned().chain(cycle.iter().cycle().cloned()).take((bound as usize + 2).max(head.len())).collect();
    let want = if w.len() < 120 { longest_of(set, &w, 0) } else { RefAutomaton::new(set).longest(&w) };
    let mut src = Source { head: &h, cycle: &c, taken: 0, ends: 0, budget: bound as usize + 2 };
    let got = match match_pattern(dfa.start(), &mut src) { Accept(n, o) => Some((n, *o)), Reject => None, More(_) => return Err("more".into()) };
    ctx.step();
    ctx.trace();
    let fail = |e: String| Err(format!("patterns {:?} over {:?} then {:?} for ever: {}", set, h, c, e));
    if got != want { return fail(format!("{:?}, expected {:?}", got, want)); }
    if src.taken as u64 > bound + 1 { return fail(format!("took {} symbols, the pattern allows for {}", src.taken, bound + 1)); }
    if let Some((n, _)) = got { if src.taken < n { return fail(format!("reported {} symbols but took {}", n, src.taken)); } }
    ctx.state(&(fp(set), src.taken, got));
    Ok(())
}

fn ended(set: &[(P, u8)], dfa: &SymbolRangeDfa<u8, u8>, w: &[u8], ctx: &mut Ctx) -> CaseResult {
    let ax = axis();
    let h = ax.string(w);
    let mut src = Source { head: &h, cycle: &[], taken: 0, ends: 0, budget: 0 };
    let got = match match_pattern(dfa.start(), &mut src) { Accept(n, o) => Some((n, *o)), Reject => None, More(_) => return Err("more".into()) };
    ctx.step();
    ctx.trace();
    let fail = |e: String| Err(format!("patterns {:?} over {:?}: {}", set, h, e));
    let want = if w.len() < 120 { longest_of(set, w, 0) } else { RefAutomaton::new(set).longest(w) };
    if got != want { return fail(format!("{:?}, expected {:?}", got, want)); }
    if src.ends > 1 { return fail(format!("the source was asked {} times after its last symbol", src.ends)); }
    if let Some((n, _)) = got { if src.taken < n { return fail(format!("reported {} symbols but took {}", n, src.taken)); } }
    // through a tokenizer: its source is not asked again either
    ctx.state(&(fp(set), src.taken, src.ends, got));
    Ok(())
}

/// The same through `matches`, over a source type of our own
struct Endless<'a>(&'a [u8], std::rc::Rc<std::cell::Cell<usize>>, usize);
impl<'a> SymbolReader<u8> for Endless<'a> {
    fn next_symbol(&mut self) -> Option<u8> {
        let k = self.1.get();
        if k >= self.2 { panic!("took {} symbols without deciding", k); }
        self.1.set(k + 1);
        Some(self.0[k % self.0.len()])
    }
}
impl<'a> SymbolSource<'a, u8> for Endless<'a> {
    type SymbolReader = Endless<'a>;
    fn read_symbols(self) -> Endless<'a> { self }
}

fn prepare(set: &[(P, u8)]) -> SymbolRangeDfa<u8, u8> {
    let ax = axis();
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(ax.pattern(p), *o); }
    m.prepare_to_match()
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let bounded = vec![Un::Rep(0, 1), Un::Rep(0, 2), Un::Rep(1, 2), Un::Rep(1, 3), Un::Rep(2, 4), Un::Rep(0, 0), Un::All1, Un::Any1];
    let cycles: Vec<Vec<u8>> = strings(4, 2).into_iter().filter(|w| w.len() > 0).chain(strings(3, 3).into_iter().filter(|w| w.len() == 3)).collect();
    {
        let g = Grammar::new(atoms3(0, 1, 2), bounded.clone(), false, t.pick(4, 5));
        let cycles = cycles.clone();
        let heads = strings(3, 2);
        f.push(family("endless", format!("every pattern without unbounded repetition of at most {} nodes over 3 symbols, over every endless source that repeats a word of up to 3 symbols, after every beginning of up to 2", t.pick(4, 5)), g.total(), move |i, ctx| {
            let p = g.get(i);
            let bound = match unrolled_size(&p) { Some(b) => b, None => return Err("generator".into()) };
            let set = vec![(p, 1u8)];
            let dfa = prepare(&set);
            for c in &cycles { for h in &heads { endless(&set, &dfa, bound, h, c, ctx)?; } }
            ctx.outcome(&format!("bound {}", bound));
            ctx.sample(|| format!("{:?}: at most {} symbols", set, bound + 1));
            Ok(())
        }));
    }
    {
        let g = Grammar::new(vec![lit(&[0]), P::Range(0, 1), lit(&[1, 0]), P::Eps], vec![Un::Rep(0, 2), Un::Rep(1, 3)], false, 3);
        let k = g.total();
        let cycles = cycles.clone();
        f.push(family("endless-sets", "every pair of patterns of at most 3 nodes in one token matcher, over every endless source that repeats a word of up to 3 symbols".into(), k * k, move |i, ctx| {
            let set = vec![(g.get(i / k), 1u8), (g.get(i % k), 2u8)];
            let bound: u64 = set.iter().map(|x| unrolled_size(&x.0).unwrap()).sum();
            let dfa = prepare(&set);
            for c in &cycles { endless(&set, &dfa, bound, &[], c, ctx)?; }
            Ok(())
        }));
    }
    {
        let g = Grammar::new(atoms3(0, 1, 2), unaries(), false, t.pick(4, 5));
        let words = strings(3, 4);
        f.push(family("ended", format!("every pattern of at most {} nodes over 3 symbols over every source of up to 4 symbols: taken at least as many as reported, not asked again after the end", t.pick(4, 5)), g.total(), move |i, ctx| {
            let set = vec![(g.get(i), 1u8)];
            let dfa = prepare(&set);
            for w in &words { ended(&set, &dfa, w, ctx)?; }
            Ok(())
        }));
    }
    {
        let g = Grammar::new(vec![lit(&[0]), P::Range(0, 1), lit(&[1, 0])], vec![Un::Rep(0, 2), Un::Inf(0), Un::Inf(1)], false, 3);
        f.push(family("endless-unbounded", "every pattern of at most 3 nodes, unbounded repetition included, over sources whose endless part is a symbol the pattern does not mention".into(), g.total(), move |i, ctx| {
            let p = g.get(i);
            let set = vec![(p, 1u8)];
            let dfa = prepare(&set);
            for h in strings(2, 6) { endless(&set, &dfa, h.len() as u64, &h, &[3], ctx)?; }
            Ok(())
        }));
    }
    {
        let g = Grammar::new(atoms3(0, 1, 2), bounded.clone(), false, 3);
        let cycles = cycles.clone();
        f.push(family("one-shot", "the same bound through matches and matches_prepared, patterns of at most 3 nodes".into(), g.total(), move |i, ctx| {
            let p = g.get(i);
            let bound = unrolled_size(&p).unwrap() as usize;
            let ax = axis();
            let pat = ax.pattern(&p);
            let d = pat.clone().prepare_to_match();
            for c in cycles.iter() {
                let s = ax.string(c);
                let w: Vec<u8> = c.iter().cycle().cloned().take(bound + 2).collect();
                let want = longest(&p, &w, 0);
                for how in 0..2 {
                    let n = std::rc::Rc::new(std::cell::Cell::new(0));
                    let src = Endless(&s, n.clone(), bound + 2);
                    let got = if how == 0 { matches(src, pat.clone()) } else { matches_prepared(src, &d) };
                    ctx.trace();
                    ctx.step();
                    if got != want || n.get() > bound + 1 || got.map_or(false, |g| n.get() < g) { return Err(format!("{:?} over {:?} for ever: {:?} after {} symbols, expected {:?} after at most {}", pat, s, got, n.get(), want, bound + 1)); }
                    ctx.state(&(&p, c, how));
                }
            }
            Ok(())
        }));
    }
    f.push(family("scale", format!("{} kinds of patterns of every size of {:?}: bounded ones over endless sources, all over ended ones", scale::KINDS, scale::SIZES), (scale::KINDS * scale::SIZES.len()) as u64, move |i, ctx| {
        struct Src<'a> { w: &'a [u32], then: Option<u32>, taken: usize, ends: usize, budget: usize }
        impl<'a> SymbolReader<u32> for Src<'a> {
            fn next_symbol(&mut self) -> Option<u32> {
                if self.taken > self.budget { panic!("more than {} symbols taken", self.budget); }
                let x = self.w.get(self.taken).cloned().or(self.then);
                if x.is_some() { self.taken += 1; } else { self.ends += 1; }
                x
            }
        }
        let (kind, n) = (i as usize / scale::SIZES.len(), scale::SIZES[i as usize % scale::SIZES.len()]);
        let Some(b) = scale::big(kind, n, scale::How::Direct) else { return Ok(()) };
        let bound = scale::unrolled(&b.p);
        let dfa = b.p.clone().prepare_to_match();
        for (w, want) in &b.words {
            for then in [None, Some(scale::STOP), Some(0), w.first().cloned()] {
                let budget = match (then, bound) { (None, _) => w.len(), (Some(scale::STOP), b) => b.unwrap_or(w.len()).min(w.len()) + 1, (_, Some(l)) => l + 1, (_, None) => continue };
                let mut src = Src { w, then, taken: 0, ends: 0, budget };
                let fail = |e: String| Err(format!("{}, {} symbols that begin {:?}, then {:?}: {}", b.name, w.len(), &w[..w.len().min(8)], then, e));
                let got = match panics(|| match match_pattern(dfa.start(), &mut src) { Accept(n, _) => Some(n), _ => None }) { Ok(g) => g, Err(e) => return fail(e) };
                ctx.trace();
                ctx.transitions += src.taken as u64;
                ctx.state(&(kind, n, w, then));
                if (then.is_none() || then == Some(scale::STOP)) && got != *want { return fail(format!("{:?}, expected {:?}", got, want)); }
                if src.ends > 1 { return fail(format!("asked {} times after the end", src.ends)); }
                if got.map_or(false, |g| src.taken < g) { return fail(format!("reported {:?} but took {}", got, src.taken)); }
            }
        }
        ctx.outcome("scale");
        Ok(())
    }));
    f.push(family("scaled", "literals of up to 2000 symbols, repetitions of up to 300 copies, nested repetitions, alternatives sharing long beginnings: endless and ended sources".into(), 10 * 5 * 4, |i, ctx| {
        let d = digits(i, &[10, 5, 4]);
        let n = [1u32, 2, 3, 8, 16, 33, 64, 100, 200, 300][d[0] as usize];
        let p = match d[1] {
            0 => lit(&vec![0u8; n as usize * 6]),
            1 => P::Rep(0, n, Box::new(lit(&[0, 1]))),
            2 => P::Rep(n, n + 1, Box::new(P::Range(0, 1))),
            3 => { let k = n.min(12); P::Rep(1, k + 1, Box::new(P::Rep(0, k + 1, Box::new(lit(&[0]))))) }
            _ => P::Any((1..n.min(40) as usize + 1).map(|k| { let mut l = vec![0u8; k]; l.push(1); lit(&l) }).collect()),
        };
        let bound = unrolled_size(&p).unwrap();
        let set = vec![(p, 1u8)];
        let dfa = prepare(&set);
        let c: &[u8] = [&[0u8][..], &[0, 1], &[0, 0, 0, 0, 0, 0, 0, 1], &[1]][d[2] as usize];
        endless(&set, &dfa, bound, &[], c, ctx)?;
        let w: Vec<u8> = c.iter().cycle().cloned().take(n as usize * 2).collect();
        ended(&set, &dfa, &w, ctx)
    }));
    {
        let sizes = t.pick(vec![1000usize, 1025, 4097, 8193, 16_385, 65_535, 65_536, 65_537, 70_000], vec![254usize, 255, 256, 257, 511, 513, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4097, 8191, 8193, 10_001, 16_385, 32_767, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 99_999, 131_073]);
        let ns = sizes.len() as u64;
        f.push(family("huge", "literals of up to 70000 symbols (thorough: 131073) over endless and ended sources; unbounded repetitions that are decided, or whose source ends, after that many symbols".into(), ns * 6 * 3, move |i, ctx| {
            let d = digits(i, &[3, 6, ns]);
            let n = sizes[d[2] as usize];
            let ax = axis();
            let many = |c: u8, k: usize| vec![c; k];
            let a = || lit(&[0]);
            // what the pattern matches at the start of n a's and one other symbol, and where that is decided
            let (p, bound) = match d[1] {
                0 => (lit(&many(0, n)), n),
                1 => (P::All(vec![lit(&many(0, n / 2)), P::Rep(0, 3, Box::new(a()))]), n / 2 + 3),
                2 => (P::Inf(0, Box::new(a())), n),
                3 => (P::Any(vec![a(), P::All(vec![P::Inf(1, Box::new(a())), lit(&[2])])]), n + 1),
                4 => (P::Inf(2, Box::new(P::Any(vec![a(), lit(&[1, 1])]))), n + 1),
                _ => (P::Rep(1, 3, Box::new(P::Inf(1, Box::new(a())))), n),
            };
            let set = vec![(p, 1u8)];
            let dfa = prepare(&set);
            let mut r = RefAutomaton::new(&set);
            let other = [1u8, 2, 3][d[0] as usize];
            let head = [many(0, n), many(other, 1)].concat();
            // ended after n symbols, after one more, after two more; endless from there
            for (k, w) in [many(0, n), many(0, n - 1), head.clone(), [head.clone(), many(3, 1)].concat(), head].into_iter().enumerate() {
                let endless = k == 4;
                let h = ax.string(&w);
                let cycle = [40u8];
                // (the derivatives of a long literal take too much memory)
                let m = w.iter().take_while(|x| **x == 0).count();
                let want = match d[1] {
                    0 => if m >= n { Some((n, 1)) } else { None },
                    1 => if m >= n / 2 { Some((n / 2 + (m - n / 2).min(2), 1)) } else { None },
                    _ => if endless { r.longest(&[&w[..], &[3]].concat()) } else { r.longest(&w) },
                };
                let mut src = Source { head: &h, cycle: if endless { &cycle } else { &[] }, taken: 0, ends: 0, budget: n + 10 };
                let got = match match_pattern(dfa.start(), &mut src) { Accept(n, o) => Some((n, *o)), Reject => None, More(_) => return Err("more".into()) };
                ctx.step();
                ctx.trace();
                let fail = |e: String| Err(format!("pattern {} over {} a's, source {} of symbol {}: {}", d[1], n, k, other, e));
                if got != want { return fail(format!("{:?}, expected {:?}", got, want)); }
                if src.taken > bound + 1 { return fail(format!("took {} symbols, expected at most {}", src.taken, bound + 1)); }
                if src.ends > 1 { return fail(format!("the source was asked {} times after its last symbol", src.ends)); }
                if got.map_or(false, |g| src.taken < g.0) { return fail(format!("reported {:?} but took {}", got, src.taken)); }
                ctx.state(&(d[1], n, k, other));
            }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C24", level: "model_checking", assumptions: vec!["the bound checked is the number of symbols in the fully unrolled pattern plus one symbol of look-ahead".into()], families })
}
