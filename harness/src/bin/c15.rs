//! C15: iterating a tokenizer covers the whole input and stops.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use std::ops::Range;

type Set = Vec<(P, u8)>;

fn axis() -> Axis<char> { Axis::new(vec!['a', 'b', 'c', 'd']) }

fn prepare(axis: &Axis<char>, set: &Set) -> SymbolRangeDfa<char, u8> {
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(axis.pattern(p), *o); }
    m.prepare_to_match()
}

fn expected(set: &Set, w: &[u8]) -> Vec<(Range<usize>, u8)> {
    let mut at = 0;
    let mut out = vec![];
    while at < w.len() {
        match longest_of(set, w, at) {
            Some((n, o)) if n > 0 => { out.push((at..at + n, o)); at += n; }
            _ => at += 1,
        }
    }
    out
}

/// `lead` symbols are skipped and one token is asked for by hand before iterating
fn check(dfa: &SymbolRangeDfa<char, u8>, set: &Set, axis: &Axis<char>, w: &[u8], want: &[(Range<usize>, u8)], ctx: &mut Ctx) -> CaseResult {
    let text = axis.string(w);
    let fail = |e: String| format!("tokens {:?}, input {:?} ({} symbols): {}", set, &text[..text.len().min(60)], text.len(), e);
    let mut t = Tokenizer::new_prepared(text.read_symbols(), dfa);
    let mut got = vec![];
    while let Some(x) = t.next() {
        ctx.step();
        got.push(x);
        if got.len() > w.len() { return Err(fail(format!("more tokens than symbols: {:?}", &got[..got.len().min(20)]))); }
    }
    ctx.trace();
    if got != want {
        let k = (0..got.len().max(want.len())).find(|k| got.get(*k) != want.get(*k)).unwrap();
        return Err(fail(format!("token {} is {:?}, expected {:?}; {} tokens, expected {}", k, got.get(k), want.get(k), got.len(), want.len())));
    }
    if t.get_source_position() != w.len() || !t.at_end_of_reader() { return Err(fail(format!("ended at position {} (at the end: {})", t.get_source_position(), t.at_end_of_reader()))); }
    for k in 0..3 {
        if let Some(x) = t.next() { return Err(fail(format!("request {} after the end gave {:?}", k + 1, x))); }
        if t.get_source_position() != w.len() { return Err(fail(format!("position {} after the end", t.get_source_position()))); }
    }
    if t.next_token().is_some() || t.skip_input().is_some() || t.next().is_some() { return Err(fail("something after the end".into())); }
    ctx.state(&(set, want));
    Ok(())
}

/// The other ways an iterator can be used: each gives what taking the tokens one by one gives
fn other_ways(dfa: &SymbolRangeDfa<char, u8>, set: &Set, axis: &Axis<char>, w: &[u8], want: &[(Range<usize>, u8)], ctx: &mut Ctx) -> CaseResult {
    let text = axis.string(w);
    let n = want.len();
    let fail = |e: String| Err(format!("tokens {:?}, input {:?}: {}", set, &text[..text.len().min(60)], e));
    macro_rules! make { () => { Tokenizer::new_prepared(text.read_symbols(), dfa) } }
    macro_rules! expect { ($what:expr, $got:expr, $want:expr) => { { let (g, x) = ($got, $want); ctx.trace(); if g != x { return fail(format!("{} gives {:?}, expected {:?}", $what, g, x)); } } } }
    expect!("collect", make!().collect::<Vec<_>>(), want.to_vec());
    expect!("count", make!().count(), n);
    expect!("last", make!().last(), want.last().cloned());
    expect!("fold", make!().fold(vec![], |mut v, x| { v.push(x); v }), want.to_vec());
    expect!("for_each", { let mut v = vec![]; make!().for_each(|x| v.push(x)); v }, want.to_vec());
    expect!("max by start", make!().max_by_key(|x| x.0.start), want.last().cloned());
    expect!("min by start", make!().min_by_key(|x| x.0.start), want.first().cloned());
    expect!("map and sum", make!().map(|x| x.0.len()).sum::<usize>(), want.iter().map(|x| x.0.len()).sum::<usize>());
    expect!("partition", make!().partition::<Vec<_>, _>(|x| x.1 == 1), want.iter().cloned().partition::<Vec<_>, _>(|x| x.1 == 1));
    expect!("filter", make!().filter(|x| x.1 == 1).collect::<Vec<_>>(), want.iter().cloned().filter(|x| x.1 == 1).collect::<Vec<_>>());
    expect!("zip", make!().zip(0..).collect::<Vec<_>>(), want.iter().cloned().zip(0..).collect::<Vec<_>>());
    expect!("enumerate", make!().enumerate().last(), want.iter().cloned().enumerate().last());
    expect!("chain", make!().chain(make!()).count(), 2 * n);
    expect!("fuse", { let mut t = make!().fuse(); let mut v = vec![]; while let Some(x) = t.next() { v.push(x); } (v, t.next()) }, (want.to_vec(), None));
    expect!("extend", { let mut v = vec![]; v.extend(make!()); v }, want.to_vec());
    expect!("for", { let mut v = vec![]; for x in make!() { v.push(x); } v }, want.to_vec());
    for k in 0..(n + 2).min(7) {
        let rest = |from: usize| want.get(from..).map(|x| x.to_vec()).unwrap_or(vec![]);
        expect!(format!("nth({}) and the rest", k), { let mut t = make!(); let x = t.nth(k); (x, t.collect::<Vec<_>>()) }, (want.get(k).cloned(), rest(k + 1)));
        expect!(format!("one, nth({}) and the rest", k), { let mut t = make!(); let y = t.next(); let x = t.nth(k); (y, x, t.collect::<Vec<_>>()) }, (want.first().cloned(), want.get(k + 1).cloned(), rest(k + 2)));
        expect!(format!("skip({})", k), make!().skip(k).collect::<Vec<_>>(), rest(k));
        expect!(format!("step_by({})", k + 1), make!().step_by(k + 1).collect::<Vec<_>>(), want.iter().cloned().step_by(k + 1).collect::<Vec<_>>());
        expect!(format!("take({}) and the rest", k), { let mut t = make!(); let x: Vec<_> = t.by_ref().take(k).collect(); (x, t.collect::<Vec<_>>()) }, (want[..k.min(n)].to_vec(), rest(k)));
        if let Some(y) = want.get(k) {
            expect!(format!("find of token {} and the rest", k), { let mut t = make!(); let x = t.find(|x| x == y); (x, t.collect::<Vec<_>>()) }, (Some(y.clone()), rest(k + 1)));
            expect!(format!("position of token {} and the rest", k), { let mut t = make!(); let x = t.position(|x| x == *y); (x, t.collect::<Vec<_>>()) }, (Some(k), rest(k + 1)));
            expect!(format!("any up to token {} and the rest", k), { let mut t = make!(); let x = t.any(|x| x == *y); (x, t.collect::<Vec<_>>()) }, (true, rest(k + 1)));
            expect!(format!("all up to token {} and the rest", k), { let mut t = make!(); let x = t.all(|x| x != *y); (x, t.collect::<Vec<_>>()) }, (false, rest(k + 1)));
            expect!(format!("peeking before token {}", k), { let mut t = make!().peekable(); for _ in 0..k { t.next(); } (t.peek().cloned(), t.peek().cloned(), t.collect::<Vec<_>>()) }, (Some(y.clone()), Some(y.clone()), rest(k)));
        }
        // the size hint holds wherever the iterator is
        let mut t = make!();
        for _ in 0..k { t.next(); }
        let (lo, hi) = t.size_hint();
        let left = n.saturating_sub(k);
        if lo > left || hi.map(|h| h < left).unwrap_or(false) { return fail(format!("after {} tokens the size hint is {:?}, {} are left", k, (lo, hi), left)); }
        ctx.step();
    }
    Ok(())
}

fn over(name: &'static str, sets: Vec<Set>, k: u64, len: u32) -> Family {
    let n = sets.len() as u64;
    let inputs = strings(k, len);
    family(name, format!("{} sets of patterns x all {} inputs of up to {} symbols over {} letters, iterated to the end and four requests further", n, inputs.len(), len, k), n * k, move |i, ctx| {
        let set = &sets[(i / k) as usize];
        let ax = axis();
        let dfa = prepare(&ax, set);
        for w in &inputs {
            // split the work by the first letter (the empty input goes with the first block)
            if w.first().cloned().unwrap_or(0) as u64 != i % k { continue; }
            let want = expected(set, w);
            if ctx.transitions % 512 == 0 { ctx.outcome(&format!("{} tokens cover {} of {}", want.len(), want.iter().map(|r| r.0.end - r.0.start).sum::<usize>(), w.len())); }
            check(&dfa, set, &ax, w, &want, ctx)?;
        }
        ctx.sample(|| format!("{:?}", set));
        Ok(())
    })
}

fn families(t: Tier) -> Vec<Family> {
    // every small pattern, alone
    let g = Grammar::new(vec![P::Eps, lit(&[0]), lit(&[1]), P::Range(0, 1), lit(&[0, 1]), lit(&[])], vec![Un::Inf(0), Un::Inf(1), Un::Rep(0, 2), Un::Rep(2, 3)], false, 4);
    let small = Grammar::new(vec![P::Eps, lit(&[0]), P::Range(0, 1), lit(&[1, 0])], vec![Un::Inf(0), Un::Inf(1), Un::Rep(0, 3)], false, 3);
    let singles: Vec<Set> = vec![vec![]].into_iter().chain((0..g.total()).map(|i| vec![(g.get(i), 1u8)])).collect();
    let ns = small.total();
    let step = t.pick(1u64, 1);
    let pairs: Vec<Set> = (0..ns * ns).step_by(step as usize).map(|i| vec![(small.get(i / ns), 0u8), (small.get(i % ns), 1u8)]).collect();
    let pool: Vec<P> = vec![lit(&[0]), lit(&[1]), lit(&[0, 1, 0]), P::Inf(1, Box::new(lit(&[0]))), P::Inf(0, Box::new(lit(&[1]))), P::Range(1, 2), lit(&[2, 2]), P::Inf(1, Box::new(lit(&[0, 1]))), P::All(vec![P::Inf(0, Box::new(P::Range(0, 1))), lit(&[2])]), P::Eps];
    let triples: Vec<Set> = subsets(10, 3).into_iter().enumerate().map(|(x, s)| s.iter().zip(permutation(3, x as u64 % 6)).map(|(q, o)| (pool[*q].clone(), o as u8)).collect()).collect();
    let mut f = vec![
        over("singles", singles, 2, t.pick(8, 11)),
        over("pairs", pairs, 3, t.pick(5, 7)),
        over("triples", triples.clone(), 3, t.pick(8, 10)),
        over("long", triples.clone(), 2, t.pick(12, 15)),
    ];
    {
        let sets: Vec<Set> = triples.iter().cloned().chain((0..ns).map(|i| vec![(small.get(i), 1u8)])).chain((0..ns).map(|i| vec![(small.get(i), 1u8), (lit(&[0]), 2), (P::Range(1, 2), 0)])).chain(vec![vec![]]).collect();
        let n = t.pick(5, 7);
        let inputs = strings(3, n);
        f.push(family("other-ways", format!("{} sets of patterns x all {} inputs of up to {} symbols over 3 letters: 26 other ways to use an iterator (counting, folding, nth, skip, step_by, find, peeking...) and what is left afterwards", sets.len(), inputs.len(), n), sets.len() as u64, move |i, ctx| {
            let set = &sets[i as usize];
            let ax = axis();
            let dfa = prepare(&ax, set);
            for w in &inputs {
                let want = expected(set, w);
                other_ways(&dfa, set, &ax, w, &want, ctx)?;
                ctx.state(&(i, w));
            }
            Ok(())
        }));
    }
    f.push(family("scaled", "tokens a^n b / a / (bc)+ / everything-up-to-d over structured inputs of up to 5000 symbols".into(), 12 * 12 * 6, |i, ctx| {
        let d = digits(i, &[12, 12, 6]);
        let n = [1usize, 2, 3, 4, 5, 7, 8, 15, 16, 17, 40, 100][d[0] as usize];
        let k = [0usize, 1, 3, 4, 5, 8, 9, 31, 64, 65, 300, 2500][d[1] as usize];
        let ax = axis();
        let mut ab = vec![0u8; n];
        ab.push(1);
        let mut set: Set = vec![(lit(&ab), 9)];
        if d[2] & 1 == 1 { set.push((lit(&[0]), 8)); }
        if d[2] & 2 == 2 { set.push((P::Inf(1, Box::new(lit(&[1, 2]))), 1)); }
        if d[2] >= 4 { set.push((P::Rep(0, 4, Box::new(P::Range(1, 2))), 0)); }
        let mut w: Vec<u8> = vec![0; k];
        w.extend([1, 2, 1, 2, 2, 3]);
        for x in 0..k / 2 { w.push((x % 3) as u8); if x % 5 == 0 { w.extend(vec![0; x % 23]); w.push(1); } }
        w.truncate(5000.min(100 + 20000 / n));
        let dfa = prepare(&ax, &set);
        // reference by the derivative automaton (inputs are longer than the position sets hold)
        let mut r = RefAutomaton::new(&set);
        let mut want = vec![];
        let mut at = 0;
        while at < w.len() {
            let e = (at + 400).min(w.len());
            match r.longest(&w[at..e]) {
                Some((m, o)) if m > 0 => { want.push((at..at + m, o)); at += m; }
                _ => at += 1,
            }
        }
        check(&dfa, &set, &ax, &w, &want, ctx)
    }));
    {
        let sizes = [1023usize, 1024, 1025, 4097, 9_999, 10_001, 32_768, 65_535, 65_536, 65_537, 70_000, 131_073];
        f.push(family("huge", "runs of up to 131073 symbols that start no token, tokens of that many symbols, that many tokens, look-ahead over that many: before, between and after tokens".into(), 12 * 8, move |i, ctx| {
            let n = sizes[(i % 12) as usize];
            let ax = axis();
            // a, a b* c, d+, empty
            let set: Set = vec![(lit(&[0]), 4), (P::All(vec![lit(&[0]), P::Inf(0, Box::new(lit(&[1]))), lit(&[2])]), 3), (P::Inf(1, Box::new(lit(&[3]))), 2), (P::Eps, 0)];
            let many = |c: u8, k: usize| vec![c; k];
            let w = match i / 12 {
                0 => [many(1, n), many(0, 1)].concat(),
                1 => [many(3, 2), many(1, n), many(3, 2), many(2, n)].concat(),
                2 => [many(0, 1), many(1, n), many(2, 1), many(3, 1)].concat(),
                3 => [many(0, 1), many(1, n), many(0, 1)].concat(),
                4 => many(0, n),
                5 => [many(3, n), many(1, 1), many(3, n)].concat(),
                6 => (0..n).map(|k| [0u8, 1, 2, 2, 3, 3, 1][k % 7]).collect(),
                _ => many(2, n),
            };
            let dfa = prepare(&ax, &set);
            let mut r = RefAutomaton::new(&set);
            let mut want = vec![];
            let mut at = 0;
            while at < w.len() {
                match r.longest(&w[at..]) { Some((m, o)) if m > 0 => { want.push((at..at + m, o)); at += m; } _ => at += 1 }
            }
            check(&dfa, &set, &ax, &w, &want, ctx)
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C15", level: "model_checking", assumptions: vec!["termination on longer inputs than enumerated is covered by the scaled family only".into()], families })
}
