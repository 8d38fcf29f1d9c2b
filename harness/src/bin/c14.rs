//! C14: tokenizer steps follow the longest-match rule from the current position.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use std::ops::Range;

type Set = Vec<(P, u8)>;
type Dfa = SymbolRangeDfa<char, u8>;

fn axis() -> Axis<char> { Axis::new(vec!['a', 'b', 'c', 'd']) }

fn prepare(axis: &Axis<char>, set: &Set) -> Dfa {
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(axis.pattern(p), *o); }
    m.prepare_to_match()
}

fn token(set: &Set, w: &[u8], at: usize) -> Option<(Range<usize>, u8)> {
    match longest_of(set, w, at) { Some((n, o)) if n > 0 => Some((at..at + n, o)), _ => None }
}

/// 0 next_token, 1 skip_input, 2 next_symbol (as a reader of output symbols), 3 Iterator::next
fn run<'a, R: SymbolReader<char>>(t: Tokenizer<'a, char, u8, R>, set: &Set, axis: &Axis<char>, w: &[u8], ops: &[usize], ctx: &mut Ctx) -> CaseResult {
    run_with(t, set, axis, w, ops, &mut |at| token(set, w, at), ctx)
}

/// The same with a given reference
fn run_with<'a, R: SymbolReader<char>>(mut t: Tokenizer<'a, char, u8, R>, set: &Set, axis: &Axis<char>, w: &[u8], ops: &[usize], token: &mut dyn FnMut(usize) -> Option<(Range<usize>, u8)>, ctx: &mut Ctx) -> CaseResult {
    let mut pos = 0;
    let fail = |k: usize, e: String| format!("tokens {:?}, input {:?} ({} symbols), operations {:?} ({}) (0 next_token, 1 skip_input, 2 next_symbol, 3 iterate): operation {}: {}", set, axis.string(&w[..w.len().min(60)]), w.len(), &ops[..ops.len().min(60)], ops.len(), k, e);
    if t.get_source_position() != 0 { return Err(fail(0, format!("position {} at the start", t.get_source_position()))); }
    for (k, op) in ops.iter().enumerate() {
        ctx.step();
        let mut nothing = false;
        match op {
            0 => {
                let want = token(pos);
                let got = t.next_token();
                if got != want { return Err(fail(k, format!("at {} got {:?}, expected {:?}", pos, got, want))); }
                match want { Some((r, _)) => pos = r.end, None => nothing = true }
            }
            1 => {
                let want = w.get(pos).map(|c| axis.syms[*c as usize]);
                let got = t.skip_input();
                if got != want { return Err(fail(k, format!("skipping at {} gave {:?}, expected {:?}", pos, got, want))); }
                if want.is_some() { pos += 1; }
            }
            2 => {
                let want = token(pos);
                let got = SymbolReader::next_symbol(&mut t);
                if got != want.as_ref().map(|x| x.1) { return Err(fail(k, format!("at {} got symbol {:?}, expected {:?}", pos, got, want))); }
                match want { Some((r, _)) => pos = r.end, None => nothing = true }
            }
            _ => {
                let mut at = pos;
                let want = loop {
                    match token(at) {
                        Some(x) => break Some(x),
                        None if at >= w.len() => break None,
                        None => at += 1,
                    }
                };
                let got = Iterator::next(&mut t);
                if got != want { return Err(fail(k, format!("at {} the iterator gave {:?}, expected {:?}", pos, got, want))); }
                match want { Some((r, _)) => pos = r.end, None => { pos = w.len(); nothing = true } }
            }
        }
        if t.get_source_position() != pos { return Err(fail(k, format!("position {}, expected {}", t.get_source_position(), pos))); }
        if nothing && t.at_end_of_reader() != (pos == w.len()) {
            return Err(fail(k, format!("after a request that yielded nothing at {} of {}, at_end_of_reader is {}", pos, w.len(), t.at_end_of_reader())));
        }
        if w.len() < 1000 { ctx.state(&(set, &w[pos.min(w.len())..], nothing)); } else { ctx.state(&(w.len(), pos, nothing)); }
    }
    ctx.trace();
    ctx.sample(|| format!("{:?} {:?} {:?} -> position {}", set, axis.string(&w[..w.len().min(40)]), &ops[..ops.len().min(40)], pos));
    Ok(())
}

fn pool() -> Vec<P> {
    let a = || lit(&[0]);
    let b = || lit(&[1]);
    vec![
        a(), lit(&[0, 1]), lit(&[0, 0, 1]), lit(&[0, 1, 2]), lit(&[1]), lit(&[1, 2]),
        P::Inf(1, Box::new(a())), P::Inf(0, Box::new(b())), P::Inf(1, Box::new(lit(&[0, 1]))),
        P::All(vec![P::Inf(0, Box::new(a())), b()]),
        P::Range(0, 1), P::Range(1, 2), P::Eps, lit(&[]),
        P::Rep(2, 4, Box::new(P::Range(0, 1))),
        P::Any(vec![lit(&[2]), lit(&[0, 1, 0, 1, 2])]),
        P::Rep(0, 3, Box::new(lit(&[1, 0]))),
        P::Inf(2, Box::new(P::Range(0, 2))),
    ]
}

fn set_family(name: &'static str, sets: Vec<Set>, k: u64, len: u32, nops: u64, depth: usize) -> Family {
    let blocks = nops;
    let n = sets.len() as u64;
    let inputs = strings(k, len);
    let tail = nops.pow(depth as u32 - 1);
    family(name, format!("{} sets of patterns x all {} inputs of up to {} symbols over {} letters x all sequences of {} operations from {} (next_token, skip_input, next_symbol, iterate)", n, inputs.len(), len, k, depth, nops), n * blocks, move |i, ctx| {
        let set = &sets[(i / blocks) as usize];
        let ax = axis();
        let dfa = prepare(&ax, set);
        for o in 0..tail {
            let mut ops = vec![(i % blocks) as usize];
            ops.extend(seq(o, nops, depth - 1));
            for w in &inputs {
                let text = ax.string(w);
                run(Tokenizer::new_prepared(text.read_symbols(), &dfa), set, &ax, w, &ops, ctx)?;
            }
        }
        ctx.outcome(&format!("{} patterns", set.len()));
        Ok(())
    })
}

fn families(t: Tier) -> Vec<Family> {
    let pool = pool();
    let n = pool.len();
    let singles: Vec<Set> = pool.iter().map(|p| vec![(p.clone(), 7)]).chain(vec![vec![]]).collect();
    let mut pairs = vec![];
    for i in 0..n { for j in 0..n { if i != j { pairs.push(vec![(pool[i].clone(), 1), (pool[j].clone(), 0)]); } } }
    let triples: Vec<Set> = subsets(n, 3).into_iter().enumerate().map(|(x, s)| {
        let p = permutation(3, x as u64 % 6);
        s.iter().zip(p).map(|(q, o)| (pool[*q].clone(), o as u8)).collect()
    }).collect();
    let mut f = vec![
        set_family("singles", singles, 3, 5, 4, t.pick(5, 6)),
        set_family("pairs", pairs.clone(), 3, t.pick(4, 5), 3, t.pick(4, 5)),
        set_family("pairs-iterate", pairs, 2, t.pick(5, 7), 4, t.pick(3, 4)),
        set_family("triples", triples, 3, 4, 2, t.pick(4, 5)),
    ];
    // construction variants and source kinds
    f.push({
        let pool = pool.clone();
        let inputs = strings(3, 4);
        family("constructors", "every pair of patterns, Tokenizer::new with a matcher, new with a prepared DFA's pattern, over a str, a Vec, an owned Vec, a boxed reader, and a mapped reader; all inputs up to 4 symbols; fixed operation mix".into(), (n * n) as u64 * 5, move |i, ctx| {
            let d = digits(i, &[5, n as u64, n as u64]);
            let set: Set = vec![(pool[d[1] as usize].clone(), 3), (pool[d[2] as usize].clone(), 3)];
            let ax = axis();
            let mut m = TokenMatcher::new();
            for (p, o) in &set { m.add_pattern(ax.pattern(p), *o); }
            let ops = [0usize, 0, 1, 2, 3, 0, 1, 0];
            for w in &inputs {
                let v = ax.string(w);
                let s: String = v.iter().collect();
                match d[0] {
                    0 => run(Tokenizer::new(s.read_symbols(), &m), &set, &ax, w, &ops, ctx)?,
                    1 => run(Tokenizer::new(v.read_symbols(), m.to_ndfa()), &set, &ax, w, &ops, ctx)?,
                    2 => run(Tokenizer::new(VecReader::from_vec(v), &m), &set, &ax, w, &ops, ctx)?,
                    3 => { let b: Box<dyn SymbolReader<char>> = Box::new(VecReader::from_vec(v)); run(Tokenizer::new(b, m.prepare_to_match()), &set, &ax, w, &ops, ctx)? }
                    _ => { let k = w.clone(); let ax2 = axis(); run(Tokenizer::new(k.read_symbols().map_symbols(move |x: u8| ax2.syms[x as usize]), &m), &set, &ax, w, &ops, ctx)? }
                }
            }
            Ok(())
        })
    });
    // long look-ahead that has to be given back
    {
        let n = t.pick(40u64, 80);
        f.push(family("look-ahead", format!("tokens a, a^n b, a^m c and (ab)^j with n < {} over a^k followed by b, c or nothing, for k up to {}: every request reads far ahead and gives it back; after 0, 1, 2 or 3 symbols have been skipped", n, n), n * n * 3 * 4, move |i, ctx| {
            let d = digits(i, &[4, 3, n, n]);
            let (lead, tail, a, k) = (d[0] as usize, d[1], d[2] as usize + 1, d[3] as usize);
            let ax = axis();
            let mut ab = vec![0u8; a];
            ab.push(1);
            let mut ac = vec![0u8; a / 2];
            ac.push(2);
            let set: Set = vec![(lit(&[0]), 4), (lit(&ab), 3), (lit(&ac), 2), (P::Inf(a as u32 / 4 + 1, Box::new(lit(&[0, 1]))), 1)];
            let dfa = prepare(&ax, &set);
            let mut w = vec![3u8; lead];
            w.extend(vec![0u8; k]);
            match tail { 0 => {} 1 => w.push(1), _ => w.extend([1, 0, 1, 0, 1, 0, 0, 2]) }
            let mut ops = vec![0];
            ops.extend(vec![1; lead]);
            for x in 0..w.len() + 3 { ops.push(if x % 5 == 4 { 2 } else { 0 }); if x % 7 == 6 { ops.push(1); } }
            ops.push(3);
            ops.push(3);
            let text = ax.string(&w);
            run(Tokenizer::new_prepared(text.read_symbols(), &dfa), &set, &ax, &w[..], &ops, ctx)
        }));
    }
    f.push(family("no-match-runs", "tokens that start with the skipped symbols but need a far symbol that never comes: a^n b over a^k, skipping each, k and n up to 60".into(), 60 * 60, |i, ctx| {
        let (n, k) = ((i % 60) as usize + 1, (i / 60) as usize);
        let ax = axis();
        let mut l = vec![0u8; n];
        l.push(1);
        let set: Set = vec![(lit(&l), 5), (P::Inf(0, Box::new(lit(&[2]))), 6)];
        let dfa = prepare(&ax, &set);
        let mut w = vec![0u8; k];
        w.extend([2, 2, 0]);
        let mut ops = vec![];
        for x in 0..w.len() + 2 { ops.push(if x % 2 == 0 { 0 } else { 2 }); if x != k { ops.push(1); } }
        let text = ax.string(&w);
        run(Tokenizer::new_prepared(text.read_symbols(), &dfa), &set, &ax, &w[..], &ops, ctx)
    }));
    {
        let sizes = [4095usize, 4096, 4097, 8193, 10_000, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073];
        f.push(family("huge", "look-ahead over up to 131073 symbols that is given back, skips of that many, tokens of that many, that many tokens; look-ahead of that many symbols that ends without any match or with the empty one; then tokens, skips and iteration go on from there".into(), 12 * 9, move |i, ctx| {
            let n = sizes[(i % 12) as usize];
            let ax = axis();
            // a, a b* c, d+
            let mut set: Set = vec![(lit(&[0]), 4), (P::All(vec![lit(&[0]), P::Inf(0, Box::new(lit(&[1]))), lit(&[2])]), 3), (P::Inf(1, Box::new(lit(&[3]))), 2)];
            // b+ c, d, and for the last kind the empty string as well
            if i / 12 >= 7 { set = vec![(P::All(vec![P::Inf(1, Box::new(lit(&[1]))), lit(&[2])]), 3), (lit(&[3]), 2)]; }
            if i / 12 == 8 { set.push((P::Inf(0, Box::new(lit(&[3, 2]))), 1)); }
            let many = |c: u8, k: usize| vec![c; k];
            let (w, ops): (Vec<u8>, Vec<usize>) = match i / 12 {
                // the look-ahead fails, then succeeds
                0 => ([many(0, 1), many(1, n), many(0, 2)].concat(), [many(0, 2), many(1, 2)].concat().into_iter().map(|x| x as usize).chain(vec![3, 3, 0, 3, 1, 0]).collect()),
                1 => ([many(0, 1), many(1, n), many(2, 1), many(0, 1)].concat(), vec![0, 0, 0, 1, 3]),
                // skipped one by one, asked again and again
                2 => ([many(1, n), many(0, 1), many(3, 5), many(2, 1)].concat(), (0..n).flat_map(|k| if k % 1009 == 0 { vec![0, 1] } else { vec![1] }).chain(vec![0, 0, 2, 1, 0]).collect()),
                // skipped by iterating
                3 => ([many(1, n), many(0, 1), many(2, n), many(3, 2)].concat(), vec![0, 3, 0, 1, 3, 3, 0]),
                // a long token
                4 => ([many(3, n), many(1, 1), many(3, n), many(0, 1)].concat(), vec![2, 0, 1, 0, 2, 0]),
                // many tokens
                5 => (many(0, n), (0..n).map(|k| k % 4).chain(vec![0, 3, 1, 2]).collect()),
                // the look-ahead ends without a match, at another symbol or at the end, or with the empty match
                7 | 8 => ([many(1, n), many(3, 1), many(1, n), many(2, 1), many(1, n)].concat(), [0usize, 0, 2, 1, 0].iter().cloned().chain(vec![1; n - 1]).chain(vec![0, 0, 0, 2, 1, 2, 0]).collect()),
                // many tokens, each with some look-ahead
                _ => ((0..n).map(|k| (k % 3 == 1 || k % 3 == 2) as u8).collect(), (0..n).map(|k| [0usize, 1, 1, 3, 1, 1, 2, 3][k % 8]).collect()),
            };
            let dfa = prepare(&ax, &set);
            let mut r = RefAutomaton::new(&set);
            let text = ax.string(&w);
            run_with(Tokenizer::new_prepared(text.read_symbols(), &dfa), &set, &ax, &w, &ops, &mut |at| match r.longest(&w[at..]) { Some((n, o)) if n > 0 => Some((at..at + n, o)), _ => None }, ctx)
        }));
    }
    // Many kinds of tokens
    {
        use std::collections::HashMap;
        let sizes = mc::scale::SIZES;
        let per = 5 * 3 * 3u64;
        f.push(family("many", format!("matchers of n literals, n in {:?} (strings of every length: up to 301): single symbols, numbers (each beginning with others), strings of every length, pairs, pairs with a common end; added in three orders; inputs that are made of the literals at the ends, in the middle and next to powers of two with other symbols between; asked by next_token and skip_input, by iterating, and by next_symbol", sizes), sizes.len() as u64 * per, move |i, ctx| {
            let d = digits(i, &[3, 3, 5, sizes.len() as u64]);
            let n = sizes[d[3] as usize];
            let kind = d[2];
            if kind == 2 && n > 301 { return Ok(()); }
            let u = |k: usize| k as u32;
            let word = |k: usize| -> Vec<u32> { match kind {
                0 => vec![3 * u(k)],
                1 => k.to_string().bytes().map(|b| b as u32).collect(),
                2 => vec![1; k + 1],
                3 => vec![u(k), u(k) + 1],
                _ => if k % 2 == 0 { vec![u(k), 7, 7] } else { vec![u(k), 7] },
            } };
            let mut order: Vec<usize> = (0..n).collect();
            if d[1] == 1 { order.reverse(); }
            if d[1] == 2 { order.rotate_left(n / 3); }
            let mut tm = TokenMatcher::new();
            let mut have: HashMap<Vec<u32>, u32> = HashMap::new();
            let mut longest = 0;
            for k in order { let w = word(k); longest = longest.max(w.len()); tm.add_pattern(Match(w.clone()), u(k)); have.insert(w, u(k)); }
            let mut text: Vec<u32> = vec![];
            for (j, k) in mc::scale::picks(n).into_iter().enumerate() {
                text.extend(word(k));
                match j % 5 { 0 => text.push(40_000), 1 => text.extend([7, 7, 8]), 2 => text.extend(word(k)), 3 => text.extend([1, 40_001]), _ => {} }
            }
            let want = |at: usize| -> Option<(Range<usize>, u32)> { (1..=longest.min(text.len() - at)).rev().find_map(|l| have.get(&text[at..at + l]).map(|o| (at..at + l, *o))) };
            let dfa = tm.prepare_to_match();
            let fail = |at: usize, got: String, e: String| Err(format!("{} literals (kind {}, order {}), {:?}... at {}: got {}, expected {}", n, kind, d[1], &text[at..(at + 12).min(text.len())], at, got, e));
            ctx.trace();
            let mut pos = 0;
            match d[0] {
                0 => {
                    let mut t = Tokenizer::new_prepared(text.read_symbols(), &dfa);
                    while pos < text.len() {
                        ctx.step();
                        let (got, e) = (t.next_token(), want(pos));
                        if got != e { return fail(pos, format!("{:?}", got), format!("{:?}", e)); }
                        match e { Some((r, _)) => pos = r.end, None => { let s = t.skip_input(); if s != Some(text[pos]) { return fail(pos, format!("{:?} skipped", s), format!("{}", text[pos])); } pos += 1; } }
                        if t.get_source_position() != pos { return fail(pos, format!("position {}", t.get_source_position()), format!("{}", pos)); }
                    }
                    if t.next_token().is_some() || !t.at_end_of_reader() { return Err(format!("{} literals (kind {}): not at the end after the last", n, kind)); }
                }
                1 => {
                    let mut all = vec![];
                    while pos < text.len() { match want(pos) { Some(x) => { pos = x.0.end; all.push(x); } None => pos += 1 } }
                    let mut left = all.into_iter();
                    for got in Tokenizer::new_prepared(text.read_symbols(), &dfa) {
                        ctx.step();
                        let e = left.next();
                        if Some(&got) != e.as_ref() { return fail(e.as_ref().map_or(0, |x| x.0.start), format!("{:?}", got), format!("{:?}", e)); }
                    }
                    if let Some(e) = left.next() { return fail(e.0.start, "nothing".into(), format!("{:?}", e)); }
                }
                _ => {
                    let mut t: Tokenizer<u32, u32, _> = Tokenizer::new(text.read_symbols(), &tm);
                    while let Some((r, o)) = want(pos) {
                        ctx.step();
                        let got = SymbolReader::next_symbol(&mut t);
                        if got != Some(o) { return fail(pos, format!("{:?}", got), format!("{}", o)); }
                        pos = r.end;
                    }
                    let got = SymbolReader::next_symbol(&mut t);
                    if got.is_some() { return fail(pos.min(text.len() - 1), format!("{:?}", got), "nothing".into()); }
                }
            }
            ctx.state(&(n, kind, pos));
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C14", level: "model_checking", assumptions: vec!["pattern sets are those of the stated pool; the matching of single prefixes for general patterns is decided by C01 and C02".into()], families })
}
