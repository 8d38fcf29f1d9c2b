//! C18: tokenizing a tagged stream tags exactly the tokens found.
use concordance::TagSymbol::*;
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use mc::tree::*;
use std::cell::RefCell;

type Set = Vec<(P, u8)>;
type Dfa = SymbolRangeDfa<u8, u8>;

/// Mapped symbols are the axis indices themselves
fn axis() -> Axis<u8> { Axis::new(vec![0, 1, 2, 3, 4]) }

fn prepare(set: &Set) -> Dfa {
    let ax = axis();
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(ax.pattern(p), *o); }
    m.prepare_to_match()
}

/// The ranges that longest-match tokenizing gives
fn expected(set: &Set, w: &[u8]) -> Vec<(usize, usize, u8)> {
    let mut at = 0;
    let mut out = vec![];
    while at < w.len() {
        match longest_of(set, w, at) {
            Some((n, o)) if n > 0 => { out.push((at, at + n, o)); at += n; }
            _ => at += 1,
        }
    }
    out
}

fn map_model(t: &T<u16>, how: usize) -> u8 {
    match (t, how) {
        (T::U(b), 0) => (*b % 3) as u8,
        (T::U(_), 1) => 4,
        (T::U(b), _) => (*b / 100) as u8 % 3,
        (T::G(g, _), 0) => 3 + g % 2,
        (T::G(g, v), _) => (g + v.len() as u8) % 3,
    }
}

fn level(s: &Stream<u16>, m: &[T<u16>], set: &Set, dfa: &Dfa, how: usize, ctx: &mut Ctx) -> Result<(Stream<u16>, Vec<T<u16>>), String> {
    let seen = RefCell::new(vec![]);
    let r = s.tokenize(dfa, |x| { let t = symbol(&x); let k = map_model(&t, how); seen.borrow_mut().push(t); k });
    ctx.step();
    let mapped: Vec<u8> = m.iter().map(|t| map_model(t, how)).collect();
    let want = with_tags(m, &expected(set, &mapped));
    let fail = |e: String| format!("stream {:?}, mapped to {:?}, tokens {:?}: {}", m, mapped, set, e);
    same(&r, &want).map_err(&fail)?;
    same(s, m).map_err(|e| fail(format!("the original changed: {}", e)))?;
    if *seen.borrow() != m { return Err(fail(format!("the mapping was applied to {:?}", seen.borrow()))); }
    // what the library's own tokenizer iterates over gives the same ranges
    let ranges: Vec<(usize, usize, u8)> = Tokenizer::new_prepared(mapped.read_symbols(), dfa).map(|(r, o)| (r.start, r.end, o)).collect();
    if with_tags(m, &ranges) != want { return Err(fail(format!("the tokenizer itself produces {:?}", ranges))); }
    Ok((r, want))
}

fn pool() -> Vec<P> {
    vec![
        lit(&[0]), lit(&[1, 2]), P::Inf(1, Box::new(lit(&[0]))), P::Inf(0, Box::new(lit(&[1]))), P::Range(1, 3), lit(&[0, 1, 0]),
        P::Inf(1, Box::new(P::Range(0, 2))), lit(&[3, 4]), P::Inf(1, Box::new(P::Range(3, 4))), P::All(vec![P::Inf(0, Box::new(lit(&[4]))), P::Range(3, 3)]),
        P::Eps, P::Rep(2, 4, Box::new(P::Range(0, 4))),
    ]
}

fn sets() -> Vec<Set> {
    let p = pool();
    let mut v: Vec<Set> = p.iter().map(|x| vec![(x.clone(), 5)]).collect();
    for (i, s) in subsets(p.len(), 2).into_iter().enumerate() {
        let (a, b) = if i % 2 == 0 { (1, 2) } else { (2, 1) };
        v.push(vec![(p[s[0]].clone(), a), (p[s[1]].clone(), b)]);
    }
    v.push(vec![]);
    v
}

fn families(t: Tier) -> Vec<Family> {
    let sets = sets();
    let n = sets.len() as u64;
    let mut f = vec![];
    {
        let sets = sets.clone();
        let len = t.pick(7u32, 9);
        f.push(family("one-level", format!("{} sets of patterns, every base stream of up to {} symbols of 3 classes (each symbol distinct: class + 100 x place), three mappings", n, len), n * 3 * 3, move |i, ctx| {
            let d = digits(i, &[3, 3, n]);
            let set = &sets[d[2] as usize];
            let dfa = prepare(set);
            let k = string_count(3, len);
            for j in (d[0]..k).step_by(3) {
                let v: Vec<u16> = string(3, j).iter().enumerate().map(|(p, c)| *c as u16 + 3 * (p as u16 * 33)).collect();
                let s: Stream<u16> = TaggedStream::from_reader(&mut v.read_symbols());
                let m: Vec<T<u16>> = v.iter().map(|b| T::U(*b)).collect();
                let (_, m2) = level(&s, &m, set, &dfa, d[1] as usize, ctx)?;
                ctx.trace();
                ctx.state(&m2);
                if j % 64 == 0 { ctx.outcome(&format!("{} to {}", m.len(), m2.len())); }
            }
            Ok(())
        }));
    }
    {
        let sets = sets.clone();
        let len = t.pick(4u32, 6);
        f.push(family("three-levels", format!("tokenizing the result of tokenizing: every pair of the {} sets, every base stream of up to {} symbols, mapping by tag; then once more with the first set", n, len), n * n, move |i, ctx| {
            let (a, b) = (&sets[(i / n) as usize], &sets[(i % n) as usize]);
            let (da, db) = (prepare(a), prepare(b));
            for j in 0..string_count(3, len) {
                let v: Vec<u16> = string(3, j).iter().enumerate().map(|(p, c)| *c as u16 + 3 * p as u16).collect();
                let s: Stream<u16> = TaggedStream::from_reader(&mut v.read_symbols());
                let m: Vec<T<u16>> = v.iter().map(|b| T::U(*b)).collect();
                let (s, m) = level(&s, &m, a, &da, 0, ctx)?;
                let (s, m) = level(&s, &m, b, &db, (j % 2) as usize, ctx)?;
                let (_, m) = level(&s, &m, a, &da, 2, ctx)?;
                let mut flat = vec![];
                expand(&m, &mut flat);
                if flat != v { return Err(format!("symbols {:?} became {:?}", v, flat)); }
                ctx.state(&m);
                ctx.trace();
            }
            ctx.sample(|| format!("{:?} then {:?}", a, b));
            Ok(())
        }));
    }
    {
        let sets = sets.clone();
        f.push(family("hand-tagged", format!("streams of 4 symbols with one range (also an empty one) tagged by hand, then tokenized by each of the {} sets, two mappings", n), n * 15 * 2 * 81, move |i, ctx| {
            let d = digits(i, &[81, 2, 15, n]);
            let v: Vec<u16> = seq(d[0], 3, 4).into_iter().map(|x| x as u16).collect();
            let mut r = vec![];
            for lo in 0..5 { for hi in lo..5 { r.push((lo, hi)); } }
            let (lo, hi) = r[d[2] as usize];
            let mut s: Stream<u16> = TaggedStream::from_reader(&mut v.read_symbols());
            let mut m: Vec<T<u16>> = v.iter().map(|b| T::U(*b)).collect();
            s.tag(6, lo..hi);
            m = tag(&m, 6, lo, hi);
            let set = &sets[d[3] as usize];
            let (_, m) = level(&s, &m, set, &prepare(set), d[1] as usize * 2, ctx)?;
            ctx.state(&m);
            ctx.trace();
            Ok(())
        }));
    }
    {
        let sets = sets.clone();
        let len = t.pick(3usize, 4);
        let base3 = string_count(3, len as u32);
        f.push(family("same-outputs", format!("streams of up to {} symbols, one or two ranges of which (also empty ones, and ones around the other's tag) are tagged by hand with the output of a token or another, then tokenized twice by each of the {} sets, three mappings", len, n), n * 3 * base3 * 3, move |i, ctx| {
            let d = digits(i, &[base3, 3, 3, n]);
            let v: Vec<u16> = string(3, d[0]).into_iter().map(|x| x as u16).collect();
            let len = v.len();
            let set = &sets[d[3] as usize];
            let dfa = prepare(set);
            let own = [set.first().map_or(6, |x| x.1), set.last().map_or(7, |x| x.1), 3];
            let base: Stream<u16> = TaggedStream::from_reader(&mut v.read_symbols());
            let mbase: Vec<T<u16>> = v.iter().map(|b| T::U(*b)).collect();
            let how = d[2] as usize;
            for lo in 0..=len { for hi in lo..=len {
                let (mut s, first) = (base.clone(), own[d[1] as usize]);
                s.tag(first, lo..hi);
                let m = tag(&mbase, first, lo, hi);
                let (s1, m1) = level(&s, &m, set, &dfa, how, ctx)?;
                let (_, m1) = level(&s1, &m1, set, &dfa, how, ctx)?;
                ctx.state(&m1);
                for second in own { for lo in 0..=m.len() { for hi in lo..=m.len() {
                    if second == own[1] && own[0] == own[1] { continue; }
                    let mut s = s.clone();
                    s.tag(second, lo..hi);
                    let m = tag(&m, second, lo, hi);
                    let (_, m1) = level(&s, &m, set, &dfa, how, ctx)?;
                    ctx.state(&m1);
                } } }
                ctx.trace();
            } }
            Ok(())
        }));
    }
    {
        let sets = sets.clone();
        let len = t.pick(7u32, 9);
        f.push(family("plain-reader", format!("from_tokenized_reader against from_reader and tokenize, and against the tree: {} sets, every input of up to {} symbols of 3; over three kinds of reader", n, len), n * 3, move |i, ctx| {
            let set = &sets[(i / 3) as usize];
            let dfa = prepare(set);
            for j in 0..string_count(3, len) {
                let w = string(3, j);
                let made: Stream<u8> = match i % 3 {
                    0 => TaggedStream::from_tokenized_reader(&mut w.read_symbols(), &dfa),
                    1 => TaggedStream::from_tokenized_reader(&mut ByteSymbolReader::from(&w[..]), &dfa),
                    _ => TaggedStream::from_tokenized_reader(&mut w.read_symbols().map_symbols(|x: u8| x), &dfa),
                };
                let m: Vec<T<u8>> = w.iter().map(|b| T::U(*b)).collect();
                let want = with_tags(&m, &expected(set, &w));
                same(&made, &want).map_err(|e| format!("input {:?}, tokens {:?}: {}", w, set, e))?;
                let plain: Stream<u8> = TaggedStream::from_reader(&mut w.read_symbols());
                let by_hand = plain.tokenize(&dfa, |x| match x { Untagged(c) => c, Tagged(..) => 99 });
                if by_hand != made { return Err(format!("input {:?}, tokens {:?}: from_tokenized_reader {:?}, from_reader and tokenize {:?}", w, set, made, by_hand)); }
                ctx.step();
                ctx.trace();
                ctx.state(&want);
            }
            Ok(())
        }));
    }
    f.push(family("scaled", "streams of up to 120 symbols with long tokens and long look-ahead that fails, two levels".into(), 40 * 12, |i, ctx| {
        let d = digits(i, &[40, 12]);
        let k = d[0] as usize * 3;
        let mut ab = vec![0u8; d[1] as usize + 1];
        ab.push(1);
        let set: Set = vec![(lit(&ab), 1), (P::Inf(2, Box::new(P::Range(1, 2))), 0), (lit(&[0, 0]), 3)];
        let up: Set = vec![(P::Inf(1, Box::new(P::Range(3, 4))), 7)];
        let w: Vec<u16> = (0..k).map(|x| [0u16, 0, 0, 1, 0, 0, 2, 0, 0, 0, 0, 0, 1, 2, 1][(x * (1 + d[1] as usize % 4)) % 15] + 3 * (x as u16 % 50)).collect();
        let s: Stream<u16> = TaggedStream::from_reader(&mut w.read_symbols());
        let m: Vec<T<u16>> = w.iter().map(|b| T::U(*b)).collect();
        let (s, m) = level(&s, &m, &set, &prepare(&set), 0, ctx)?;
        let (_, m) = level(&s, &m, &up, &prepare(&up), 0, ctx)?;
        ctx.state(&m);
        ctx.trace();
        Ok(())
    }));
    {
        let sets = sets.clone();
        let passes = t.pick(10usize, 24);
        f.push(family("passes", format!("a stream tokenized {} times over: every one of the {} sets, 9 streams, three mappings, the same mapping each time or in turn", passes, n), n * 9 * 6, move |i, ctx| {
            let d = digits(i, &[3, 2, 9, n]);
            let set = &sets[d[3] as usize];
            let dfa = prepare(set);
            let v: Vec<u16> = [&[][..], &[0], &[1], &[0, 0], &[1, 2], &[0, 1, 2, 0], &[2, 2, 1, 0, 0], &[0, 1, 0, 1, 2, 0, 1], &[2]][d[2] as usize].iter().enumerate().map(|(p, c)| *c as u16 + 3 * p as u16).collect();
            let mut s: Stream<u16> = TaggedStream::from_reader(&mut v.read_symbols());
            let mut m: Vec<T<u16>> = v.iter().map(|b| T::U(*b)).collect();
            for k in 0..passes {
                let (s2, m2) = level(&s, &m, set, &dfa, (d[0] as usize + if d[1] == 1 { k } else { 0 }) % 3, ctx).map_err(|e| format!("pass {}: {}", k + 1, e))?;
                s = s2; m = m2;
            }
            ctx.state(&m);
            ctx.trace();
            Ok(())
        }));
    }
    {
        let sizes = [1023usize, 1025, 4095, 4097, 8191, 8193, 16_385, 32_769, 65_535, 65_536, 65_537, 70_000, 131_073];
        let ns = sizes.len() as u64;
        f.push(family("huge", "streams of up to 131073 symbols: tokens across every place, one token of that many symbols, that many tokens, that many symbols of failed look-ahead or of no token, between other tokens; then the result tokenized again, and from_tokenized_reader".into(), ns * 7, move |i, ctx| {
            let n = sizes[(i % ns) as usize];
            // a, a b* c
            let set: Set = vec![(lit(&[0]), 0), (P::All(vec![lit(&[0]), P::Inf(0, Box::new(lit(&[1]))), lit(&[2])]), 1)];
            let runs: Set = vec![(P::Inf(1, Box::new(lit(&[0]))), 1), (lit(&[2]), 2)];
            let up: Set = vec![(P::Inf(1, Box::new(P::Range(3, 4))), 7), (lit(&[1, 1]), 6)];
            let many = |c: u8, k: usize| vec![c; k];
            let w: Vec<u8> = match i / ns {
                0 => (0..n).map(|k| [0u8, 1, 2, 0, 0, 1, 1][k % 7]).collect(),
                1 => [many(2, 1), many(0, 1), many(1, n), many(2, 1), many(0, 3)].concat(),
                2 => many(0, n),
                3 => [many(0, 1), many(1, n), many(0, 2)].concat(),
                4 => [many(0, 2), many(2, n), many(0, 1), many(1, 2), many(2, 2)].concat(),
                5 => (0..n).map(|k| [0u8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2][k % 11]).collect(),
                _ => (0..n).map(|k| if k % 1013 == 1012 { 2 } else { (k % 1013 > 0) as u8 }).collect(),
            };
            let v: Vec<u32> = w.iter().enumerate().map(|(k, c)| (k as u32) * 4 + *c as u32).collect();
            let mut s: Stream<u32> = TaggedStream::from_reader(&mut v.read_symbols());
            let mut m: Vec<T<u32>> = v.iter().map(|b| T::U(*b)).collect();
            for (l, set) in [if i / ns == 2 && i % 2 == 1 { &runs } else { &set }, &up].into_iter().enumerate() {
                let dfa = prepare(set);
                let map = |t: &TagSymbol<u32, u8>| match t { Untagged(b) => (*b % 4) as u8, Tagged(g, _) => 3 + g % 2 };
                let mapped: Vec<u8> = m.iter().map(|t| match t { T::U(b) => (*b % 4) as u8, T::G(g, _) => 3 + g % 2 }).collect();
                let mut r = RefAutomaton::new(set);
                let (mut at, mut tags) = (0, vec![]);
                while at < mapped.len() {
                    match r.longest(&mapped[at..]) { Some((k, o)) if k > 0 => { tags.push((at, at + k, o)); at += k; } _ => at += 1 }
                }
                let want = with_tags(&m, &tags);
                let calls = RefCell::new(0usize);
                let got = s.tokenize(&dfa, |x| { *calls.borrow_mut() += 1; map(&x) });
                ctx.step();
                let fail = |e: String| format!("{} symbols, shape {}, tokenized {} times: {}", n, i / ns, l + 1, e);
                same_long(&got, &want).map_err(&fail)?;
                same_long(&s, &m).map_err(|e| fail(format!("the original changed: {}", e)))?;
                if *calls.borrow() != m.len() { return Err(fail(format!("the mapping was applied {} times to {} symbols", calls.borrow(), m.len()))); }
                s = got;
                m = want;
                if l == 0 {
                    let made: Stream<u8> = TaggedStream::from_tokenized_reader(&mut w.read_symbols(), &dfa);
                    let plain: Vec<T<u8>> = w.iter().map(|b| T::U(*b)).collect();
                    same_long(&made, &with_tags(&plain, &tags)).map_err(|e| fail(format!("from_tokenized_reader: {}", e)))?;
                }
            }
            let mut flat = vec![];
            expand(&m, &mut flat);
            if flat != v { return Err(format!("{} symbols, shape {}: symbols were lost", n, i / ns)); }
            ctx.state(&(n, i / ns));
            ctx.trace();
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C18", level: "model_checking", assumptions: vec!["pattern sets are those of the stated pool".into()], families })
}
