//! C02: longest match wins, ties go to the lowest output, whatever the order of addition.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::product::*;
use mc::scale;
use mc::space::*;
use std::cmp::Reverse;
use std::fmt::Debug;

fn build<S: Sym, O: Ord + Clone + Debug + 'static>(ps: &[(P, O)], axis: &Axis<S>) -> SymbolRangeDfa<S, O> {
    let mut tm = TokenMatcher::new();
    for (p, o) in ps {
        tm.add_pattern(axis.pattern(p), o.clone());
    }
    tm.prepare_to_match()
}

fn check<S: Sym, O: Ord + Clone + Debug + 'static>(ps: &[(P, O)], axis: &Axis<S>, mentioned: &[u8], maxlen: u32, ctx: &mut Ctx) -> CaseResult {
    let show = || ps.iter().map(|(p, o)| format!("{:?} -> {:?}", axis.pattern(p), o)).collect::<Vec<_>>().join("; ");
    let dfa = build(ps, axis);
    let mut r = RefAutomaton::new(ps);
    let tag = fp(&format!("{:?}", ps));
    let e = product(&dfa, axis, &mut r, tag, ctx).map_err(|m| format!("patterns {}\n{}", show(), m))?;
    let outputs: Vec<O> = ps.iter().map(|x| x.1.clone()).collect();
    for w in &e.access {
        check_run(&dfa, axis, &mut r, w, ctx).map_err(|m| format!("patterns {}\n{}", show(), m))?;
        check_accepted(&dfa, &axis.string(w), &r.longest(w), &outputs).map_err(|m| format!("patterns {}\n{}", show(), m))?;
    }
    let k = mentioned.len() as u64;
    for i in 0..string_count(k, maxlen) {
        let w: Vec<u8> = string(k, i).into_iter().map(|x| mentioned[x as usize]).collect();
        check_reference(ps, &mut r, &w);
        check_run(&dfa, axis, &mut r, &w, ctx).map_err(|m| format!("patterns {}\n{}", show(), m))?;
        if i < 3 { ctx.outcome(&format!("{:?}", r.longest(&w))); }
    }
    ctx.sample(|| format!("{}: {} product states", show(), e.access.len()));
    Ok(())
}

fn curated() -> Vec<P> {
    let b = |p| Box::new(p);
    let (a, bb, c) = (0u8, 1u8, 2u8);
    vec![
        P::Eps, lit(&[]), lit(&[a]), lit(&[bb]), lit(&[a, bb]), lit(&[a, a]), P::Range(a, bb), P::Range(bb, c), P::Range(a, c),
        P::Inf(0, b(lit(&[a]))), P::Inf(1, b(lit(&[a]))), P::Inf(0, b(P::Range(a, c))), P::Any(vec![lit(&[a]), lit(&[a, bb])]),
        P::Rep(0, 3, b(lit(&[a]))), P::Inf(0, b(lit(&[a, bb]))), P::Any(vec![P::Eps, lit(&[bb])]), P::Any(vec![]), P::All(vec![]),
        P::Rep(0, 0, b(lit(&[a]))), P::Inf(1, b(P::Any(vec![lit(&[bb]), P::Eps]))), P::All(vec![P::Inf(0, b(lit(&[a]))), lit(&[bb])]),
        P::Rep(2, 3, b(P::Range(a, bb))), P::Inf(2, b(lit(&[a]))), lit(&[a, bb, a]),
    ]
}

fn permutation_count(n: usize) -> u64 { (1..=n as u64).product() }

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(family("many", format!("n patterns in one matcher, for every n of {:?} (strings of every length: up to 301), added in three orders, with ascending, descending, equal or repeating outputs: single symbols, the same one, strings of every length, nested ranges, strings that end alike, repetitions", scale::SIZES), scale::SIZES.len() as u64 * 6 * 4 * 3, move |i, ctx| {
        let d = digits(i, &[3, 4, 6, scale::SIZES.len() as u64]);
        let n = scale::SIZES[d[3] as usize];
        let kind = d[2];
        if n > match kind { 2 => 301, 3 => 129, 5 => 65, _ => 5001 } { return Ok(()); }
        let out = |k: usize| match d[1] { 0 => k as u32, 1 => (n - k) as u32, 2 => 7, _ => (k * 7 % 11) as u32 };
        let pat = |k: usize| -> Pattern<u32> {
            let x = k as u32;
            match kind {
                0 => Match(vec![3 * x]),
                1 => Match(vec![5, 6]),
                2 => Match(vec![0; k + 1]),
                3 => MatchRange(x, 2 * n as u32 - x),
                4 => Match(vec![x, 1]),
                _ => RepeatInfinite(x, Box::new(Match(vec![0]))),
            }
        };
        // the patterns that match a word, and how much of it
        let best = |w: &[u32]| -> Option<(usize, u32)> {
            let zeroes = w.iter().take_while(|x| **x == 0).count();
            let (len, ks): (usize, Vec<usize>) = match kind {
                0 => match w.first() { Some(x) if x % 3 == 0 && (*x as usize) < 3 * n => (1, vec![*x as usize / 3]), _ => return None },
                1 => if w.len() >= 2 && w[..2] == [5, 6] { (2, (0..n).collect()) } else { return None },
                2 => if zeroes == 0 { return None } else { (zeroes.min(n), vec![zeroes.min(n) - 1]) },
                3 => match w.first() { Some(x) if (*x as usize) <= 2 * n => { let x = *x as usize; (1, (0..n).filter(|k| *k <= x && x <= 2 * n - k).collect()) } _ => return None },
                4 => if w.len() >= 2 && (w[0] as usize) < n && w[1] == 1 { (2, vec![w[0] as usize]) } else { return None },
                _ => (zeroes, (0..n).filter(|k| *k <= zeroes).collect()),
            };
            ks.into_iter().map(|k| out(k)).min().map(|o| (len, o))
        };
        let mut order: Vec<usize> = (0..n).collect();
        if d[0] == 1 { order.reverse(); }
        if d[0] == 2 { order.rotate_left(n / 3); for k in (0..n - 1).step_by(2) { order.swap(k, k + 1); } }
        let mut tm = TokenMatcher::new();
        for k in order { tm.add_pattern(pat(k), out(k)); }
        let dfa = tm.prepare_to_match();
        for k in scale::picks(n + 1) {
            let x = k as u32;
            let w = match kind {
                0 => vec![3 * x, 3 * x],
                1 => vec![5, 6 - x % 2],
                2 | 5 => vec![0; k],
                3 => vec![if k % 2 == 0 { x } else { 2 * n as u32 - x }],
                _ => vec![x, 1, 1],
            };
            let want = best(&w);
            let got = run_real(&dfa, &w)?;
            ctx.trace();
            ctx.step();
            ctx.state(&(d[0], d[1], kind, n, k));
            let fail = |got| Err(format!("{} patterns of kind {}, outputs {}, order {}: an input of {} symbols that begins {:?}: {:?}, expected {:?}", n, kind, d[1], d[0], w.len(), &w[..w.len().min(4)], got, want));
            if got != want { return fail(got); }
            let mut longer = w.clone();
            longer.push(scale::STOP);
            let got = run_real(&dfa, &longer)?;
            if got != want { return fail(got); }
        }
        ctx.outcome("many");
        Ok(())
    }));
    {
        let g = Grammar::new(atoms3(0, 1, 7), unaries(), false, 2);
        let n = g.total();
        f.push(family("pairs", format!("every ordered pair of the {} patterns of at most 2 nodes, outputs (1,2), (2,1) and (1,1); all inputs (product), all strings up to length 3", n), n * n * 3, move |i, ctx| {
            let d = digits(i, &[3, n, n]);
            let (x, y) = [(1u8, 2u8), (2, 1), (1, 1)][d[0] as usize];
            check(&[(g.get(d[2]), x), (g.get(d[1]), y)], &axis_u8(), &[0, 1, 7], 3, ctx)
        }));
    }
    {
        let g = Grammar::new(atoms3(0, 1, 7), unaries(), false, t.pick(3, 4));
        let c = curated();
        let n = g.total();
        let k = c.len() as u64;
        f.push(family("pattern-vs-curated", format!("every pattern of at most {} nodes against each of {} fixed patterns, in both orders, with outputs lower-first or higher-first", t.pick(3, 4), k), n * k * 4, move |i, ctx| {
            let d = digits(i, &[4, k, n]);
            let mut ps = vec![(g.get(d[2]), 5i32), (c[d[1] as usize].clone(), if d[0] & 1 == 0 { 3 } else { 9 })];
            if d[0] & 2 == 2 { ps.reverse(); }
            check(&ps, &axis_u8(), &[0, 1, 7], 2, ctx)
        }));
    }
    // Sets of many ranges in every arrangement
    {
        use mc::bigm;
        let ns: Vec<usize> = bigm::SIZES.iter().cloned().filter(|n| *n <= t.pick(301, 1025)).collect();
        f.push(family("arrangements", format!("n ranges for n of {:?} in {} arrangements, added in 5 orders, with outputs ascending, descending or repeating; the symbols at the ends and in the middle of each", ns, bigm::ARRANGEMENTS), (ns.len() * bigm::ARRANGEMENTS * 15) as u64, move |i, ctx| {
            let d = digits(i, &[3, 5, bigm::ARRANGEMENTS as u64, ns.len() as u64]);
            let n = ns[d[3] as usize];
            let Some((name, rs)) = bigm::ranges(d[2] as usize, n) else { return Ok(()) };
            let out = |k: usize| match d[0] { 0 => k as u32, 1 => (n - k) as u32, _ => (k * 7 % 11) as u32 };
            let mut tm = TokenMatcher::new();
            for k in bigm::shuffled(&(0..n).collect::<Vec<_>>(), d[1] as usize) { tm.add_pattern(MatchRange(rs[k].0, rs[k].1), out(k)); }
            let dfa = tm.prepare_to_match();
            for k in scale::picks(n) {
                for x in [rs[k].0.saturating_sub(1), rs[k].0, rs[k].0 + (rs[k].1 - rs[k].0) / 2, rs[k].1, rs[k].1 + 1] {
                    let want = (0..n).filter(|j| rs[*j].0 <= x && x <= rs[*j].1).map(|j| out(j)).min().map(|o| (1, o));
                    let got = run_real(&dfa, &vec![x, x])?;
                    ctx.trace();
                    ctx.step();
                    ctx.state(&(i, x));
                    if got != want { return Err(format!("{} ranges, {}, order {}, outputs {}: symbol {}: {:?}, expected {:?}", n, name, d[1], d[0], x, got, want)); }
                }
            }
            ctx.outcome("arrangements");
            Ok(())
        }));
    }
    // Words of ranges: what overlaps does so between different states only
    for (name, n, most, k) in t.pick(vec![("range-words-2", 2usize, 2u32, 10usize), ("range-words-3", 3, 2, 5)], vec![("range-words-2", 2, 3, 10), ("range-words-3", 3, 2, 10), ("range-words-4", 4, 2, 5)]) {
        let mut rs = vec![(0u8, 3u8), (0, 2), (1, 3), (1, 1), (2, 3), (0, 0), (0, 1), (1, 2), (2, 2), (3, 3)];
        rs.truncate(k);
        let one = string_count(k as u64, most) - 1;
        f.push(family(name, format!("every list of {} words of 1 to {} of {} ranges of neighbouring symbols, outputs ascending, descending or equal", n, most, k), one.pow(n as u32) * 3, move |i, ctx| {
            let word = |x: usize| P::All(string(k as u64, x as u64 + 1).into_iter().map(|r| P::Range(rs[r as usize].0, rs[r as usize].1)).collect());
            let ps: Vec<(P, u8)> = seq(i / 3, one, n).into_iter().enumerate().map(|(j, x)| (word(x), [j as u8, 9 - j as u8, 4][(i % 3) as usize])).collect();
            check(&ps, &Axis::new(vec![9u8, 10, 11, 12, 13]), &[0, 1], 1, ctx)
        }));
    }
    {
        let b = t.pick(Bank::new(4, 12, (2, 3, 3), 5, 1), Bank::new(5, 20, (2, 3, 4), 6, 2));
        let others = [lit(&[1, 2]), P::Range(0, 3), P::Rep(1, 4, Box::new(lit(&[0])))];
        f.push(family("bank", format!("{}: each by itself and with each of 3 other patterns, before or after it, with a lower, higher or equal output", b.text()), b.total() * 10, move |i, ctx| {
            let mut ps = vec![(b.get(i / 10), 5i32)];
            if i % 10 < 9 { ps.push((others[(i % 3) as usize].clone(), [3, 9, 5][(i % 10 / 3) as usize])); }
            if i / 10 % 2 == 1 { ps.reverse(); }
            check(&ps, &Axis::new(vec![9u8, 10, 11, 12, 13, 14]), &[0, 1, 2], 2, ctx)
        }));
    }
    // Patterns of every kind and size with a short one beside them
    f.push(family("scale", format!("{} kinds of patterns (literals, alternatives, sequences, repetitions, nestings) of every size of {:?}, as one of two patterns, of which the other matches nothing but the first symbol; inputs around every power of two", scale::KINDS, scale::SIZES), (scale::KINDS * scale::SIZES.len()) as u64 * 2, move |i, ctx| {
        let (kind, n) = ((i / 2) as usize / scale::SIZES.len(), scale::SIZES[(i / 2) as usize % scale::SIZES.len()]);
        if n > t.pick(1025, 5001) { return Ok(()); }
        let Some(b) = scale::big(kind, n, scale::How::Direct) else { return Ok(()) };
        let (o, own) = (1 + i % 2, 3 - 2 * (i % 2));
        for first in scale::picks(b.words.len().max(1)).into_iter().filter_map(|j| b.words.get(j).and_then(|w| w.0.first().cloned())).take(1) {
            let mut tm = TokenMatcher::new();
            tm.add_pattern(b.p.clone(), own);
            tm.add_pattern(Match(vec![first]), o + 1);
            let dfa = tm.prepare_to_match();
            for (w, want) in &b.words {
                let short = if w.first() == Some(&first) { Some(1usize) } else { None };
                let want = match (*want, short) {
                    (Some(x), Some(1)) if x == 1 => Some((1, own.min(o + 1))),
                    (Some(x), s) if x > s.unwrap_or(0) || s.is_none() => Some((x, own)),
                    (_, Some(1)) => Some((1, o + 1)),
                    _ => None,
                };
                let got = run_real(&dfa, w)?;
                ctx.trace();
                ctx.transitions += w.len() as u64;
                ctx.state(&(kind, n, w));
                if got != want { return Err(format!("{} beside the single symbol {}: an input of {} symbols that begins {:?}: {:?}, expected {:?}", b.name, first, w.len(), &w[..w.len().min(8)], got, want)); }
            }
        }
        ctx.outcome("scale");
        Ok(())
    }));
    {
        let c = curated();
        let k = c.len() as u64;
        f.push(family("triples", format!("every ordered triple of {} fixed patterns with every assignment of outputs from 0..=2; all inputs, all strings up to length 3", k), k * k * k * 27, move |i, ctx| {
            let d = digits(i, &[3, 3, 3, k, k, k]);
            let ps: Vec<(P, u8)> = (0..3).map(|j| (c[d[5 - j] as usize].clone(), d[j] as u8)).collect();
            check(&ps, &Axis::new(vec![10u8, 11, 12, 13]), &[0, 1, 2], 3, ctx)
        }));
    }
    for (name, k, most, n) in t.pick(vec![("words-3", 3u64, 2u32, 3usize), ("words-3-long", 2, 3, 3), ("words-4", 2, 2, 4)], vec![("words-3", 3, 3, 3), ("words-3-long", 2, 4, 3), ("words-4", 2, 3, 4)]) {
        let one = string_count(k, most);
        let o = permutation_count(n);
        f.push(family(name, format!("every list of {} literals of up to {} symbols over {}, outputs in every order or all equal", n, most, k), one.pow(n as u32) * (o + 1), move |i, ctx| {
            let order = if i % (o + 1) == o { vec![1; n] } else { permutation(n, i % (o + 1)) };
            let ps: Vec<(P, u8)> = seq(i / (o + 1), one, n).into_iter().zip(order).map(|(x, o)| (lit(&string(k, x as u64)), o as u8)).collect();
            check(&ps, &Axis::new(vec![10u8, 11, 12]), &[0, 1], 1, ctx)
        }));
    }
    {
        let c: Vec<P> = curated().into_iter().take(t.pick(8, 14)).collect();
        let k = c.len() as u64;
        f.push(family("quadruples", format!("every ordered list of four of {} fixed patterns with outputs a permutation of 0..=3, as a type ordered backwards", k), k.pow(4) * 24, move |i, ctx| {
            let d = digits(i, &[24, k, k, k, k]);
            let o = permutation(4, d[0]);
            let ps: Vec<(P, Reverse<usize>)> = (0..4).map(|j| (c[d[4 - j] as usize].clone(), Reverse(o[j]))).collect();
            check(&ps, &Axis::new(vec!['x', 'y', 'z', '~']), &[0, 1, 2], 2, ctx)
        }));
    }
    // Keywords against identifiers, with every order of addition
    {
        f.push(family("keyword-orders", "five overlapping token patterns (two keywords, identifier, digits, anything) in all 120 orders x all 120 assignments of outputs, String outputs".into(), 120 * 120, move |i, ctx| {
            let ps = [lit(&[0, 1]), lit(&[0, 1, 0]), P::Inf(1, Box::new(P::Range(0, 1))), P::Inf(0, Box::new(P::Range(2, 3))), P::Range(0, 3)];
            let ord = permutation(5, i / 120);
            let outs = permutation(5, i % 120);
            let v: Vec<(P, String)> = ord.iter().map(|j| (ps[*j].clone(), format!("tok{}", outs[*j]))).collect();
            check(&v, &Axis::new(vec!['a', 'b', 'c', 'd', '~']), &[0, 1, 2], 3, ctx)
        }));
    }
    // Many patterns: outputs beyond one byte, many accepting at once
    {
        let max = t.pick(300u64, 700);
        f.push(family("many-patterns", format!("n patterns for n up to {}: nested ranges, the same literal, growing literals, each with outputs ascending, descending and mixed", max), max * 3, move |i, ctx| {
            let n = (i / 3 + 1) as usize;
            let axis = Axis::new((0..=60u16).map(|x| x * 1000).collect());
            let mut outs: Vec<u32> = (0..n as u32).map(|x| x * 3 + 1).collect();
            match i % 3 { 0 => {}, 1 => outs.reverse(), _ => { outs = (0..n as u64).map(|x| ((x * 7919) % 1009 * 1000 + x) as u32).collect() } }
            let mut forms: Vec<Vec<(P, u32)>> = vec![];
            forms.push((0..n).map(|j| (P::Range((j % 30) as u8, 60 - (j % 25) as u8), outs[j])).collect());
            forms.push((0..n).map(|j| (lit(&[1, (j % 2) as u8]), outs[j])).collect());
            forms.push((0..n).map(|j| (P::Rep(j as u32 % 13, j as u32 % 17 + 2, Box::new(lit(&[1]))), outs[j])).collect());
            forms.push((0..n).map(|j| (lit(&[(j % 60) as u8, (j / 60) as u8]), outs[j])).collect());
            for ps in forms {
                let dfa = build(&ps, &axis);
                let mut r = RefAutomaton::new(&ps);
                let e = product(&dfa, &axis, &mut r, fp(&(n, i % 3, ps.len(), &ps[0].0)), ctx).map_err(|m| format!("{} patterns {:?}...\n{}", n, &ps[..ps.len().min(4)], m))?;
                for w in e.access.iter().take(200) {
                    check_run(&dfa, &axis, &mut r, w, ctx).map_err(|m| format!("{} patterns {:?}...\n{}", n, &ps[..ps.len().min(4)], m))?;
                }
            }
            Ok(())
        }));
    }
    // One matcher prepared after every addition
    {
        let c: Vec<P> = curated().into_iter().take(t.pick(14, 24)).collect();
        let k = c.len() as u64;
        f.push(family("grown", format!("one token matcher to which three of {} patterns are added one after another (in every order, outputs a permutation of 0..=2 or all equal), prepared before, between and after, also through its machine; what was prepared earlier stays as it was", k), k * k * k * 7, move |i, ctx| {
            let d = digits(i, &[7, k, k, k]);
            let axis = Axis::new(vec![10u8, 11, 12, 13]);
            let o: Vec<usize> = if d[0] == 6 { vec![1, 1, 1] } else { permutation(3, d[0]) };
            let ps: Vec<(P, u8)> = (0..3).map(|j| (c[d[3 - j] as usize].clone(), o[j] as u8)).collect();
            let mut tm = TokenMatcher::new();
            let mut made: Vec<(usize, SymbolRangeDfa<u8, u8>)> = vec![(0, tm.prepare_to_match())];
            for (j, (p, o)) in ps.iter().enumerate() {
                tm.add_pattern(axis.pattern(p), *o);
                if d[0] % 2 == 0 || j == 2 { made.push((j + 1, (&tm).prepare_to_match())); }
                if d[0] % 3 == 0 { made.push((j + 1, tm.to_ndfa().prepare_to_match())); }
            }
            made.push((3, tm.prepare_to_match()));
            for (n, dfa) in &made {
                let part = &ps[..*n];
                let mut r = RefAutomaton::new(part);
                for x in 0..string_count(3, 3) {
                    check_run(dfa, &axis, &mut r, &string(3, x), ctx).map_err(|m| format!("the first {} of {:?}, one matcher prepared {} times\n{}", n, ps, made.len(), m))?;
                }
                ctx.state(&(fp(&format!("{:?}", part)), n));
            }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C02",
        level: "model_checking",
        assumptions: vec![
            "the iteration order of the library's internal hash sets is chosen by the standard library per run; every case runs under the order it happens to get, and C03 enumerates listing orders exhaustively at the seam where that order reaches the compiler".into(),
            "symbols between two neighbouring axis symbols behave alike".into(),
        ],
        families,
    })
}
