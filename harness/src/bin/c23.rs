//! C23: every way of asking for a match gives the same answer.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::scale;
use mc::space::*;
use std::rc::Rc;

fn axis() -> Axis<char> { Axis::new(vec!['a', 'b', 'c', 'd']) }

fn len_of<S: Sym, O: 'static, R: SymbolReader<S>>(d: &SymbolRangeDfa<S, O>, mut r: R) -> Option<usize> {
    match match_pattern(d.start(), &mut r) { Accept(n, _) => Some(n), _ => None }
}

/// Every matcher that can be made of one pattern, by name
fn matchers<S: Sym>(p: &Pattern<S>) -> Vec<(&'static str, SymbolRangeDfa<S, u8>)> {
    let mut v: Vec<(&'static str, SymbolRangeDfa<S, u8>)> = vec![];
    v.push(("machine prepared", p.to_ndfa(7u8).prepare_to_match()));
    v.push(("compiled by hand", DfaCompiler::build(p.to_ndfa(7u8), SymbolRangeDfaBuilder::new())));
    v.push(("compiled by new", DfaCompiler::new(p.to_ndfa(7u8), SymbolRangeDfaBuilder::new()).compile()));
    {
        let d: &dyn ToPattern<S> = p;
        v.push(("machine of a convertible", d.to_ndfa(7u8).prepare_to_match()));
    }
    let mut m = TokenMatcher::new();
    m.add_pattern(p.clone(), 7u8);
    v.push(("token matcher", (&m).prepare_to_match()));
    v.push(("token matcher's machine", m.to_ndfa().prepare_to_match()));
    let mut m = TokenMatcher::new();
    m.add_pattern(Box::new(p.clone()), 7u8);
    v.push(("token matcher of a boxed pattern", m.prepare_to_match()));
    let mut n: Ndfa<SymbolRange<S>, u8> = Ndfa::new();
    let end = p.compile(&mut n, 0);
    n.set_output_symbol(end, 7);
    n.fix_overlapping_ranges();
    let b: Box<dyn StateMachine<SymbolRange<S>, u8>> = Box::new(n);
    v.push(("compiled into a machine", b.prepare_to_match()));
    let mut n: Ndfa<SymbolRange<S>, u8> = Ndfa::new();
    n.create_state(3);
    let end = p.compile(&mut n, 0);
    n.set_output_symbol(end, 7);
    n.fix_overlapping_ranges();
    let r: Rc<dyn StateMachine<SymbolRange<S>, u8>> = Rc::new(n);
    v.push(("compiled into a shared machine with more states", DfaCompiler::build(r, SymbolRangeDfaBuilder::new())));
    v
}

fn check(p: &P, literal: bool, words: &[Vec<u8>], ctx: &mut Ctx) -> CaseResult { check_over(&axis(), p, literal, words, 5, ctx) }

/// (one-shot calls are made for every `every`th input)
fn check_over(ax: &Axis<char>, p: &P, literal: bool, words: &[Vec<u8>], every: usize, ctx: &mut Ctx) -> CaseResult {
    let pat = ax.pattern(p);
    let base = pat.clone().prepare_to_match();
    let ms = matchers(&pat);
    let same = base.clone().prepare_to_match();
    let dynp: &dyn ToPattern<char> = &pat;
    let by_dyn = dynp.prepare_to_match();
    let text: Option<String> = if literal { if let P::Lit(l) = p { Some(ax.string(l).into_iter().collect()) } else { None } } else { None };
    for (k, w) in words.iter().enumerate() {
        let v = ax.string(w);
        let s: String = v.iter().collect();
        let want = matches_prepared(&s[..], &base);
        let fail = |how: &str, got: Option<usize>| Err(format!("pattern {:?}, input {:?}: {} gives {:?}, a prepared pattern over a str gives {:?}", pat, s, how, got, want));
        macro_rules! eq { ($how:expr, $got:expr) => {{ let g: Option<usize> = $got; ctx.trace(); if g != want { return fail($how, g); } }}; }
        eq!("a vector source", matches_prepared(&v, &base));
        eq!("a second use", matches_prepared(&s[..], &base));
        eq!("a DFA prepared again", matches_prepared(&v, &same));
        eq!("a reference to a convertible", matches_prepared(&v, &by_dyn));
        eq!("match_pattern over an owned vector", len_of(&base, VecReader::from_vec(v.clone())));
        eq!("match_pattern over a boxed reader", len_of(&base, Box::new(VecReader::from_vec(v.clone())) as Box<dyn SymbolReader<char>>));
        eq!("match_pattern over a mapped reader", { let a2 = ax.syms.clone(); len_of(&base, w.read_symbols().map_symbols(move |c: u8| a2[c as usize])) });
        eq!("match_pattern over a filtered reader", len_of(&base, v.iter().flat_map(|c| vec![None, Some(*c)]).filter_map(|c| c)));
        eq!("match_pattern over a tape", len_of(&base, Tape::new(v.read_symbols())));
        {
            let mut src = v.read_symbols();
            let (a, b) = src.split();
            eq!("match_pattern over the second half of a split reader", len_of(&base, b));
            eq!("match_pattern over the first half of a split reader", len_of(&base, a));
        }
        {
            let mut tape = Tape::new(s.read_symbols());
            for _ in 0..w.len() { tape.next_symbol(); }
            tape.rewind(w.len());
            eq!("match_pattern over a rewound tape", len_of(&base, tape));
        }
        let by_step = {
            let mut a = base.start();
            for c in &v { a = match a { More(st) => st.next(*c), x => x }; }
            match match a { More(st) => st.finish(), x => x } { Accept(n, _) => Some(n), _ => None }
        };
        eq!("stepping by hand", by_step);
        for (how, m) in &ms {
            eq!(how, matches_prepared(&v, m));
            let mut r = s.read_symbols();
            match match_pattern(m.start(), &mut r) {
                Accept(n, o) => { if *o != 7 { return Err(format!("{}: output {}", how, o)); } eq!(how, Some(n)) }
                Reject => eq!(how, None),
                More(_) => return Err(format!("{}: more", how)),
            }
        }
        // tokenizers give the same, except that an empty match is no token
        let tok = want.and_then(|n| if n > 0 { Some((0..n, ())) } else { None });
        let got = Tokenizer::new_prepared(v.read_symbols(), &base).next_token();
        if got != tok { return Err(format!("pattern {:?}, input {:?}: a tokenizer gives {:?}, matching gives {:?}", pat, s, got, want)); }
        if k % every == 0 {
            // one-shot calls, which prepare the pattern each time
            eq!("matches with the pattern", matches(&s[..], pat.clone()));
            eq!("matches over a vector", matches(&v, pat.clone()));
            eq!("matches with a convertible", matches(&v, dynp));
            eq!("matches with a machine", matches(&s[..], pat.to_ndfa(3u8)));
            eq!("matches with a prepared DFA", matches(&s[..], base.clone()));
            let got = Tokenizer::new(s.read_symbols(), pat.clone()).next_token();
            if got != tok { return Err(format!("pattern {:?}, input {:?}: Tokenizer::new gives {:?}, matching gives {:?}", pat, s, got, want)); }
            let mut m = TokenMatcher::new();
            m.add_pattern(pat.clone(), 5u8);
            eq!("matches with a token matcher", matches(&v, &m));
            let got = Tokenizer::new(s.read_symbols(), &m).next_token();
            if got.clone().map(|x| x.0) != tok.clone().map(|x| x.0) || got.map_or(false, |x| x.1 != 5) { return Err(format!("pattern {:?}, input {:?}: Tokenizer::new with a token matcher differs", pat, s)); }
            if let Some(ref t) = text {
                eq!("matches with a str", matches(&s[..], &t[..]));
                eq!("matches with exactly(str)", matches(&v, exactly(&t[..])));
                eq!("the machine of a str", matches(&v, t.to_ndfa(1u8)));
                let chars: Vec<char> = t.chars().collect();
                eq!("the machine of a slice", matches(&v, chars[..].to_ndfa(1u8)));
                eq!("matches with a vector", matches(&v, &chars as &dyn ToPattern<char>));
                let d = (&t[..]).prepare_to_match();
                eq!("a prepared str", matches_prepared(&v, &d));
                let mut m = TokenMatcher::new();
                m.add_pattern(chars.clone(), 5u8);
                eq!("a token matcher of a vector", matches(&v, &m));
                let mut n: Ndfa<SymbolRange<char>, u8> = Ndfa::new();
                let e = chars.to_pattern().compile(&mut n, 0);
                n.set_output_symbol(e, 1);
                eq!("a machine compiled from a vector", matches_prepared(&v, &DfaCompiler::build(n, SymbolRangeDfaBuilder::new())));
            }
        }
        if k < 3 { ctx.outcome(&format!("{:?}", want)); }
        ctx.step();
        ctx.state(&(p, w));
    }
    ctx.sample(|| format!("{:?} over {} inputs", pat, words.len()));
    Ok(())
}

/// Large patterns and long inputs: every matcher, every kind of source
fn check_scale(b: &scale::Big, literal: Option<&Vec<u32>>, ctx: &mut Ctx) -> CaseResult {
    let base = b.p.clone().prepare_to_match();
    let mut ms = matchers(&b.p);
    if let Some(l) = literal {
        ms.push(("the machine of a slice", l[..].to_ndfa(7u8).prepare_to_match()));
        let d: &dyn ToPattern<u32> = l;
        ms.push(("the machine of a vector", d.to_ndfa(7u8).prepare_to_match()));
        let text: String = l.iter().map(|c| char::from_u32(*c + 60).unwrap()).collect();
        let by_str = (&text[..]).prepare_to_match();
        let by_machine = text.to_ndfa(7u8).prepare_to_match();
        for (w, want) in &b.words {
            let v: String = w.iter().map(|c| char::from_u32((*c).min(500_000) + 60).unwrap()).collect();
            for (how, got) in [("a prepared str", matches_prepared(&v[..], &by_str)), ("the machine of a str", matches_prepared(&v[..], &by_machine)), ("matches with a str", matches(&v[..], &text[..]))] {
                ctx.trace();
                if got != *want { return Err(format!("{}: an input of {} symbols: {} gives {:?}, expected {:?}", b.name, w.len(), how, got, want)); }
            }
        }
    }
    for (k, (w, want)) in b.words.iter().enumerate() {
        let mut got: Vec<(&str, Option<usize>)> = ms.iter().map(|(how, m)| (*how, matches_prepared(w, m))).collect();
        got.push(("an owned vector", len_of(&base, VecReader::from_vec(w.clone()))));
        got.push(("a boxed reader", len_of(&base, Box::new(VecReader::from_vec(w.clone())) as Box<dyn SymbolReader<u32>>)));
        got.push(("a mapped reader", len_of(&base, w.read_symbols().map_symbols(|c: u32| c))));
        got.push(("a filtered reader", len_of(&base, w.iter().flat_map(|c| vec![None, Some(*c)]).filter_map(|c| c))));
        let mut tape = Tape::new(w.read_symbols());
        for _ in 0..w.len() { tape.next_symbol(); }
        tape.rewind(w.len());
        got.push(("a rewound tape", len_of(&base, tape)));
        got.push(("a tape", len_of(&base, Tape::new(w.read_symbols()))));
        {
            let mut src = w.read_symbols();
            let (a, c) = src.split();
            got.push(("the second half of a split reader", len_of(&base, c)));
            got.push(("the first half of a split reader", len_of(&base, a)));
        }
        let mut a = base.start();
        for c in w { a = match a { More(st) => st.next(*c), x => x }; }
        got.push(("stepping by hand", match match a { More(st) => st.finish(), x => x } { Accept(n, _) => Some(n), _ => None }));
        if *want != Some(0) { got.push(("a tokenizer", Tokenizer::new_prepared(w.read_symbols(), &base).next_token().map(|x| x.0.end))); }
        if k % 16 == 3 { got.push(("matches with the pattern", matches(w, b.p.clone()))); got.push(("matches with a machine", matches(w, b.p.to_ndfa(3u8)))); }
        for (how, g) in got {
            ctx.trace();
            if g != *want { return Err(format!("{}: an input of {} symbols that begins {:?}: {} gives {:?}, expected {:?}", b.name, w.len(), &w[..w.len().min(8)], how, g, want)); }
        }
        ctx.transitions += w.len() as u64;
        ctx.state(&(&b.name, w));
    }
    ctx.outcome("scale");
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let most = t.pick(301usize, 1025);
    f.push(family("scale", format!("{} kinds of patterns of every size of {:?} up to {}, inputs around every power of two: about 25 ways of asking", scale::KINDS, scale::SIZES, most), (scale::KINDS * scale::SIZES.len()) as u64, move |i, ctx| {
        let (kind, n) = (i as usize / scale::SIZES.len(), scale::SIZES[i as usize % scale::SIZES.len()]);
        // (these grow with the square, and are compiled about 25 times)
        if n > most || (n > 65 && [3, 5, 7, 22].contains(&kind)) { return Ok(()); }
        let Some(b) = scale::big(kind, n, scale::How::Direct) else { return Ok(()) };
        let l = if kind == 0 { Some(b.words[0].0.clone()) } else { None };
        check_scale(&b, l.as_ref(), ctx)
    }));
    {
        let len = t.pick(4u32, 5);
        let words = strings(3, t.pick(4, 6));
        let ax = text_axis();
        let (k, n) = (ax.len(), t.pick(2u32, 3));
        f.push(family("texts", format!("every literal of up to {} characters over {} that text handling might treat specially; itself, shortened, extended and with each symbol replaced by its neighbours, in the same ways", n, k), string_count(k as u64, n), move |i, ctx| {
            let w = string(k as u64, i);
            let mut words = vec![w.clone()];
            for j in 0..=w.len() {
                words.push(w[..j].to_vec());
                words.push(w[j..].to_vec());
                for c in [0, 3, 4, 8, k as u8 - 6, k as u8 - 1] { let mut x = w.clone(); x.insert(j, c); words.push(x); }
                if j < w.len() {
                    for c in [(w[j] + 1) % k as u8, (w[j] + k as u8 - 1) % k as u8, w[j] ^ 2] { if (c as usize) < k { let mut x = w.clone(); x[j] = c; words.push(x); } }
                }
            }
            check_over(&ax, &lit(&w), true, &words, 1, ctx)
        }));
        f.push(family("literals", format!("every literal of up to {} symbols over 3, every input of up to {} symbols, about 45 ways of asking", len, t.pick(4, 6)), string_count(3, len), move |i, ctx| check(&lit(&string(3, i)), true, &words, ctx)));
    }
    {
        let g = Grammar::new(atoms3(0, 1, 2), unaries(), false, t.pick(4, 5));
        let words: Vec<Vec<u8>> = strings(3, 3).into_iter().chain(vec![vec![0, 0, 0, 0], vec![0, 1, 0, 1], vec![1, 1, 0, 3], vec![2, 2, 2, 2, 2]]).collect();
        f.push(family("patterns", format!("every pattern of at most {} nodes over a, b, c with 11 repetition and grouping forms, {} inputs, about 35 ways of asking", t.pick(4, 5), words.len()), g.total(), move |i, ctx| check(&g.get(i), false, &words, ctx)));
    }
    {
        let words = strings(2, t.pick(6, 8));
        let g = Grammar::new(vec![lit(&[0]), P::Range(0, 1), lit(&[1, 0])], vec![Un::Inf(0), Un::Inf(2), Un::Rep(1, 3)], false, 4);
        f.push(family("longer-inputs", format!("every pattern of at most 4 nodes over a, b, every input of up to {} symbols", t.pick(6, 8)), g.total(), move |i, ctx| check(&g.get(i), false, &words, ctx)));
    }
    // More particular patterns: the shortest inputs to every state of the machine
    {
        let b = t.pick(Bank::new(3, 8, (2, 2, 3), 2, 1), Bank::new(4, 20, (2, 3, 3), 6, 1));
        f.push(family("bank", format!("{}: the shortest inputs to every state of the machine, and those that fall out of it", b.text()), b.total(), move |i, ctx| {
            let p = b.get(i);
            let mut r = RefAutomaton::new(&vec![(p.clone(), ())]);
            let mut words = vec![vec![]];
            let mut seen = std::collections::HashSet::new();
            let mut todo = std::collections::VecDeque::from(vec![(r.start(), vec![])]);
            while let Some((s, w)) = todo.pop_front() {
                if !seen.insert(s) || words.len() > 40 { continue; }
                for c in 0..5u8 { let n = r.step(s, c); let mut w2: Vec<u8> = w.clone(); w2.push(c); if !r.is_empty(n) { if !seen.contains(&n) { words.push(w2.clone()); } todo.push_back((n, w2)); } else if c == 3 { words.push(w2); } }
            }
            check_over(&Axis::new(vec!['a', 'b', 'c', 'd', 'e', 'f']), &p, false, &words, 5, ctx)
        }));
    }
    // Overlapping patterns deep inside lists and repetitions: inputs that reach every pair of states
    for (depth, cxs) in t.pick(vec![(1, contexts(6, true)), (2, contexts(4, false))], vec![(1, contexts(9, true)), (2, contexts(6, true)), (3, contexts(3, false))]) {
        let n = (cxs.len() as u64).pow(depth as u32) * 12;
        f.push(family(&format!("in-context-{}", depth), format!("4 pairs of overlapping patterns, as alternatives or in sequence, inside every nesting of depth {} of {} lists and repetitions; the shortest inputs to every state of the machine", depth, cxs.len()), n, move |i, ctx| {
            let p = in_context(i, &cxs, depth);
            let mut r = RefAutomaton::new(&vec![(p.clone(), ())]);
            let mut words = vec![vec![]];
            let mut seen = std::collections::HashSet::new();
            let mut todo = std::collections::VecDeque::from(vec![(r.start(), vec![])]);
            while let Some((s, w)) = todo.pop_front() {
                if !seen.insert(s) || words.len() > 60 { continue; }
                for c in 0..4u8 { let n = r.step(s, c); let mut w2: Vec<u8> = w.clone(); w2.push(c); if !r.is_empty(n) { if !seen.contains(&n) { words.push(w2.clone()); } todo.push_back((n, w2)); } else if c == 3 { words.push(w2); } }
            }
            check(&p, false, &words, ctx)
        }));
    }
    f.push(family("scaled", "literals, repetitions and alternatives of up to 300 symbols against themselves, with a symbol missing, extra or changed".into(), 12 * 4 * 8, |i, ctx| {
        let d = digits(i, &[12, 4, 8]);
        let n = [1usize, 3, 4, 5, 8, 9, 16, 17, 64, 65, 129, 300][d[0] as usize];
        let w: Vec<u8> = (0..n).map(|x| (x * x % 3) as u8).collect();
        let p = match d[1] { 0 => lit(&w), 1 => P::Inf(n as u32 / 2, Box::new(P::Range(0, 2))), 2 => P::Rep(1, n.min(20) as u32 + 1, Box::new(lit(&w[..n.min(3)]))), _ => P::Any(vec![lit(&w), P::Inf(1, Box::new(lit(&w[..n.min(5)]))), lit(&w[..n / 2])]) };
        let mut v = w.clone();
        match d[2] { 0 => {} 1 => { v.pop(); } 2 => v.push(0), 3 => v[n / 2] = 3, 4 => v[n - 1] = (v[n - 1] + 1) % 3, 5 => { v.extend(w.clone()); } 6 => v.clear(), _ => v.insert(0, 3) }
        check(&p, d[1] == 0, &[v], ctx)
    }));
    {
        let sizes = t.pick(vec![999usize, 1000, 1001, 1023, 1024, 1025, 4095, 4097, 8193, 16_385, 32_769, 65_535, 65_536, 65_537, 70_000, 131_073], vec![254usize, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8191, 8193, 9999, 10_001, 16_385, 32_767, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 99_999, 131_073, 262_145]);
        let ns = sizes.len() as u64;
        f.push(family("huge", "inputs of up to 131073 symbols (thorough: 262145) to 8 patterns: matched whole, up to a point far behind what has to be read, not at all, or after a few symbols; literals of up to 2049 symbols".into(), ns * 9 * 3, move |i, ctx| {
            let d = digits(i, &[3, 9, ns]);
            let n = sizes[d[2] as usize];
            let many = |c: u8, k: usize| vec![c; k];
            let a = || lit(&[0]);
            let p = match d[1] {
                0 => P::Inf(0, Box::new(a())),
                1 => P::Inf(1, Box::new(P::Range(0, 1))),
                2 => P::All(vec![P::Inf(0, Box::new(a())), lit(&[1])]),
                3 => P::Any(vec![a(), P::All(vec![P::Inf(1, Box::new(a())), lit(&[2])])]),
                4 => P::Inf(0, Box::new(lit(&[0, 0]))),
                5 => P::Any(vec![P::Rep(0, 4, Box::new(a())), P::All(vec![P::Inf(0, Box::new(a())), lit(&[1, 2])])]),
                6 => P::Inf(0, Box::new(P::Any(vec![lit(&[0, 0, 0]), lit(&[1])]))),
                7 => P::Inf(0, Box::new(P::Inf(2, Box::new(a())))),
                _ => { if n > 2049 { return Ok(()); } lit(&many(0, n)) }
            };
            let w = match d[0] { 0 => many(0, n), 1 => [many(0, n), many(1, 1)].concat(), _ => [many(0, n), many(3, 1), many(0, 1)].concat() };
            check(&p, d[1] == 8, &[w], ctx).map_err(|e| { let l = e.chars().count(); if l < 500 { e } else { format!("{} symbols of a: {} .. {}", n, e.chars().take(200).collect::<String>(), e.chars().skip(l - 200).collect::<String>()) } })
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C23", level: "model_checking", assumptions: vec!["the answers are compared with each other; that they are right is C01".into()], families })
}
