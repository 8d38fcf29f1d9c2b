//! C01: matching reports the longest prefix in the pattern's language.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::product::*;
use mc::scale;
use mc::space::*;

/// Compiles p for symbol type S, explores the product, and runs strings through the real matcher.
fn check<S: Sym>(p: &P, axis: &Axis<S>, mentioned: &[u8], maxlen: u32, ctx: &mut Ctx) -> CaseResult {
    let ps = vec![(p.clone(), ())];
    let mut r = RefAutomaton::new(&ps);
    let dfa = axis.pattern(p).prepare_to_match();
    let tag = fp(p);
    let fail = |m: String| format!("pattern {:?}\n{}", axis.pattern(p), m);
    let e = product(&dfa, axis, &mut r, tag, ctx).map_err(&fail)?;
    for w in &e.access {
        check_run(&dfa, axis, &mut r, w, ctx).map_err(&fail)?;
    }
    let k = mentioned.len() as u64;
    for i in 0..string_count(k, maxlen) {
        let w: Vec<u8> = string(k, i).into_iter().map(|x| mentioned[x as usize]).collect();
        check_reference(&ps, &mut r, &w);
        let v = axis.string(&w);
        let real = matches_prepared(&v, &dfa);
        ctx.trace();
        let want = r.longest(&w).map(|x| x.0);
        if real != want {
            return Err(fail(format!("input {:?}: matched length {:?}, expected {:?}", v, real, want)));
        }
        if i < 4 {
            ctx.outcome(&format!("{:?} of {}", real, w.len()));
        }
    }
    ctx.sample(|| format!("{:?}: {} product states, all strings up to length {}", axis.pattern(p), e.access.len(), maxlen));
    Ok(())
}

fn ast<S: Sym>(name: &str, axis: Axis<S>, m: [u8; 3], size: usize, ternary: bool, maxlen: u32) -> Family {
    let g = Grammar::new(atoms3(m[0], m[1], m[2]), unaries(), ternary, size);
    family(name, format!("every pattern of at most {} nodes over {:?} with 11 repetition/grouping forms; all inputs (product), and all strings up to length {}", size, axis.string(&m), maxlen), g.total(), move |i, ctx| {
        check(&g.get(i), &axis, &m, maxlen, ctx)
    })
}

/// Overlapping alternatives at every place where a narrower representation of the symbols ends
fn windows<S: Sym>(name: &str, w: Vec<Vec<S>>) -> Family {
    let mut rs = vec![];
    for a in 0..4u8 { for b in a..4 { rs.push((a, b)); } }
    let mut sets = vec![];
    for j in 1..=3 { sets.extend(subsets(10, j)); }
    let n = sets.len() as u64;
    family(name, format!("every set of at most 3 of the 10 ranges over four neighbouring symbols around each of {} places (zero, powers of two and their negatives, the ends of the type) as alternatives, each followed by a different literal", w.len()), w.len() as u64 * n, move |i, ctx| {
        let p = P::Any(sets[(i % n) as usize].iter().enumerate().map(|(j, r)| P::All(vec![P::Range(rs[*r].0, rs[*r].1), lit(&[j as u8])])).collect());
        check(&p, &Axis::new(w[(i / n) as usize].clone()), &[0, 1, 2, 3], 2, ctx)
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(ast("ast-u8", axis_u8(), [0, 1, 7], t.pick(5, 6), true, 4));
    f.push(ast("ast-u8-mid", axis_u8(), [1, 4, 6], t.pick(3, 4), true, 5));
    f.push(ast("ast-char-gap", axis_char(), [4, 5, 10], t.pick(4, 5), false, 3));
    f.push(ast("ast-char-low", axis_char(), [0, 4, 8], t.pick(3, 4), false, 3));
    f.push(ast("ast-i8", axis_i8(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-i16", axis_i16(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-i32", axis_i32(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-i64", axis_i64(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-isize", axis_isize(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-u16", axis_u16(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-u32", axis_u32(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-u64", axis_u64(), [0, 3, 6], t.pick(3, 4), false, 3));
    f.push(ast("ast-usize", axis_usize(), [0, 3, 6], t.pick(3, 4), false, 3));

    mc::every_window!(windows, f);

    // Overlapping alternatives: every set of up to 4 (5) ranges, each followed by its own literal
    {
        let mut ranges = vec![];
        for a in 0..6u8 { for b in a..6u8 { ranges.push((a, b)); } }
        let mut sets = vec![];
        for k in 1..=t.pick(4, 5) { sets.extend(subsets(ranges.len(), k)); }
        let n = sets.len() as u64;
        f.push(family("overlapping-alternatives", format!("every set of up to {} of the 21 ranges over 6 u8 symbols (at the bottom and at the top of the type) as alternatives, each followed by a different literal", t.pick(4, 5)), 2 * n, move |i, ctx| {
            let set = &sets[i as usize / 2];
            let (axis, k) = axis_dense(i % 2 == 1);
            let p = P::Any(set.iter().enumerate().map(|(j, r)| P::All(vec![P::Range(k + ranges[*r].0, k + ranges[*r].1), lit(&[j as u8])])).collect());
            check(&p, &axis, &[0, 1, 2, 3, 4, 5, 6], 2, ctx)
        }));
    }
    // Same, unrolled into a repetition so that classes interact across positions
    {
        let mut ranges = vec![];
        for a in 0..6u8 { for b in a..6u8 { ranges.push((a, b)); } }
        let n = ranges.len() as u64;
        f.push(family("overlapping-sequences", "every sequence r1 r2* (r3 | r4 r1) of ranges over 6 u8 symbols: 21^3 triples with r4 = r2, at both ends of the type".into(), 2 * n * n * n, move |i, ctx| {
            let d = digits(i, &[n, n, n, 2]);
            let (axis, o) = axis_dense(d[3] == 1);
            let r = |k: usize| P::Range(o + ranges[d[k] as usize].0, o + ranges[d[k] as usize].1);
            let p = P::All(vec![r(0), P::Inf(0, Box::new(r(1))), P::Any(vec![r(2), P::All(vec![r(1), r(0)])])]);
            check(&p, &axis, &[0, 6], 2, ctx)
        }));
    }
    f.push(family("scale", format!("{} kinds of patterns (literals, alternatives, sequences, repetitions, nestings) of every size of {:?}; inputs around every power of two", scale::KINDS, scale::SIZES), (scale::KINDS * scale::SIZES.len()) as u64, move |i, ctx| {
        let (kind, n) = (i as usize / scale::SIZES.len(), scale::SIZES[i as usize % scale::SIZES.len()]);
        let Some(b) = scale::big(kind, n, scale::How::Direct) else { return Ok(()) };
        let dfa = b.p.clone().prepare_to_match();
        for (w, want) in &b.words {
            let got = matches_prepared(w, &dfa);
            ctx.trace();
            ctx.transitions += w.len() as u64;
            ctx.state(&(kind, n, w));
            if got != *want { return Err(format!("{}: an input of {} symbols that begins {:?}: {:?}, expected {:?}", b.name, w.len(), &w[..w.len().min(8)], got, want)); }
        }
        ctx.outcome("scale");
        ctx.sample(|| format!("{}: {} inputs", b.name, b.words.len()));
        Ok(())
    }));
    // Sets of many ranges in every arrangement, as alternatives that are told apart by what follows
    {
        use mc::bigm;
        let ns: Vec<usize> = bigm::SIZES.iter().cloned().filter(|n| *n <= t.pick(301, 1025)).collect();
        f.push(family("arrangements", format!("n ranges for n of {:?} in {} arrangements and 5 orders as alternatives, each followed by a symbol of its own, or each by itself and one of them twice in a row", ns, bigm::ARRANGEMENTS), (ns.len() * bigm::ARRANGEMENTS * 10) as u64, move |i, ctx| {
            let d = digits(i, &[2, 5, bigm::ARRANGEMENTS as u64, ns.len() as u64]);
            let n = ns[d[3] as usize];
            let Some((name, rs)) = bigm::ranges(d[2] as usize, n) else { return Ok(()) };
            let own = 1u32 << 30;
            let order = bigm::shuffled(&(0..n).collect::<Vec<_>>(), d[1] as usize);
            let p = MatchAny(order.iter().map(|k| {
                let r = MatchRange(rs[*k].0, rs[*k].1);
                if d[0] == 0 { MatchAll(vec![r, Match(vec![own + *k as u32])]) } else if *k == n / 2 { MatchAll(vec![r.clone(), r]) } else { r }
            }).collect());
            let dfa = p.prepare_to_match();
            let inside = |k: usize, x: u32| rs[k].0 <= x && x <= rs[k].1;
            for k in scale::picks(n) {
                for x in [rs[k].0.saturating_sub(1), rs[k].0, rs[k].0 + (rs[k].1 - rs[k].0) / 2, rs[k].1, rs[k].1 + 1] {
                    for other in [k, (k + 1) % n, k / 2] {
                        let (w, want) = if d[0] == 0 { (vec![x, own + other as u32, 3], if inside(other, x) { Some(2) } else { None }) } else {
                            let y = rs[other].0;
                            (vec![x, y, y], if inside(n / 2, x) && inside(n / 2, y) { Some(2) } else if (0..n).any(|k| k != n / 2 && inside(k, x)) { Some(1) } else { None })
                        };
                        let got = matches_prepared(&w, &dfa);
                        ctx.trace();
                        ctx.step();
                        ctx.state(&(i, &w));
                        if got != want { return Err(format!("{} ranges, {}, order {}: input {:?}: {:?}, expected {:?}", n, name, d[1], w, got, want)); }
                    }
                }
            }
            ctx.outcome("arrangements");
            Ok(())
        }));
    }
    // Long literals, also beyond 255 and 65535 states
    {
        let max = t.pick(320u64, 700);
        f.push(family("long-literals", format!("literals a^i b of every length up to {}, alone, repeated, and against a shorter alternative; one literal of 70000 symbols", max), max + 1, move |i, ctx| {
            let axis = axis_u8();
            let n = if i == max { 70_000 } else { i as usize };
            let mut w = vec![0u8; n];
            w.push(1);
            let forms: Vec<P> = if i == max { vec![lit(&w)] } else {
                vec![lit(&w), P::Inf(1, Box::new(lit(&w))), P::Any(vec![lit(&w[..n / 2]), lit(&w)])]
            };
            for p in forms {
                let ps = vec![(p.clone(), ())];
                let mut r = RefAutomaton::new(&ps);
                let dfa = axis.pattern(&p).prepare_to_match();
                let mut inputs = vec![w.clone(), w[..n].to_vec(), { let mut x = w.clone(); x.extend(w.iter()); x }, { let mut x = vec![0; n + 1]; x.push(1); x }];
                if n > 0 { inputs.push({ let mut x = w.clone(); x[n / 2] = 2; x }); }
                if i < max {
                    product(&dfa, &axis, &mut r, fp(&p), ctx).map_err(|m| format!("pattern {:?}\n{}", p, m))?;
                    for x in inputs { check_run(&dfa, &axis, &mut r, &x, ctx).map_err(|m| format!("pattern {:?}\n{}", p, m))?; }
                } else {
                    // the reference automaton of a literal is the literal itself
                    for (x, want) in [(&inputs[0], Some(n + 1)), (&inputs[1], None), (&inputs[2], Some(n + 1)), (&inputs[3], None)] {
                        let got = matches_prepared(&axis.string(x), &dfa);
                        ctx.trace();
                        if got != want { return Err(format!("literal of 70001 symbols: got {:?}, expected {:?}", got, want)); }
                    }
                }
            }
            Ok(())
        }));
    }
    // Repetition counts over a grid, with several inner patterns
    {
        let m = t.pick(12u64, 24);
        let inner: Vec<P> = vec![
            lit(&[0]), lit(&[0, 1]), P::Any(vec![lit(&[0]), lit(&[0, 1])]), P::Range(0, 1), P::Rep(0, 2, Box::new(lit(&[0]))),
            P::Inf(0, Box::new(lit(&[0]))), P::Any(vec![P::Eps, lit(&[1])]), P::Rep(2, 4, Box::new(lit(&[1]))), P::Inf(2, Box::new(lit(&[0]))),
        ];
        let k = inner.len() as u64;
        f.push(family("repeat-grid", format!("repetition x(lo..hi) for all lo, hi <= {} and x{{n,}} for all n <= {}, {} inner patterns, alone and followed by a literal", m, m, k), k * (m + 1) * (m + 2) * 2, move |i, ctx| {
            let d = digits(i, &[m + 1, m + 2, k, 2]);
            let x = Box::new(inner[d[2] as usize].clone());
            let p = if d[1] == m + 1 { P::Inf(d[0] as u32, x) } else { P::Rep(d[0] as u32, d[1] as u32, x) };
            let p = if d[3] == 1 { P::All(vec![p, lit(&[2])]) } else { p };
            let axis = axis_u8();
            check(&p, &axis, &[0, 1], 3, ctx)?;
            let ps = vec![(p.clone(), ())];
            let mut r = RefAutomaton::new(&ps);
            let dfa = axis.pattern(&p).prepare_to_match();
            for n in 0..(2 * m as usize + 8) {
                for tail in [&[][..], &[2][..], &[1][..]] {
                    let mut w = vec![0u8; n];
                    w.extend_from_slice(tail);
                    check_reference(&ps, &mut r, &w);
                    check_run(&dfa, &axis, &mut r, &w, ctx).map_err(|e| format!("pattern {:?}\n{}", p, e))?;
                    let w: Vec<u8> = (0..n).map(|j| (j % 2) as u8).chain(tail.iter().cloned()).collect();
                    check_run(&dfa, &axis, &mut r, &w, ctx).map_err(|e| format!("pattern {:?}\n{}", p, e))?;
                }
            }
            Ok(())
        }));
    }
    // Every list of alternatives or of parts, in every order and with every repetition
    {
        let items = vec![lit(&[1]), lit(&[2]), lit(&[3]), lit(&[4]), P::Range(1, 2), P::Range(2, 4), lit(&[1, 2]), P::Eps];
        let k = items.len() as u64;
        let len = t.pick(5u32, 6);
        f.push(family("lists", format!("every list of up to {} of {} small patterns over neighbouring symbols, in every order and with every repetition, as alternatives and (up to {}) as a sequence; alone, after and before a literal that shares symbols", len, k, len - 1), 3 * (string_count(k, len) + string_count(k, len - 1)), move |i, ctx| {
            let (l, any) = { let j = i / 3; let n = string_count(k, len); if j < n { (string(k, j), true) } else { (string(k, j - n), false) } };
            let l: Vec<P> = l.into_iter().map(|x| items[x as usize].clone()).collect();
            let p = if any { P::Any(l) } else { P::All(l) };
            let p = match i % 3 { 0 => p, 1 => P::All(vec![p, lit(&[2])]), _ => P::All(vec![P::Inf(0, Box::new(lit(&[1]))), p]) };
            let axis = Axis::new(vec![9u8, 10, 11, 12, 13, 14]);
            check(&p, &axis, &[1, 2, 3], 2, ctx)
        }));
    }
    // Literals that share beginnings, in every order: what is done for neighbouring literals has to suit them all
    for (name, k, most, n) in t.pick(vec![("words-3", 3u64, 3u32, 3usize), ("words-4", 2, 3, 4)], vec![("words-3", 3, 3, 3), ("words-3-long", 2, 4, 3), ("words-4", 2, 3, 4), ("words-5", 2, 3, 5)]) {
        let one = string_count(k, most);
        f.push(family(name, format!("every list of {} literals of up to {} symbols over {}, as alternatives, once and repeated", n, most, k), one.pow(n as u32), move |i, ctx| {
            let l: Vec<P> = seq(i, one, n).into_iter().map(|x| lit(&string(k, x as u64))).collect();
            let axis = Axis::new(vec![10u8, 11, 12]);
            let p = P::Any(l);
            check(&p, &axis, &[0, 1], 1, ctx)?;
            // (the empty literal among those repeated is covered by the other families)
            if i % 2 == 0 { check(&P::Inf(1, Box::new(p)), &axis, &[0, 1], 1, ctx) } else { check(&P::All(vec![p, lit(&[1])]), &axis, &[0, 1], 1, ctx) }
        }));
    }
    // Overlapping patterns deep inside lists and repetitions
    for (depth, cxs) in t.pick(vec![(1, contexts(6, true)), (2, contexts(5, true)), (3, contexts(3, false))], vec![(1, contexts(9, true)), (2, contexts(6, true)), (3, contexts(4, true)), (4, contexts(2, false))]) {
        let n = (cxs.len() as u64).pow(depth as u32) * 12;
        f.push(family(&format!("in-context-{}", depth), format!("4 pairs of overlapping patterns, as alternatives or in sequence, inside every nesting of depth {} of {} lists and repetitions", depth, cxs.len()), n, move |i, ctx| {
            let axis = Axis::new(vec![9u8, 10, 11, 12, 13]);
            check(&in_context(i, &cxs, depth), &axis, &[1, 2], 1, ctx)
        }));
    }
    // Large single repetitions and wide alternatives
    {
        f.push(family("large-counts", "a(lo..hi) and a{n,} with counts up to 300; alternatives of up to 120 literals or of up to 120 overlapping ranges".into(), 300, move |i, ctx| {
            let axis = Axis::new((0..=240u8).step_by(2).collect());
            let n = i as u32 + 1;
            let mut forms = vec![P::Rep(0, n, Box::new(lit(&[0]))), P::Rep(n / 2, n, Box::new(lit(&[0]))), P::Inf(n, Box::new(lit(&[0])))];
            if n <= 120 {
                let n = n as u8;
                forms.push(P::Any((0..n).map(|j| lit(&[j])).collect()));
                forms.push(P::Any((0..n).map(|j| lit(&[n - j, j])).collect()));
                forms.push(P::Any((0..n).map(|j| P::All(vec![P::Range(j / 2, 120 - j / 2), lit(&[j])])).collect()));
                forms.push(P::Any((0..n).map(|j| P::All(vec![P::Range(j, (j + 30).min(120)), lit(&[j % 3])])).collect()));
                forms.push(P::All((0..n).map(|j| P::Any(vec![P::Eps, lit(&[j])])).collect()));
            }
            for (k, p) in forms.iter().enumerate() {
                if k == 7 && n > t.pick(12, 40) { continue; }
                let ps = vec![(p.clone(), ())];
                let mut r = RefAutomaton::new(&ps);
                let dfa = axis.pattern(p).prepare_to_match();
                let e = product(&dfa, &axis, &mut r, fp(p), ctx).map_err(|m| format!("pattern {:?}\n{}", p, m))?;
                for w in &e.access { check_run(&dfa, &axis, &mut r, w, ctx).map_err(|m| format!("pattern {:?}\n{}", p, m))?; }
            }
            Ok(())
        }));
    }
    // Every symbol of u8 individually, at every position of a range
    {
        f.push(family("every-u8-symbol", "literal s, range lo..=hi for every lo, hi in u8 against all 256 symbols".into(), 256, move |i, ctx| {
            let lo = i as u8;
            let d = Match(vec![lo]).prepare_to_match();
            for s in 0..=255u8 {
                ctx.trace();
                if matches_prepared(&vec![s], &d) != (if s == lo { Some(1) } else { None }) { return Err(format!("literal [{}] against [{}]", lo, s)); }
            }
            for hi in lo..=255u8 {
                let d = MatchRange(lo, hi).prepare_to_match();
                ctx.state(&(lo, hi));
                for s in 0..=255u8 {
                    ctx.trace(); ctx.step();
                    if matches_prepared(&vec![s], &d) != (if lo <= s && s <= hi { Some(1) } else { None }) { return Err(format!("range {}..={} against [{}]", lo, hi, s)); }
                }
            }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C01",
        level: "model_checking",
        assumptions: vec![
            "symbols inside an atom of the axis (between two neighbouring representatives) behave alike unless a pattern mentions them; family every-u8-symbol drops this assumption for single ranges".into(),
            "patterns above the stated sizes are covered only through the scaled families".into(),
            "the product uses the public StateMachine view of the compiled matcher; the view is bound to the running matcher by executing every access string".into(),
        ],
        families,
    })
}
