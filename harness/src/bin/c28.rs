//! C28: copies are equal, and independent of what they were taken from.
use concordance::TagSymbol::*;
use concordance::*;
use mc::edits::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use mc::tree::*;

/// How a copy is made: `clone`, or `clone_from` onto something that was something else
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum How { Clone, Onto }

fn copy<X: Clone>(x: &X, how: How, other: X) -> X {
    match how {
        How::Clone => x.clone(),
        How::Onto => { let mut o = other; o.clone_from(x); o }
    }
}

/// Equality in every form, on both sides
fn equal<X: PartialEq + std::fmt::Debug>(a: &X, b: &X, want: bool) -> CaseResult {
    if (a == b) != want || (b == a) != want || (a != b) == want || (b != a) == want {
        let short = |x: &X| format!("{:?}", x).chars().take(300).collect::<String>();
        return Err(format!("{} and {}: == gives {}, the other way {}, != gives {}; expected equal: {}", short(a), short(b), a == b, b == a, a != b, want));
    }
    Ok(())
}

// ---------------------------------------------------------------- machines that can be edited

fn made(ops: &[&Op]) -> (Ndfa<char, i16>, Model) {
    let mut n = Ndfa::new();
    let mut m = Model::default();
    for o in ops { apply(&mut n, o); m.apply(o); }
    (n, m)
}

const STATES: [u32; 4] = [0, 1, 2, 3];

/// `before` is done, a copy taken, then `after` done to one of the two
fn machine(before: &[&Op], after: &[&Op], how: How, to_copy: bool, look: bool, ctx: &mut Ctx) -> CaseResult {
    let (mut n, m) = made(before);
    // looked at before it is copied, or not
    if look { compare(&n, &m, &STATES, ctx)?; }
    let mut other: Ndfa<char, i16> = Ndfa::new();
    if how == How::Onto { other.add_transition(0, 'z', 3); other.join_states(1, 0); other.set_output_symbol(2, 9); other.set_output_symbol(0, 8); }
    let mut c = copy(&n, how, other);
    compare(&c, &m, &STATES, ctx).map_err(|e| format!("the copy: {}", e))?;
    let (changed, kept, what) = if to_copy { (&mut c, &mut n, "original") } else { (&mut n, &mut c, "copy") };
    let mut m2 = m.clone();
    for o in after {
        apply(changed, o);
        m2.apply(o);
        ctx.step();
        ctx.state(&m2);
        compare(kept, &m, &STATES, ctx).map_err(|e| format!("the {} was left alone and the other one given {:?}: {}", what, after, e))?;
        compare(changed, &m2, &STATES, ctx)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- compiled machines

type Dfa = SymbolRangeDfa<u8, u8>;

fn view(d: &Dfa) -> Vec<(Vec<(u8, u8, u32)>, Option<u8>)> {
    (0..d.count_states()).map(|s| (d.get_transitions_for_state(s).into_iter().map(|(r, t)| (r.lowest, r.highest, t)).collect(), d.output_symbol_for_state(s).cloned())).collect()
}

fn prepare(ax: &Axis<u8>, set: &[(P, u8)]) -> Dfa {
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(ax.pattern(p), *o); }
    m.prepare_to_match()
}

fn runs(d: &Dfa, set: &[(P, u8)], ax: &Axis<u8>, words: &[Vec<u8>], ctx: &mut Ctx) -> CaseResult {
    for w in words {
        let text = ax.string(w);
        let got = match match_pattern(d.start(), &mut text.read_symbols()) { Accept(n, o) => Some((n, *o)), _ => None };
        ctx.trace();
        let want = longest_of(set, w, 0);
        if got != want { return Err(format!("tokens {:?}: the copy gives {:?} for {:?}, expected {:?}", set, got, text, want)); }
    }
    Ok(())
}

/// Steps a match; None when it has ended
fn fed<'a>(d: &'a Dfa, w: &[u8]) -> Option<SymbolRangeState<'a, u8, u8>> {
    let mut a = d.start();
    for s in w { a = match a { More(st) => st.next(*s), x => x }; }
    match a { More(st) => Some(st), _ => None }
}

fn finished<'a>(st: SymbolRangeState<'a, u8, u8>, rest: &[u8]) -> Option<(usize, u8)> {
    let mut a = More(st);
    for s in rest { a = match a { More(st) => st.next(*s), x => x }; }
    match a { More(st) => a = st.finish(), _ => {} }
    match a { Accept(n, o) => Some((n, *o)), _ => None }
}

// ---------------------------------------------------------------- streams

/// The idx-th way to tag a stream twice; None if it cannot be done
fn tagged(word: &[u8], mut idx: u64) -> Option<(Stream<u8>, Vec<T<u8>>)> {
    let mut s: Stream<u8> = TaggedStream::from_reader(&mut word.to_vec().read_symbols());
    let mut m: Vec<T<u8>> = word.iter().map(|b| T::U(*b)).collect();
    for _ in 0..2 {
        let x = idx % 21;
        idx /= 21;
        if x == 20 { continue; }
        let (lo, hi, g) = ([0, 0, 0, 0, 1, 1, 1, 2, 2, 3][(x % 10) as usize], [0, 1, 2, 3, 1, 2, 3, 2, 3, 3][(x % 10) as usize], (x / 10) as u8);
        if hi > m.len() { return None; }
        s.tag(g, lo..hi);
        m = tag(&m, g, lo, hi);
    }
    Some((s, m))
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    {
        // machines of n states in a row, with further states that one edit or two bring into being
        let sizes: Vec<u32> = t.pick(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 65, 130], (0..36).chain([63, 64, 65, 127, 128, 130, 257]).collect());
        let mention = |k: u64, n: u32, m: u32| match k { 0 => Op::C(m), 1 => Op::J(n / 2, m), 2 => Op::J(m, n / 2), 3 => Op::T(n / 2, 'b', m), 4 => Op::T(m, 'b', n / 2), 5 => Op::O(m, 4), 6 => Op::T(m, 'c', m), _ => Op::J(m, m) };
        let k = sizes.len() as u64;
        f.push(family("mentioned", format!("machines of {:?} states in a row by transitions, joins, outputs or both, to which one edit (of 8 kinds) adds a state 0, 1, 2 or 7 further on, and another edit of 8 a state up to 3 beyond; copied two ways before, between and after the two, the rest done to either", sizes), k * 4 * 8 * 4 * 8, move |i, ctx| {
            let d = digits(i, &[8, 4, 8, 4, k]);
            let n = sizes[d[4] as usize];
            let mut ops: Vec<Op> = vec![];
            for s in 0..n { match d[3] { 0 => ops.push(Op::T(s, 'a', s + 1)), 1 => ops.push(Op::J(s, s + 1)), 2 => ops.push(Op::O(s, s as i16)), _ => { ops.push(Op::T(s, 'a', s + 1)); ops.push(Op::J(s + 1, s)); } } }
            let m = n + [0, 1, 2, 7][d[1] as usize];
            ops.push(mention(d[0], n, m));
            ops.push(mention(d[2], n, m + (d[0] as u32 + d[2] as u32) % 4));
            let states = [0, n / 2, n / 2 + 1, n.saturating_sub(1), n, n + 1, n + 2, m, m + 1, m + 3];
            let refs: Vec<&Op> = ops.iter().collect();
            for cut in refs.len() - 2..=refs.len() {
                for (how, to_copy) in [(How::Clone, false), (How::Clone, true), (How::Onto, true)] {
                    let (mut a, ma) = made(&refs[..cut]);
                    let mut other: Ndfa<char, i16> = Ndfa::new();
                    if how == How::Onto { other.add_transition(0, 'z', 3); other.join_states(1, 5); other.set_output_symbol(2, 9); }
                    let mut c = copy(&a, how, other);
                    let fail = |e: String| format!("{} states, then {:?}, copied {:?} {} before the end: {}", n, &ops[ops.len() - 2..], how, refs.len() - cut, e);
                    compare(&c, &ma, &states, ctx).map_err(|e| fail(format!("the copy: {}", e)))?;
                    let mut mb = ma.clone();
                    let (changed, kept) = if to_copy { (&mut c, &mut a) } else { (&mut a, &mut c) };
                    for o in &refs[cut..] { apply(changed, o); mb.apply(o); ctx.step(); }
                    compare(changed, &mb, &states, ctx).map_err(|e| fail(format!("the one changed: {}", e)))?;
                    compare(kept, &ma, &states, ctx).map_err(|e| fail(format!("the one left alone: {}", e)))?;
                    ctx.state(&mb);
                    ctx.trace();
                }
            }
            Ok(())
        }));
    }
    {
        let p = pool(2);
        let k = p.len() as u64;
        let d = t.pick(3u32, 4);
        let total = (k as u64).pow(d + 1);
        f.push(family("machines", format!("every history of {} edits out of {} on 2 states, copied (two ways, looked at before or not) after each of its beginnings, the rest done to the original or to the copy; then one more edit", d, k), total * 8, move |i, ctx| {
            let x = digits(i, &[8, total]);
            let ops: Vec<&Op> = seq(x[1], k, d as usize + 1).into_iter().map(|j| &p[j]).collect();
            let how = if x[0] & 1 == 0 { How::Clone } else { How::Onto };
            for cut in 0..ops.len() {
                machine(&ops[..cut], &ops[cut..], how, x[0] & 2 != 0, x[0] & 4 != 0, ctx).map_err(|e| format!("edits {:?}, copied after {} ({:?}): {}", ops, cut, how, e))?;
            }
            ctx.sample(|| format!("{:?}", ops));
            Ok(())
        }));
        // machines made of patterns, copied in between
        let g = Grammar::new(vec![P::Eps, lit(&[0]), lit(&[0, 1]), P::Range(0, 1), P::Range(1, 2)], vec![Un::Inf(0), Un::Rep(1, 3)], false, 3);
        let n = g.total();
        f.push(family("patterns-on-copies", format!("every pair of the {} patterns of up to 3 nodes: the first compiled onto a machine, the machine copied (two ways), the second compiled onto the copy or the original; overlaps removed in one of the two", n), n * n * 4, move |i, ctx| {
            let d = digits(i, &[4, n, n]);
            let (p, q) = (g.get(d[1]), g.get(d[2]));
            let ax = Axis::new(vec![3u8, 4, 5, 6]);
            let how = if d[0] & 1 == 0 { How::Clone } else { How::Onto };
            let mut a: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
            let e = ax.pattern(&p).compile(&mut a, 0);
            let s = a.count_states();
            a.join_states(e, s);
            a.set_output_symbol(s, 1);
            let mut other: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
            ax.pattern(&q).compile(&mut other, 0);
            other.set_output_symbol(0, 5);
            let mut c = copy(&a, how, other);
            {
                let grown = if d[0] & 2 == 0 { &mut c } else { &mut a };
                let e = ax.pattern(&q).compile(grown, 0);
                let s = grown.count_states();
                grown.join_states(e, s);
                grown.set_output_symbol(s, 2);
                grown.fix_overlapping_ranges();
            }
            let (mut plain, grown) = if d[0] & 2 == 0 { (a, c) } else { (c, a) };
            plain.fix_overlapping_ranges();
            let words = strings(4, 3);
            for (ndfa, set) in [(plain, vec![(p.clone(), 1u8)]), (grown, vec![(p.clone(), 1), (q.clone(), 2)])] {
                let boxed: Box<dyn StateMachine<SymbolRange<u8>, u8>> = Box::new(ndfa);
                let dfa: Dfa = boxed.prepare_to_match();
                runs(&dfa, &set, &ax, &words, ctx)?;
                ctx.state(&set);
            }
            Ok(())
        }));
    }
    {
        let g = Grammar::new(vec![P::Eps, lit(&[0]), lit(&[1, 0]), P::Range(0, 1), lit(&[])], vec![Un::Inf(0), Un::Inf(1), Un::Rep(0, 2)], false, t.pick(4, 5));
        let n = g.total();
        let small: Vec<P> = (0..n.min(40)).map(|k| g.get(k)).collect();
        f.push(family("matchers", format!("the matcher of every one of {} patterns, alone and with a second output, copied two ways (onto a larger and a smaller matcher): same states, transitions, outputs and description, same answer to every input of up to 4 symbols, the original and copies of the copy too", n), n * 2, move |i, ctx| {
            let p = g.get(i / 2);
            let ax = Axis::new(vec![3u8, 4, 5]);
            let mut set = vec![(p, 4u8)];
            if i % 2 == 1 { set.push((small[(i / 2 % small.len() as u64) as usize].clone(), 2)); }
            let d = prepare(&ax, &set);
            let before = view(&d);
            let words = strings(3, 4);
            for (how, other) in [(How::Clone, None), (How::Onto, Some(lit(&[2; 40]))), (How::Onto, Some(P::Eps))] {
                let other = prepare(&ax, &[(other.unwrap_or(P::Eps), 9)]);
                let c = copy(&d, how, other);
                if view(&c) != before || view(&d) != before { return Err(format!("tokens {:?}: copied {:?}: {:?}, the original is {:?}", set, how, view(&c), before)); }
                if c.description() != d.description() { return Err(format!("tokens {:?}: copied {:?}: described as {:?} instead of {:?}", set, how, c.description(), d.description())); }
                let again = c.clone();
                runs(&c, &set, &ax, &words, ctx)?;
                drop(c);
                if view(&again) != before { return Err(format!("tokens {:?}: the copy of a copy differs", set)); }
                runs(&again, &set, &ax, &words[..40], ctx)?;
                runs(&d, &set, &ax, &words[..40], ctx)?;
                ctx.step();
            }
            ctx.state(&before);
            ctx.outcome(&format!("{} states", before.len()));
            Ok(())
        }));
    }
    {
        // A match in progress copied onto another one
        let a = || lit(&[0]);
        let sets: Vec<Vec<(P, u8)>> = vec![
            vec![(P::Inf(0, Box::new(a())), 1)],
            vec![(P::All(vec![a(), P::Inf(0, Box::new(lit(&[1])))]), 1), (lit(&[0, 1, 2]), 0)],
            vec![(P::Range(0, 1), 2), (lit(&[0, 0]), 1), (lit(&[1, 1, 1]), 0)],
            vec![(P::Eps, 3), (lit(&[2, 2]), 1), (lit(&[0]), 3)],
            vec![(lit(&[1, 0, 2]), 0), (lit(&[1]), 4)],
            vec![(lit(&[0, 1, 2, 0, 1, 2]), 0), (lit(&[0]), 4), (P::Rep(0, 4, Box::new(P::Range(0, 2))), 5)],
        ];
        let n = t.pick(3u32, 4);
        let k = string_count(3, n);
        f.push(family("matches-onto", format!("a match of each of 6 matchers after any input of up to {} symbols, copied onto a match of any of the 6 after any input of up to {}; the copy, a copy of the copy and the original go on with any input of up to 2", n, n.min(3)), 36 * k, move |i, ctx| {
            let d = digits(i, &[6, 6, k]);
            let ax = Axis::new(vec![3u8, 4, 5]);
            let (set, other) = (&sets[d[0] as usize], &sets[d[1] as usize]);
            let (m, o) = (prepare(&ax, set), prepare(&ax, other));
            let w = string(3, d[2]);
            let rests = strings(3, 2);
            for v in strings(3, n.min(3)) {
                let (st, onto) = match (fed(&m, &ax.string(&w)), fed(&o, &ax.string(&v))) { (Some(x), Some(y)) => (x, y), _ => continue };
                let mut c = onto;
                c.clone_from(&st);
                ctx.step();
                for r in &rests {
                    let whole: Vec<u8> = w.iter().chain(r).cloned().collect();
                    let want = longest_of(set, &whole, 0);
                    let rest = ax.string(r);
                    for (name, x) in [("the copy", &c), ("the original", &st)] {
                        let got = finished(x.clone(), &rest);
                        ctx.trace();
                        if got != want { return Err(format!("tokens {:?} after {:?}, copied onto a match of {:?} after {:?}; {} goes on with {:?} and gives {:?}, expected {:?}", set, w, other, v, name, r, got, want)); }
                    }
                }
            }
            ctx.state(&(d[0], &w));
            Ok(())
        }));
    }
    {
        let atoms = vec![P::Eps, lit(&[]), lit(&[0]), lit(&[0, 0]), lit(&[0, 1]), P::Range(0, 0), P::Range(0, 1), P::Range(1, 1), P::All(vec![]), P::Any(vec![])];
        let un = vec![Un::Inf(0), Un::Inf(1), Un::Rep(0, 1), Un::Rep(1, 2), Un::Rep(0, 0), Un::All1, Un::Any1];
        let g = Grammar::new(atoms, un, false, 3);
        let n = g.total();
        let all: Vec<P> = (0..n).map(|k| g.get(k)).collect();
        let all2: Vec<P> = { let step = t.pick(7, 1); all.iter().step_by(step).cloned().collect() };
        f.push(family("patterns", format!("every two of {} x {} patterns of up to 3 nodes: equal exactly if they are the same tree, in both directions and with !=; copies (two ways) are equal to the original", n, all2.len()), n, move |i, ctx| {
            let ax = Axis::new(vec!['a', 'b', 'c']);
            let p = ax.pattern(&all[i as usize]);
            for q in &all2 {
                let real = ax.pattern(q);
                equal(&p, &real, *q == all[i as usize])?;
                let c = copy(&p, How::Onto, real);
                equal(&c, &p, true)?;
                ctx.step();
            }
            equal(&p.clone(), &p, true)?;
            if format!("{:?}", p.clone()) != format!("{:?}", p) { return Err(format!("the copy of {:?} is {:?}", p, p.clone())); }
            ctx.trace();
            ctx.state(&all[i as usize]);
            ctx.outcome("compared");
            Ok(())
        }));
    }
    {
        let words = strings(2, 3);
        let ways = 21 * 21;
        let all: std::sync::Arc<Vec<(Stream<u8>, Vec<T<u8>>)>> = std::sync::Arc::new({
            let mut seen = std::collections::BTreeMap::new();
            for w in &words { for x in 0..ways { if let Some((s, m)) = tagged(w, x) { seen.entry(m).or_insert(s); } } }
            seen.into_iter().map(|(m, s)| (s, m)).collect()
        });
        let n = all.len() as u64;
        let step = t.pick(3usize, 1);
        f.push(family("streams", format!("every two of the {} streams of up to 3 symbols with up to two tags: equal exactly if they are the same tree; copied two ways; the copy tagged further leaves the original as it was, and the other way round", n), n, move |i, ctx| {
            let (s, m) = &all[i as usize];
            for (o, w) in all.iter().step_by(step) {
                equal(s, o, m == w)?;
                let mut c = copy(s, How::Onto, o.clone());
                equal(&c, s, true)?;
                if !m.is_empty() && w.len() < 2 {
                    // the copy goes on
                    c.tag(7, 0..1);
                    same(s, m).map_err(|e| format!("the copy was tagged: {}", e))?;
                    same(&c, &tag(m, 7, 0, 1))?;
                    // the original goes on
                    let mut orig = s.clone();
                    let kept = copy(&orig, How::Onto, o.clone());
                    orig.tag(8, 0..m.len());
                    same(&kept, m).map_err(|e| format!("the original was tagged: {}", e))?;
                    same(&orig, &tag(m, 8, 0, m.len()))?;
                }
                ctx.step();
            }
            for k in 0..m.len() {
                let (a, b) = (&s[k], s[k].clone());
                equal(a, &b, true)?;
                let mut c = Untagged(77);
                c.clone_from(a);
                equal(a, &c, true)?;
                let mut c = Tagged(9, s.clone());
                c.clone_from(a);
                equal(a, &c, true)?;
                for l in 0..m.len() { equal(&s[k], &s[l], m[k] == m[l])?; }
            }
            ctx.trace();
            ctx.state(m);
            ctx.outcome(&format!("length {}", m.len()));
            Ok(())
        }));
    }
    f.push(family("ranges", "every two ranges over 12 symbols: copies (two ways) have the same ends and are equal; changing the ends of one leaves the other".into(), 78, |i, ctx| {
        let all: Vec<(u8, u8)> = (0..12).flat_map(|a| (a..12).map(move |b| (a, b))).collect();
        let (a, b) = all[i as usize];
        let r = SymbolRange::new(a, b);
        for (x, y) in &all {
            let o = SymbolRange::new(*x, *y);
            equal(&r, &o, (*x, *y) == (a, b))?;
            let mut c = copy(&r, How::Onto, o);
            equal(&c, &r, true)?;
            if (c.lowest, c.highest) != (a, b) { return Err(format!("{:?} copied onto another is {:?}", r, c)); }
            c.highest = 99;
            if (r.lowest, r.highest) != (a, b) { return Err(format!("changing the copy changed {:?}", r)); }
            ctx.step();
            ctx.trace();
        }
        ctx.state(&i);
        ctx.outcome("ranges");
        Ok(())
    }));
    {
        // many states, many symbols, many tags
        let sizes: Vec<usize> = (0..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 5001]).collect();
        let k = sizes.len() as u64;
        f.push(family("sizes", format!("machines, matchers, patterns and streams of every size of {:?}, copied two ways: the copy and the original changed in turn", sizes), k * 4, move |i, ctx| {
            let n = sizes[(i % k) as usize] as u32;
            match i / k {
                0 => {
                    let mut m: Ndfa<u32, u32> = Ndfa::new();
                    for s in 0..n { m.add_transition(s, s, s + 1); m.join_states(s, (s + 2).min(n)); m.set_output_symbol(s, s); }
                    for how in [How::Clone, How::Onto] {
                        let mut other: Ndfa<u32, u32> = Ndfa::new();
                        for s in 0..10 { other.add_transition(s, 9, s); other.set_output_symbol(s, 1000); }
                        let mut c = copy(&m, how, other);
                        let mut m = m.clone();
                        c.add_transition(n, 5, 0);
                        m.add_transition(n, 6, 0);
                        let own = |x: &Ndfa<u32, u32>, s: u32| { let mut v = x.get_transitions_for_state(s); v.sort(); v.dedup(); v };
                        if c.count_states() != n + 1 || m.count_states() != n + 1 { return Err(format!("{} states: the copy has {}", n + 1, c.count_states())); }
                        let (a, b) = (own(&c, n), own(&m, n));
                        if a.contains(&(6, 0)) || b.contains(&(5, 0)) || !a.contains(&(5, 0)) || !b.contains(&(6, 0)) { return Err(format!("{} states, {:?}: the last state of the copy goes {:?}, of the original {:?}", n + 1, how, a, b)); }
                        for s in [0, n / 2, n.saturating_sub(1)] {
                            if c.output_symbol_for_state(s) != m.output_symbol_for_state(s) { return Err(format!("{} states, {:?}: output of {} differs", n + 1, how, s)); }
                            let (mut a, mut b) = (own(&c, s), own(&m, s));
                            a.retain(|x| x.0 != 5 || x.1 != 0);
                            b.retain(|x| x.0 != 6 || x.1 != 0);
                            // state 5 has a transition to 6 on 5, never to 0: nothing else is lost
                            if a != b { return Err(format!("{} states, {:?}: state {} goes {:?} in the copy, {:?} in the original", n + 1, how, s, a.len(), b.len())); }
                        }
                        ctx.step();
                    }
                }
                1 => {
                    let mut b = SymbolRangeDfaBuilder::new();
                    for s in 0..n { b.start_state(); b.transition(SymbolRange::new(1u8, 1), s + 1); if s % 3 == 0 { b.accept((s % 200) as u8); } }
                    b.start_state();
                    b.accept(201);
                    let d: Dfa = b.build();
                    for how in [How::Clone, How::Onto] {
                        let c = copy(&d, how, prepare(&Axis::new(vec![1]), &[(lit(&[0]), 0)]));
                        if view(&c) != view(&d) { return Err(format!("a matcher of {} states copied {:?} differs", n + 1, how)); }
                        let w = vec![1u8; n as usize + 5];
                        let got = match match_pattern(c.start(), &mut w.read_symbols()) { Accept(l, o) => Some((l, *o)), _ => None };
                        if got != Some((n as usize, 201)) { return Err(format!("a matcher of {} states copied {:?} gives {:?}", n + 1, how, got)); }
                        ctx.step();
                    }
                }
                2 => {
                    let p = MatchAll(vec![Match((0..n).collect::<Vec<u32>>()), MatchAny((0..n).map(|k| Match(vec![k])).collect())]);
                    for how in [How::Clone, How::Onto] {
                        let c = copy(&p, how, MatchAny(vec![Match(vec![1])]));
                        equal(&c, &p, true)?;
                        if n > 0 {
                            let mut l: Vec<u32> = (0..n).collect();
                            l[n as usize / 2] += 1;
                            let q = MatchAll(vec![Match(l.clone()), MatchAny((0..n).map(|k| Match(vec![k])).collect())]);
                            equal(&c, &q, false)?;
                            let q = MatchAll(vec![Match((0..n).collect::<Vec<u32>>()), MatchAny(l.iter().map(|k| Match(vec![*k])).collect())]);
                            equal(&c, &q, false)?;
                        }
                        ctx.step();
                    }
                }
                _ => {
                    let v: Vec<u8> = (0..n).map(|x| (x * 7) as u8).collect();
                    let mut s: Stream<u8> = TaggedStream::from_reader(&mut v.read_symbols());
                    if n > 4 { s.tag(1, 1..n as usize / 2 + 1); }
                    let want = snapshot(&s);
                    for how in [How::Clone, How::Onto] {
                        let mut other: Stream<u8> = TaggedStream::from_reader(&mut vec![1u8, 2, 3].read_symbols());
                        other.tag(4, 0..2);
                        let mut c = copy(&s, how, other);
                        equal(&c, &s, true)?;
                        let l = c.len();
                        c.tag(3, l / 2..l);
                        equal(&c, &s, false)?;
                        same_long(&s, &want).map_err(|e| format!("the copy was tagged: {}", e))?;
                        same_long(&c, &tag(&want, 3, l / 2, l))?;
                        ctx.step();
                    }
                }
            }
            ctx.trace();
            ctx.state(&i);
            ctx.outcome("sizes");
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C28", level: "model_checking", assumptions: vec!["copies are looked at through the public interface".into()], families })
}
