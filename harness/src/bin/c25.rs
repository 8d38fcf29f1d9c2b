//! C25: compiling a pattern onto an existing machine adds exactly the pattern's matches from the
//! given state to the returned one.
use concordance::*;
use mc::engine::*;
use mc::gnfa::*;
use mc::machine::*;
use mc::model::*;
use mc::product::run_real;
use mc::scale;
use mc::space::*;

/// A state by name: one of the first states, or one that compiling a pattern returned
#[derive(Clone, Copy, Debug, PartialEq)]
enum N { S(u32), R(usize), Last }

#[derive(Clone, Debug)]
enum Op { Compile(P, N), Trans(N, u8, u8, u32), Join(N, u32), Out(N, u8), To(N, u8, N), JoinTo(N, N),
    /// The first mention of a state that many numbers above the highest one (for the last two ways: and of the one after it), in one of these ways
    Fresh(u8, u32) }
use Op::*;

/// Runs one history on a machine; None if a name is not there yet. Outputs go on states of their own, unless `direct`.
fn apply<S: Sym, M: MutableStateMachine<SymbolRange<S>, u8>>(m: &mut M, ops: &[Op], n: u32, axis: &Axis<S>, direct: bool) -> Result<Option<Vec<StateId>>, String> {
    let mut returned: Vec<StateId> = vec![];
    m.create_state(n - 1);
    for o in ops {
        let at = |x: &N| match *x { N::S(s) => Some(s), N::R(i) => returned.get(i).cloned(), N::Last => returned.last().cloned() };
        match o {
            Compile(p, from) => {
                let Some(s) = at(from) else { return Ok(None) };
                let t = axis.pattern(p).compile(m, s);
                if t >= m.count_states() { return Err(format!("compile returned state {}, there are {}", t, m.count_states())); }
                returned.push(t);
            }
            Trans(from, lo, hi, to) => { let Some(s) = at(from) else { return Ok(None) }; m.add_transition(s, SymbolRange::new(axis.syms[*lo as usize].clone(), axis.syms[*hi as usize].clone()), *to); }
            Join(from, to) => { let Some(s) = at(from) else { return Ok(None) }; m.join_states(s, *to); }
            To(from, c, to) => { let (Some(s), Some(t)) = (at(from), at(to)) else { return Ok(None) }; let c = axis.syms[*c as usize].clone(); m.add_transition(s, SymbolRange::new(c.clone(), c), t); }
            JoinTo(from, to) => { let (Some(s), Some(t)) = (at(from), at(to)) else { return Ok(None) }; m.join_states(s, t); }
            Fresh(way, gap) => {
                let t = m.count_states() + gap;
                let r = |c: usize| SymbolRange::new(axis.syms[c].clone(), axis.syms[c].clone());
                match way {
                    0 => m.create_state(t),
                    1 => m.add_transition(0, r(2), t),
                    2 => m.add_transition(t, r(1), 0),
                    3 => m.add_transition(t, r(0), t),
                    4 => m.join_states(0, t),
                    5 => m.join_states(t, 0),
                    6 => m.set_output_symbol(t, 99),
                    7 => m.join_states(t, t + 1),
                    8 => m.join_states(t + 1, t),
                    9 => m.add_transition(t, r(1), t + 1),
                    _ => m.add_transition(t + 1, r(1), t),
                }
                let new = t + if *way >= 7 { 1 } else { 0 };
                if m.count_states() != new + 1 { return Err(format!("{} states after the first mention of {}", m.count_states(), new)); }
                returned.extend(t..=new);
            }
            Out(from, o) => {
                let Some(s) = at(from) else { return Ok(None) };
                if direct { m.set_output_symbol(s, *o); } else { let f = m.count_states(); m.join_states(s, f); m.set_output_symbol(f, *o); }
            }
        }
    }
    Ok(Some(returned))
}

/// The same history on the reference; returned states are numbered from n
fn reference(ops: &[Op], n: u32) -> Gnfa<u8> {
    let mut g = Gnfa { edges: vec![], joins: vec![], outs: vec![] };
    let mut r = 0;
    for o in ops {
        let at = |x: &N| match *x { N::S(s) => s, N::R(i) => n + i as u32, N::Last => n + r - 1 };
        match o {
            Compile(p, from) => { let s = at(from); g.edges.push((s, p.clone(), n + r)); r += 1; }
            Trans(from, lo, hi, to) => g.edges.push((at(from), P::Range(*lo, *hi), *to)),
            Join(from, to) => g.joins.push((at(from), *to)),
            Out(from, o) => g.outs.push((at(from), *o)),
            To(from, c, to) => g.edges.push((at(from), P::Range(*c, *c), at(to))),
            JoinTo(from, to) => g.joins.push((at(from), at(to))),
            Fresh(way, _) => {
                let t = n + r;
                let mut edge = |f: u32, c: u8, t: u32| g.edges.push((f, P::Range(c, c), t));
                match way {
                    0 => { }
                    1 => edge(0, 2, t),
                    2 => edge(t, 1, 0),
                    3 => edge(t, 0, t),
                    4 => g.joins.push((0, t)),
                    5 => g.joins.push((t, 0)),
                    6 => g.outs.push((t, 99)),
                    7 => g.joins.push((t, t + 1)),
                    8 => g.joins.push((t + 1, t)),
                    9 => edge(t, 1, t + 1),
                    _ => edge(t + 1, 1, t),
                }
                r += if *way >= 7 { 2 } else { 1 };
            }
        }
    }
    g
}

fn check<S: Sym>(ops: &[Op], n: u32, axis: &Axis<S>, direct: bool, ctx: &mut Ctx) -> CaseResult {
    let show = || format!("on a machine of {} states: {:?}", n, ops);
    let mut real: Ndfa<SymbolRange<S>, u8> = Ndfa::new();
    if apply(&mut real, ops, n, axis, direct).map_err(|e| format!("{}\n{}", show(), e))?.is_none() { return Ok(()); }
    let g = reference(ops, n);
    let tag = fp(&format!("{:?}", ops));
    real.fix_overlapping_ranges();
    let dfa = DfaCompiler::build(real, SymbolRangeDfaBuilder::new());
    let table = range_table(&dfa, axis).map_err(|e| format!("{}\n{}", show(), e))?;
    let access = product(&table, &g, axis.len(), tag, ctx).map_err(|e| format!("{}\nlibrary machine: {}", show(), e))?;
    for w in access.iter().take(200) {
        let got = run_real(&dfa, &axis.string(w))?;
        ctx.trace();
        let want = g.longest(w);
        if got != want { return Err(format!("{}\ninput {:?}: {:?}, expected {:?}", show(), axis.string(w), got, want)); }
    }
    // a machine of another kind that implements the same trait
    let mut own: Own<S, u8> = Own::new();
    if apply(&mut own, ops, n, axis, direct).map_err(|e| format!("{}\nanother kind of machine: {}", show(), e))?.is_none() { return Ok(()); }
    product(&own.abs(axis), &g, axis.len(), tag ^ 1, ctx).map_err(|e| format!("{}\nanother kind of machine: {}", show(), e))?;
    ctx.trace();
    ctx.outcome(&format!("{} states", table.next.len().min(20)));
    ctx.sample(|| format!("{}: {} states compared", show(), access.len()));
    Ok(())
}

/// Symbols in the pattern written out without repetitions
fn positions(p: &P) -> usize {
    match p {
        P::Eps => 0,
        P::Lit(l) => l.len(),
        P::Range(..) => 1,
        P::Inf(n, x) => (*n as usize + 2) * positions(x),
        P::Rep(_, b, x) => *b as usize * positions(x),
        P::All(v) | P::Any(v) => v.iter().map(positions).sum(),
    }
}

/// Surroundings of a pattern compiled from `N::S(s)`; the first returned state is R(0)
fn surroundings() -> Vec<(&'static str, bool, Vec<Op>, u32, Vec<Op>)> {
    let r = N::R(0);
    vec![
        ("alone", true, vec![], 0, vec![Out(r, 1)]),
        ("start state loops", false, vec![Trans(N::S(0), 3, 3, 0)], 0, vec![Out(r, 1)]),
        ("start state left and entered again by a join", false, vec![Trans(N::S(0), 1, 1, 1), Join(N::S(1), 0), Out(N::S(1), 2)], 0, vec![Out(r, 1)]),
        ("from a later state, start state loops on everything", false, vec![Trans(N::S(0), 0, 3, 0), Trans(N::S(0), 1, 1, 1)], 1, vec![Out(r, 1), Out(N::S(1), 2)]),
        ("returned state goes back", false, vec![], 0, vec![Out(r, 1), Trans(r, 1, 2, 0)]),
        ("returned state joined to the start", false, vec![], 0, vec![Join(r, 0), Out(r, 1)]),
        ("returned state joined to a loop", false, vec![Trans(N::S(1), 1, 1, 1), Out(N::S(1), 2), Trans(N::S(0), 2, 3, 1)], 0, vec![Join(r, 1), Out(r, 1)]),
        ("start state joined to another that goes on", false, vec![Join(N::S(0), 1), Trans(N::S(1), 0, 1, 2), Out(N::S(2), 2)], 0, vec![Out(r, 1)]),
        ("another state joined to the start state", false, vec![Join(N::S(1), 0), Trans(N::S(0), 2, 2, 1)], 0, vec![Out(r, 1), Out(N::S(1), 3)]),
        ("a literal follows", false, vec![], 0, vec![Compile(lit(&[0, 1]), r), Out(N::R(1), 1)]),
        ("an alternative at the same state", false, vec![], 0, vec![Compile(lit(&[1, 0]), N::S(0)), Out(r, 1), Out(N::R(1), 2)]),
        ("twice in a row", false, vec![], 0, vec![Compile(P::Eps, r), Out(N::R(1), 2)]),
    ]
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    {
        let g = Grammar::new(atoms3(0, 1, 2), unaries(), false, t.pick(4, 5));
        let n = g.total();
        let s = surroundings();
        let k = s.len() as u64;
        f.push(family("surroundings", format!("every pattern of at most {} nodes compiled onto each of {} machines (start state with loops, ways back, joins from and to it; the returned state going on, back, joined); outputs on several states (on machines with ways back, patterns of at most 9 symbols written out); all inputs, on the library's machine and on another", t.pick(4, 5), k), n * k, move |i, ctx| {
            let (_, direct, before, at, after) = &s[(i % k) as usize];
            let p = g.get(i / k);
            // a state that is entered again and again makes a machine exponential in these
            let re_entered = *at == 1 || (1..=8).contains(&(i % k)) && i % k != 7;
            if re_entered && positions(&p) > t.pick(9, 9) { return Ok(()); }
            let mut ops = before.clone();
            ops.push(Compile(p, N::S(*at)));
            ops.extend(after.iter().cloned());
            check(&ops, 3, &Axis::new(vec![10u8, 11, 12, 13]), *direct, ctx)
        }));
    }
    {
        let b = t.pick(Bank::new(4, 12, (2, 3, 3), 5, 1), Bank::new(5, 20, (2, 3, 4), 6, 2));
        f.push(family("bank", format!("{}: compiled onto a machine from a state that a symbol leads to, with a loop or another way on, alone, with a literal that follows, or with another from the same state", b.text()), b.total() * 4, move |i, ctx| {
            let p = b.get(i / 4);
            let r = N::R(0);
            let ops = match i % 4 {
                0 => vec![Compile(p, N::S(0)), Out(r, 1)],
                1 => vec![Trans(N::S(0), 0, 3, 0), Trans(N::S(0), 1, 1, 1), Compile(p, N::S(1)), Out(r, 1)],
                2 => vec![Trans(N::S(0), 2, 2, 1), Compile(p, N::S(1)), Out(r, 1), Compile(lit(&[1, 2]), r), Out(N::R(1), 2)],
                _ => vec![Compile(P::Range(0, 3), N::S(0)), Compile(p, N::S(0)), Out(r, 2), Out(N::R(1), 1)],
            };
            // a state that is entered again and again makes a machine exponential in these
            if i % 4 == 1 && positions(&b.get(i / 4)) > 9 { return Ok(()); }
            check(&ops, 2, &Axis::new(vec![9u8, 10, 11, 12, 13, 14]), i / 4 % 2 == 0, ctx)
        }));
    }
    {
        let g = Grammar::new(atoms3(0, 1, 2), unaries(), false, 2);
        let n = g.total();
        f.push(family("two-patterns", format!("every ordered pair of the {} patterns of at most 2 nodes: both from one state, one after the other, one from a state reached by a symbol, in a circle, the second before and the third after", n), n * n * 5, move |i, ctx| {
            let (p, q) = (g.get(i / 5 / n), g.get(i / 5 % n));
            let ops = match i % 5 {
                0 => vec![Compile(p, N::S(0)), Compile(q, N::S(0)), Out(N::R(0), 1), Out(N::R(1), 2)],
                1 => vec![Compile(p, N::S(0)), Compile(q, N::R(0)), Out(N::R(0), 2), Out(N::R(1), 1)],
                2 => vec![Trans(N::S(0), 0, 0, 1), Compile(p, N::S(0)), Compile(q, N::S(1)), Out(N::R(0), 1), Out(N::R(1), 2)],
                3 => vec![Compile(p, N::S(0)), Compile(q, N::R(0)), Join(N::R(1), 0), Out(N::R(0), 1)],
                _ => vec![Compile(q.clone(), N::S(1)), Join(N::R(0), 0), Compile(p, N::S(0)), Join(N::R(1), 1), Out(N::R(1), 1), Compile(q, N::S(0)), Out(N::R(2), 2)],
            };
            check(&ops, 2, &Axis::new(vec!['a', '\u{d7ff}', '\u{e000}', '\u{10ffff}']), false, ctx)
        }));
    }
    {
        let depth = t.pick(4usize, 5);
        let mut ops = vec![];
        for from in [N::S(0), N::S(1), N::Last] {
            for p in [lit(&[0]), P::Inf(0, Box::new(lit(&[0]))), P::Eps, P::Any(vec![lit(&[0]), lit(&[0, 1])]), P::Rep(0, 3, Box::new(P::Range(0, 1)))] { ops.push(Compile(p, from)); }
        }
        for (from, a, b, to) in [(N::S(0), 0, 0, 1), (N::S(0), 1, 1, 0), (N::S(1), 1, 2, 0), (N::Last, 0, 1, 1), (N::Last, 2, 2, 0)] { ops.push(Trans(from, a, b, to)); }
        for (from, to) in [(N::S(0), 1), (N::S(1), 0), (N::Last, 0), (N::Last, 1)] { ops.push(Join(from, to)); }
        ops.push(Out(N::Last, 1));
        let k = ops.len() as u64;
        f.push(family("histories", format!("every sequence of {} of {} calls (five patterns from the two first states or the state returned last, transitions, joins, an output), then outputs on the second state and the state returned last", depth, k), k.pow(depth as u32), move |i, ctx| {
            let mut h: Vec<Op> = seq(i, k, depth).into_iter().map(|j| ops[j].clone()).collect();
            if !h.iter().any(|o| matches!(o, Compile(..))) { return Ok(()); }
            h.push(Out(N::S(1), 3));
            h.push(Out(N::Last, 2));
            check(&h, 2, &Axis::new(vec![0u8, 254, 255]), false, ctx)
        }));
    }
    // Words of ranges from one state: what overlaps does so between different states only
    {
        let rs = [(0u8, 3u8), (0, 2), (1, 3), (1, 1), (2, 3), (0, 0), (0, 1), (1, 2), (2, 2), (3, 3)];
        let k = t.pick(5u64, 10);
        let one = string_count(k, 2) - 1;
        f.push(family("range-words", format!("every list of 3 words of one or two of {} ranges of neighbouring symbols, compiled from one state or the third from where the first ends", k), one.pow(3) * 2, move |i, ctx| {
            let word = |x: usize| P::All(string(k, x as u64 + 1).into_iter().map(|r| P::Range(rs[r as usize].0, rs[r as usize].1)).collect());
            let w: Vec<P> = seq(i / 2, one, 3).into_iter().map(word).collect();
            let mut h: Vec<Op> = w.into_iter().enumerate().map(|(j, p)| Compile(p, if j == 2 && i % 2 == 1 { N::R(0) } else { N::S(0) })).collect();
            for j in 0..3 { h.push(Out(N::R(j), j as u8 + 1)); }
            check(&h, 1, &Axis::new(vec![9u8, 10, 11, 12, 13]), true, ctx)
        }));
    }
    // States that come into being by being mentioned: a pattern's own states are others
    {
        let depth = t.pick(3usize, 4);
        let mut ops = vec![];
        for way in 0..11 { for gap in if t == Tier::Quick { vec![0, 1, 9] } else { vec![0, 2] } { ops.push(Fresh(way, gap)); } }
        for from in [N::S(0), N::Last] { for p in [lit(&[0, 1]), P::Inf(0, Box::new(lit(&[0]))), P::Rep(1, 3, Box::new(P::Range(0, 1))), P::Any(vec![lit(&[0]), P::Range(0, 1)]), lit(&[0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 1])] { ops.push(Compile(p, from)); } }
        ops.push(JoinTo(N::S(0), N::Last));
        ops.push(To(N::Last, 0, N::R(0)));
        let k = ops.len() as u64;
        f.push(family("mentioned", format!("every sequence of {} of {} calls on a new machine, where states further on come into being by being mentioned (created, as either end of a transition or join, or both, or given an output) between compilings; then a way to and an output on every state that was mentioned or returned", depth, k), k.pow(depth as u32), move |i, ctx| {
            let mut h: Vec<Op> = seq(i, k, depth).into_iter().map(|j| ops[j].clone()).collect();
            if !h.iter().any(|o| matches!(o, Compile(..))) || !h.iter().any(|o| matches!(o, Fresh(..))) { return Ok(()); }
            let r: usize = h.iter().map(|o| match o { Compile(..) => 1, Fresh(w, _) => if *w >= 7 { 2 } else { 1 }, _ => 0 }).sum();
            if h.iter().position(|o| matches!(o, JoinTo(..) | To(..) | Compile(_, N::Last))).map_or(false, |p| !h[..p].iter().any(|o| matches!(o, Compile(..) | Fresh(..)))) { return Ok(()); }
            for j in 0..r { h.push(Out(N::R(j), j as u8 + 1)); }
            for j in 0..r { h.push(To(N::S(0), 3 + j as u8, N::R(j))); }
            check(&h, 1, &Axis::new((10u8..13 + 2 * depth as u8).collect()), false, ctx)
        }));
    }
    f.push(family("scale", format!("{} kinds of patterns of every size of {:?} up to {}: compiled onto a machine from a state that a symbol leads to, with a loop and another way on at the first state and a pattern that follows; the library's machine, and as it is reached through the interface of another", scale::KINDS, scale::SIZES, t.pick(513, 5001)), (scale::KINDS * scale::SIZES.len()) as u64, move |i, ctx| {
        let (kind, n) = (i as usize / scale::SIZES.len(), scale::SIZES[i as usize % scale::SIZES.len()]);
        if n > t.pick(513, 5001) { return Ok(()); }
        let Some(b) = scale::big(kind, n, scale::How::Direct) else { return Ok(()) };
        let at = |x: u32| SymbolRange::new(scale::STOP + x, scale::STOP + x);
        fn put<M: MutableStateMachine<SymbolRange<u32>, u8>>(m: &mut M, p: &Pattern<u32>, at: &dyn Fn(u32) -> SymbolRange<u32>) {
            m.add_transition(0, at(1), 0);
            m.add_transition(0, at(2), 1);
            m.add_transition(0, at(3), 2);
            m.set_output_symbol(2, 5);
            let end = p.compile(m, 1);
            let f = m.count_states();
            m.join_states(end, f);
            m.set_output_symbol(f, 2);
            let end = Match(vec![scale::STOP + 4]).compile(m, end);
            let f = m.count_states();
            m.join_states(end, f);
            m.set_output_symbol(f, 1);
        }
        let mut real: Ndfa<SymbolRange<u32>, u8> = Ndfa::new();
        put(&mut real, &b.p, &at);
        real.fix_overlapping_ranges();
        let dfa = DfaCompiler::build(real, SymbolRangeDfaBuilder::new());
        let mut own: Own<u32, u8> = Own::new();
        put(&mut own, &b.p, &at);
        for (k, (w, want)) in b.words.iter().enumerate() {
            let mut v = vec![scale::STOP + 1; k % 3];
            v.push(scale::STOP + 2);
            let before = v.len();
            v.extend_from_slice(w);
            let mut want = want.map(|x| (x + before, 2u8));
            if want == Some((v.len(), 2)) { v.push(scale::STOP + 4); want = Some((v.len(), 1)); }
            let got = run_real(&dfa, &v)?;
            ctx.trace();
            ctx.transitions += v.len() as u64;
            ctx.state(&(kind, n, w));
            let fail = |how: &str, got| Err(format!("{}, compiled onto {}: an input of {} symbols that begins {:?}: {:?}, expected {:?}", b.name, how, v.len(), &v[..v.len().min(8)], got, want));
            if got != want { return fail("the library's machine", got); }
            if n <= (match kind { 3 | 5 | 7 | 22 => 17, 14 | 18 | 19 => 6, _ => 129 }) && v.len() < 200 {
                let got = scale::simulate(&own, 0, &v);
                ctx.trace();
                if got != want { return fail("another machine", got); }
            }
        }
        if run_real(&dfa, &vec![scale::STOP + 1, scale::STOP + 3])? != Some((2, 5)) { return Err(format!("{}: the other way on is gone", b.name)); }
        ctx.outcome("scale");
        Ok(())
    }));
    f.push(family("scaled", "n patterns in a row, from one state, or each from the state the one before returned joined back, on machines that already have up to 70000 states".into(), 12 * 4, |i, ctx| {
        let n = [1usize, 2, 5, 15, 16, 17, 31, 33, 64, 65, 100, 257][(i % 12) as usize];
        let pool = [lit(&[0]), P::Rep(0, 3, Box::new(lit(&[0, 1]))), P::Inf(1, Box::new(P::Range(0, 1))), P::Any(vec![lit(&[1]), lit(&[2, 2])]), lit(&[1, 2, 0])];
        let mut ops = vec![];
        for j in 0..n {
            let p = pool[j % 5].clone();
            match i / 12 {
                0 => ops.push(Compile(p, if j == 0 { N::S(0) } else { N::Last })),
                1 => ops.push(Compile(lit(&[(j % 3) as u8, (j / 3 % 3) as u8, (j / 9 % 3) as u8, (j / 27 % 3) as u8]), N::S(0))),
                2 => { ops.push(Compile(lit(&[(j % 3) as u8, 1]), if j == 0 { N::S(0) } else { N::Last })); ops.push(Join(N::Last, 0)); }
                _ => { ops.push(Compile(lit(&[0, 1]), if j == 0 { N::S(0) } else { N::R(j - 1) })); }
            }
            if j % 7 == 3 { ops.push(Out(N::Last, (j % 5) as u8)); }
        }
        ops.push(Out(N::Last, 9));
        if i / 12 == 0 && n > 17 { return Ok(()); }
        let states = if i / 12 == 3 && n <= 5 { [1u32, 255, 256, 257, 65535, 65536, 70000][n] } else { 3 };
        check(&ops, states, &Axis::new(vec![10u8, 11, 12, 13]), false, ctx)
    }));
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C25",
        level: "model_checking",
        assumptions: vec!["the state compile returns is only entered through the compiled pattern (an empty pattern may return the state it was given)".into()],
        families,
    })
}
