//! C05: a mutable machine holds exactly what was put in it, with joins followed.
use concordance::*;
use mc::edits::*;
use mc::engine::*;
use mc::space::*;
use std::collections::{BTreeMap, BTreeSet};

fn run(ops: &[&Op], states: &[u32], every: bool, ctx: &mut Ctx) -> CaseResult {
    let mut n: Ndfa<char, i16> = Ndfa::new();
    let mut m = Model::default();
    for (i, op) in ops.iter().enumerate() {
        apply(&mut n, op);
        m.apply(op);
        ctx.step();
        ctx.state(&m);
        if every || i + 1 == ops.len() {
            compare(&n, &m, states, ctx).map_err(|e| format!("after {:?}\n{}", &ops[..=i], e))?;
        }
    }
    // A copy holds the same, and keeps it when the original goes on
    let c = n.clone();
    n.add_transition(0, 'q', 1);
    n.set_output_symbol(0, 77);
    compare(&c, &m, states, ctx).map_err(|e| format!("copy taken after {:?}\n{}", ops, e))
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    {
        let p = pool(3);
        let k = p.len() as u64;
        let d = t.pick(4, 5);
        f.push(family("histories", format!("every sequence of {} edits out of {} (transitions, joins including to itself, outputs, creation) on 3 states", d, k), k.pow(d as u32), move |i, ctx| {
            let ops: Vec<&Op> = seq(i, k, d).into_iter().map(|j| &p[j]).collect();
            run(&ops, &[0, 1, 2], i % 7 == 0, ctx)
        }));
    }
    {
        // joins and outputs only, five states: deep closures
        let mut js = vec![];
        for a in 0..5u32 { for b in 0..5u32 { if a != b { js.push((a, b)); } } }
        let mut sets = vec![];
        for k in 0..=t.pick(4, 6) { sets.extend(subsets(js.len(), k)); }
        let n = sets.len() as u64;
        f.push(family("join-graphs", format!("every set of at most {} joins on 5 states, made before, after and between the transitions and outputs of the states; every choice of one or two states with an output", t.pick(4, 6)), n * 15, move |i, ctx| {
            let set = &sets[(i / 15) as usize];
            let v = i % 15;
            let mut ops: Vec<Op> = set.iter().map(|j| Op::J(js[*j].0, js[*j].1)).collect();
            let mut content: Vec<Op> = (0..5u32).map(|s| Op::T(s, (b'a' + s as u8) as char, (s + 1) % 5)).collect();
            content.push(Op::O((v % 5) as u32, 4));
            if v >= 5 { content.push(Op::O(((v + 2) % 5) as u32, 3)); }
            if v >= 10 { content.push(Op::O((v % 5) as u32, 2)); }
            let ops = match v % 3 {
                0 => { ops.extend(content); ops }
                1 => { content.extend(ops); content }
                _ => {
                    let mut out = vec![];
                    let (mut a, mut b) = (ops.into_iter(), content.into_iter());
                    loop { match (a.next(), b.next()) { (None, None) => break, (x, y) => { out.extend(x); out.extend(y); } } }
                    out
                }
            };
            ctx.sample(|| format!("{:?}", ops));
            run(&ops.iter().collect::<Vec<_>>(), &[0, 1, 2, 3, 4], false, ctx)
        }));
    }
    {
        let sizes: Vec<u32> = vec![2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 1000, 65535, 65536, 70000];
        let n = sizes.len() as u64;
        f.push(family("large", "state numbers up to 70000; chains and cycles of up to 1000 joins in both orders of creation; up to 1000 transitions on one state; sparse states".into(), n * 6, move |i, ctx| {
            let k = sizes[(i / 6) as usize];
            let mut ops = vec![];
            let mut states = vec![0, 1, k / 2, k - 1, k];
            match i % 6 {
                0 => { ops.push(Op::T(k, 'a', 0)); ops.push(Op::O(k, 1)); ops.push(Op::T(0, 'b', k)); ops.push(Op::J(1, k)); }
                1 => { ops.push(Op::J(0, k)); ops.push(Op::T(k, 'x', k)); ops.push(Op::O(k, 9)); }
                2 if k <= 1000 => { for s in 0..k { ops.push(Op::J(s, s + 1)); } ops.push(Op::T(k, 'z', 0)); ops.push(Op::T(k / 2, 'y', 1)); ops.push(Op::O(k, 5)); }
                3 if k <= 1000 => { ops.push(Op::O(k / 2, 5)); ops.push(Op::T(k / 2, 'y', 1)); for s in (0..k).rev() { ops.push(Op::J(s + 1, s)); } ops.push(Op::J(0, k)); }
                4 if k <= 1000 => { for s in 0..k { ops.push(Op::T(0, char::from_u32(97 + s).unwrap(), s)); if s % 3 == 0 { ops.push(Op::O(s, s as i16)); } if s % 5 == 0 { ops.push(Op::O(s, -1)); } } }
                5 if k <= 1000 => { for s in 1..=k { ops.push(Op::J(0, s)); ops.push(Op::T(s, char::from_u32(97 + s).unwrap(), s)); } ops.push(Op::O(k, 8)); }
                _ => { ops.push(Op::C(k)); ops.push(Op::O(k, 0)); ops.push(Op::O(k, 3)); ops.push(Op::C(1)); }
            }
            states.dedup();
            run(&ops.iter().collect::<Vec<_>>(), &states, false, ctx).map_err(|e| e.chars().take(3000).collect())
        }));
    }
    {
        // After n edits of one sort, further edits of every sort that mention the highest state, the next ones, or none
        let ns: Vec<u32> = (0..=t.pick(20, 40)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]).collect();
        const PREP: u64 = 10;
        const LAST: u64 = 12;
        let (nn, jumps) = (ns.len() as u64, [0u32, 1, 2, 9]);
        let per = PREP * LAST * jumps.len() as u64 * LAST;
        f.push(family("growth", format!("{} sorts of machines made by n edits, n in {:?}, the number of states read after each edit; then every pair of further edits out of {} that mention the highest state or the 1st, 2nd or 9th after it in each role; the number of states and what the new, first and middle states hold afterwards", PREP, ns, LAST), nn * per, move |i, ctx| {
            let (n, i) = (ns[(i / per) as usize], i % per);
            let (prep, i) = (i / (per / PREP), i % (per / PREP));
            let (a, i) = (i / (per / PREP / LAST), i % (per / PREP / LAST));
            let (jump, b) = (jumps[(i / LAST) as usize], i % LAST);
            // With many states the second edit is made only after the edits that mention one
            if n > 65 && b != a && b != (a + 5) % LAST { return Ok(()); }
            let mut m = Model::default();
            let mut r: Ndfa<char, i16> = Ndfa::new();
            let mut made = vec![];
            let step = |r: &mut Ndfa<char, i16>, m: &mut Model, op: Op, ctx: &mut Ctx| -> CaseResult {
                apply(r, &op);
                m.apply(&op);
                ctx.step();
                if r.count_states() != m.max + 1 { return Err(format!("count_states is {}, expected {}, after {} edits of sort {} and then {:?}", r.count_states(), m.max + 1, n, prep, op)); }
                Ok(())
            };
            for s in 0..n {
                let op = match prep {
                    0 => Op::T(s, 'a', s + 1),
                    1 => Op::T(s + 1, 'a', s),
                    2 => Op::T(s, 'b', s),
                    3 => Op::T(s, 'a', 0),
                    4 => Op::T(0, 'c', s),
                    5 => Op::J(s, s + 1),
                    6 => Op::J(s + 1, s),
                    7 => Op::O(s, s as i16),
                    8 => Op::C(s),
                    _ => match s % 4 { 0 => Op::T(s, 'a', s / 2), 1 => Op::O(s, 3), 2 => Op::J(s, s / 3), _ => Op::C(s) },
                };
                step(&mut r, &mut m, op, ctx)?;
            }
            for e in [a, b] {
                let (top, low) = (m.max, m.max / 2);
                let h = top + jump;
                let op = match e {
                    0 => Op::T(h, 'x', 0),
                    1 => Op::T(low, 'x', h),
                    2 => Op::T(h, 'x', h),
                    3 => Op::T(h, 'x', top),
                    4 => Op::T(h, 'x', h + 1),
                    5 => Op::J(h, 0),
                    6 => Op::J(low, h),
                    7 => Op::J(h, top),
                    8 => Op::J(h, h + 1),
                    9 => Op::O(h, 70),
                    10 => Op::C(h),
                    _ => Op::O(low, 71),
                };
                made.push(format!("{:?}", op));
                step(&mut r, &mut m, op, ctx)?;
            }
            let mut states = vec![0, 1, n / 2, n, m.max / 2, m.max - m.max.min(1), m.max];
            states.sort();
            states.dedup();
            ctx.state(&(prep, a, b, m.max));
            compare(&r, &m, &states, ctx).map_err(|e| format!("after {} edits of sort {} and then {}: {}", n, prep, made.join(", "), e).chars().take(3000).collect())
        }));
    }
    // Machines of a given size
    {
        use mc::bigm::*;
        let v = sizes(10007);
        let per = 3u64;
        let n = v.len() as u64 * per;
        f.push(family("sizes", format!("{} kinds of machines of sizes {:?}, built by their calls in order, reversed and each made twice; the transitions and outputs of the states at the ends, in the middle and next to powers of two", KINDS, SIZES), n, move |i, ctx| {
            let (kind, n) = v[(i / per) as usize];
            let b = match big(kind, n) { Some(b) => b, None => return Ok(()) };
            let sim = Sim::new(&b.calls);
            let m = make(&ordered(&b.calls, [0, 1, 5][(i % per) as usize]));
            ctx.trace();
            if m.count_states() != sim.states { return Err(format!("{}: count_states is {}, expected {}", b.name, m.count_states(), sim.states)); }
            for s in places(&b, &sim).0 {
                ctx.step();
                let real: BTreeSet<(u32, u32, u32)> = m.get_transitions_for_state(s).into_iter().map(|t| (t.0.lowest, t.0.highest, t.1)).collect();
                let want = sim.all(s);
                if real != want {
                    let d: Vec<_> = real.symmetric_difference(&want).take(5).collect();
                    return Err(format!("{}: state {} has {} transitions, expected {}; they differ in {:?}", b.name, s, real.len(), want.len(), d));
                }
                let outs = sim.outputs(&[s]);
                let all: BTreeSet<u32> = m.output_symbols_for_state(s).into_iter().cloned().collect();
                if all != outs { return Err(format!("{}: state {} has the outputs {:?}, expected {:?}", b.name, s, all.iter().take(5).collect::<Vec<_>>(), outs.iter().take(5).collect::<Vec<_>>())); }
                let one = m.output_symbol_for_state(s).cloned();
                let ok = match (sim.own(s), one) { (Some(o), x) => x == Some(o), (None, None) => outs.is_empty(), (None, Some(o)) => outs.contains(&o) };
                if !ok { return Err(format!("{}: state {} reports the output {:?}; its own is {:?}", b.name, s, one, sim.own(s))); }
                ctx.state(&(s, want.len(), outs.len()));
            }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C05",
        level: "model_checking",
        assumptions: vec!["histories are bounded in length; longer ones are covered through the join-graph and large families".into()],
        families,
    })
}
