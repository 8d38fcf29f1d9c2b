//! C04: a compiled DFA is deterministic and equivalent to its machine.
use concordance::*;
use mc::engine::*;
use mc::machine::*;
use mc::model::*;
use mc::product::*;
use mc::space::*;
use std::collections::BTreeSet;
use std::rc::Rc;

/// Compiles, explores the product with subset simulation, and runs every access string (extended
/// by one more symbol) through the real matcher.
fn compare<S: Sym, M: StateMachine<SymbolRange<S>, u8> + 'static>(m: M, axis: &Axis<S>, a: &Abs<u8>, tag: u64, runs: bool, ctx: &mut Ctx) -> CaseResult {
    let dfa: SymbolRangeDfa<S, u8> = DfaCompiler::build(m, SymbolRangeDfaBuilder::new());
    ctx.trace();
    let t = range_table(&dfa, axis)?;
    let acc = subset_product(&t, a, tag, ctx)?;
    if runs { ctx.outcome(&format!("{} states compiled to {}", a.step.len(), t.next.len())); }
    ctx.sample(|| format!("{:?}: {} pairs explored", a, acc.len()));
    if runs {
        for w in &acc {
            for c in 0..=a.k {
                let mut w = w.clone();
                if c < a.k { w.push(c as u8); }
                let real = run_real(&dfa, &axis.string(&w))?;
                ctx.trace();
                let want = a.longest(&w);
                if real != want {
                    return Err(format!("input {:?}: the compiled machine gives {:?}, expected {:?}", axis.string(&w), real, want));
                }
            }
        }
    }
    Ok(())
}

/// Machine from a full relation: rel[s][c] is a bitmask of targets
fn from_rel(rel: &[Vec<u32>], out: &[Option<u8>], ranges: &[SymbolRange<u8>]) -> (Listed<SymbolRange<u8>, u8>, Abs<u8>) {
    let n = rel.len();
    let k = rel[0].len();
    let mut a = Abs::new(n, k);
    let mut m = Listed { trans: vec![vec![]; n], out: out.to_vec() };
    for s in 0..n {
        for c in 0..k {
            for t in 0..n as u32 {
                if rel[s][c] >> t & 1 == 1 {
                    a.step[s][c].insert(t);
                    m.trans[s].push((ranges[c].clone(), t));
                }
            }
        }
        if let Some(o) = out[s] { a.out[s].insert(o); }
    }
    (m, a)
}

fn outs(mut i: u64, n: usize) -> Vec<Option<u8>> {
    (0..n).map(|_| { let d = i % 3; i /= 3; if d == 0 { None } else { Some(d as u8 - 1) } }).collect()
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let r2 = vec![SymbolRange::new(0u8, 9), SymbolRange::new(10, 255)];
    let ax2 = || Axis::new(vec![0u8, 10]);
    {
        let r = r2.clone();
        f.push(family("all-2-state", "every machine of 2 states over 2 symbols (all 4^4 transition relations) with every output assignment from {none,0,1}; all inputs by product, all access strings run".into(), 256 * 9, move |i, ctx| {
            let d = digits(i / 9, &[4; 4]);
            let rel: Vec<Vec<u32>> = (0..2).map(|s| (0..2).map(|c| d[s * 2 + c] as u32).collect()).collect();
            let (m, a) = from_rel(&rel, &outs(i % 9, 2), &r);
            let show = format!("{:?}", m);
            compare(m, &ax2(), &a, i, true, ctx).map_err(|e| format!("machine {}\n{}", show, e))
        }));
    }
    {
        let r = r2.clone();
        let os: Vec<u64> = t.pick(vec![9, 18 + 3, 1 + 6, 2 + 3 + 9], (0..27).collect());
        let k = os.len() as u64;
        f.push(family("all-3-state", format!("every one of the 8^6 transition relations of 3 states over 2 symbols x {} output assignments; all inputs by product, access strings run for every 16th", k), 262144 * k, move |i, ctx| {
            let d = digits(i / k, &[8; 6]);
            let rel: Vec<Vec<u32>> = (0..3).map(|s| (0..2).map(|c| d[s * 2 + c] as u32).collect()).collect();
            let (m, a) = from_rel(&rel, &outs(os[(i % k) as usize], 3), &r);
            let m2 = m.clone();
            compare(m, &ax2(), &a, i, i / k % 16 == 0, ctx).map_err(|e| format!("machine {:?}\n{}", m2, e))
        }));
    }
    {
        let r = vec![SymbolRange::new(0u8, 255)];
        let os = t.pick(9u64, 81);
        f.push(family("all-4-state-unary", format!("every one of the 16^4 transition relations of 4 states over one symbol x {} output assignments", os), 65536 * os, move |i, ctx| {
            let d = digits(i / os, &[16; 4]);
            let rel: Vec<Vec<u32>> = (0..4).map(|s| vec![d[s] as u32]).collect();
            let (m, a) = from_rel(&rel, &outs(if os == 9 { (i % os) * 9 + 1 } else { i % os }, 4), &r);
            let m2 = m.clone();
            compare(m, &Axis::new(vec![7u8]), &a, i, (i / os) % 16 == 1, ctx).map_err(|e| format!("machine {:?}\n{}", m2, e))
        }));
    }
    // Deterministic machines of 4 states over 3 symbols (adjoining and separate ranges)
    {
        let n = 4u64;
        f.push(family("partial-deterministic", "every partial deterministic machine of 2 states over 4 symbols (two adjoining pairs with a gap), every output assignment".into(), 3u64.pow(8) * 9, move |i, ctx| {
            let _ = n;
            let d = digits(i / 9, &[3; 8]);
            let r = vec![SymbolRange::new(0u8, 9), SymbolRange::new(10, 19), SymbolRange::new(30, 30), SymbolRange::new(31, 255)];
            let rel: Vec<Vec<u32>> = (0..2).map(|s| (0..4).map(|c| [0, 1, 2][d[s * 4 + c] as usize]).collect()).collect();
            let (m, a) = from_rel(&rel, &outs(i % 9, 2), &r);
            let m2 = m.clone();
            // a fifth symbol that lies in the gap
            let mut b = Abs::new(2, 5);
            for s in 0..2 { for c in 0..4 { let c2 = if c < 2 { c } else { c + 1 }; b.step[s][c2] = a.step[s][c].clone(); } b.out[s] = a.out[s].clone(); }
            compare(m, &Axis::new(vec![9u8, 10, 25, 30, 31]), &b, i, i % 9 == 4, ctx).map_err(|e| format!("machine {:?}\n{}", m2, e))
        }));
    }
    // The library's own machine, with joins
    {
        let mut sets = vec![];
        for k in 0..=t.pick(2, 3) { sets.extend(subsets(18, k)); }
        let ns = sets.len() as u64;
        let r = r2.clone();
        f.push(family("ndfa-joins", format!("every library machine of 3 states over 2 symbols with at most {} transitions, every join relation (2^6), every output assignment; directly, behind Rc and behind Box", t.pick(2, 3)), ns * 64 * 27, move |i, ctx| {
            let d = digits(i, &[27, 64, ns]);
            let out = outs(d[0], 3);
            let mut a = Abs::new(3, 2);
            let mut joins = vec![BTreeSet::new(); 3];
            let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
            n.create_state(2);
            for x in &sets[d[2] as usize] {
                let (from, c, to) = (x / 6, x / 3 % 2, x % 3);
                a.step[from][c].insert(to as u32);
                n.add_transition(from as u32, r[c].clone(), to as u32);
            }
            for (b, (x, y)) in [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)].iter().enumerate() {
                if d[1] >> b & 1 == 1 {
                    joins[*x as usize].insert(*y as u32);
                    n.join_states(*x, *y);
                }
            }
            for s in 0..3 { if let Some(o) = out[s] { a.out[s].insert(o); n.set_output_symbol(s as u32, o); } }
            let a = a.with_joins(&joins);
            let fail = |e: String| format!("transitions {:?} (from*6+symbol*3+to), joins {:?}, outputs {:?}\n{}", sets[d[2] as usize], joins, out, e);
            match i % 3 {
                0 => compare(n, &ax2(), &a, i, i % 16 == 0, ctx).map_err(fail),
                1 => { let rc: Rc<dyn StateMachine<SymbolRange<u8>, u8>> = Rc::new(n); compare(rc, &ax2(), &a, i, false, ctx).map_err(fail) }
                _ => { let b: Box<dyn StateMachine<SymbolRange<u8>, u8>> = Box::new(n); compare(b, &ax2(), &a, i, false, ctx).map_err(fail) }
            }
        }));
    }
    // Growing machines
    {
        f.push(family("grown", "chains of up to 70000 states, 'n-th symbol from the end' machines up to n = 10 (1024 deterministic states), machines with up to 255 transitions per state and up to 300 states".into(), 20 + 10 + 30, move |i, ctx| {
            if i < 20 {
                let n = [2usize, 3, 7, 50, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4097, 70000][i as usize];
                let mut m = Listed { trans: vec![vec![]; n], out: vec![None; n] };
                let mut a = Abs::new(n, 2);
                for s in 0..n {
                    let t = ((s + 1) % n) as u32;
                    m.trans[s].push((SymbolRange::new(0u8, 9), t));
                    a.step[s][0].insert(t);
                    if s % 3 == 0 { m.trans[s].push((SymbolRange::new(10, 20), (s / 2) as u32)); a.step[s][1].insert((s / 2) as u32); }
                    m.out[s] = if s % 7 == 6 || s + 1 == n { Some((s % 5) as u8) } else { None };
                    if let Some(o) = m.out[s] { a.out[s].insert(o); }
                }
                if n <= 5000 { return compare(m, &ax2(), &a, i, n <= 300, ctx).map_err(|e| format!("cycle of {} states\n{}", n, e)); }
                let dfa: SymbolRangeDfa<u8, u8> = DfaCompiler::build(m, SymbolRangeDfaBuilder::new());
                let t = range_table(&dfa, &ax2())?;
                let (mut st, mut at) = (0u32, 0usize);
                for step in 0..n + 10 {
                    if t.out[st as usize] != a.out[at].iter().next().cloned() { return Err(format!("cycle of {} states: output after {} symbols", n, step)); }
                    let c = if step % 1000 == 999 && at % 3 == 0 { 1 } else { 0 };
                    st = match t.next[st as usize][c] { Some(x) => x, None => return Err(format!("cycle of {} states: stuck after {}", n, step)) };
                    at = *a.step[at][c].iter().next().unwrap() as usize;
                    ctx.step();
                }
                return Ok(());
            }
            if i < 30 {
                // (a|b)* a (a|b)^n
                let n = (i - 19) as usize;
                let rel: Vec<Vec<u32>> = (0..n + 2).map(|s| if s == 0 { vec![1 | 2, 1] } else if s == n + 1 { vec![0, 0] } else { vec![1 << (s + 1), 1 << (s + 1)] }).collect();
                let mut out = vec![None; n + 2];
                out[n + 1] = Some(3);
                out[n] = Some(7);
                let (m, a) = from_rel(&rel, &out, &[SymbolRange::new(0u8, 9), SymbolRange::new(10, 255)]);
                return compare(m, &ax2(), &a, i, n <= 7, ctx).map_err(|e| format!("n-th from the end, n = {}\n{}", n, e));
            }
            let j = (i - 30) as usize;
            let fan = [1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 240, 245][j % 20];
            let n = if j < 20 { 5 } else { 300 };
            let mut m = Listed { trans: vec![vec![]; n], out: vec![None; n] };
            let mut a = Abs::new(n, fan + 1);
            for s in 0..n {
                for c in 0..fan {
                    let t = ((s * 7 + c * c + c / 3) % n) as u32;
                    m.trans[s].push((SymbolRange::new(c as u8, c as u8), t));
                    a.step[s][c].insert(t);
                }
                m.out[s] = if s % 2 == 0 { Some((s % 100) as u8) } else { None };
                if let Some(o) = m.out[s] { a.out[s].insert(o); }
            }
            compare(m, &Axis::new((0..=fan as u8).collect()), &a, i, n == 5, ctx).map_err(|e| format!("{} states with {} transitions each\n{}", n, fan, e))
        }));
        // One symbol that leads to many states, in several listing orders
        let ns: Vec<usize> = (1..=t.pick(40, 80)).chain(t.pick(vec![64, 65, 130], vec![127, 128, 129, 130, 255, 256, 257, 300])).collect();
        let mut cases = vec![];
        for n in &ns { for k in 0..*n { for order in 0..5 { for via in 0..3 { if *n <= 40 || (k + order) % 5 == via { cases.push((*n, k, order, via)); } } } } }
        f.push(family("fans", format!("a state with a symbol to each of n states, n in {:?}, listed ascending, descending, evens then odds, twice over or from the middle outwards, straight, through joins or from two states; for every k, only the k-th goes on, has the lowest output and is told apart from the rest", ns), cases.len() as u64, move |i, ctx| {
            let (n, k, order, via) = cases[i as usize];
            let r = [SymbolRange::new(0u8, 9), SymbolRange::new(10, 255)];
            let list: Vec<usize> = match order {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
                3 => (0..n).chain((0..n).rev()).collect(),
                _ => { let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|x| (x + n - n / 2) % n); v }
            };
            // 0 the start, 1 .. n the targets, n + 1 where the k-th goes, n + 2 a helper
            let mut m = Ndfa::new();
            let mut a = Abs::new(n + 3, 2);
            let mut joins = vec![BTreeSet::new(); n + 3];
            m.create_state(n as u32 + 2);
            for (x, tgt) in list.iter().enumerate() {
                let to = *tgt as u32 + 1;
                let from = match via { 2 if x % 2 == 1 => n as u32 + 2, _ => 0 };
                if via == 1 {
                    // to the helper, which is joined to all of them
                    if x == 0 { m.add_transition(0, r[0].clone(), n as u32 + 2); a.step[0][0].insert(n as u32 + 2); }
                    m.join_states(n as u32 + 2, to); joins[n + 2].insert(to);
                } else { m.add_transition(from, r[0].clone(), to); a.step[from as usize][0].insert(to); }
            }
            if via == 2 { m.add_transition(0, r[1].clone(), n as u32 + 2); a.step[0][1].insert(n as u32 + 2); m.add_transition(0, r[1].clone(), 0); a.step[0][1].insert(0); }
            m.add_transition(k as u32 + 1, r[1].clone(), n as u32 + 1);
            a.step[k + 1][1].insert(n as u32 + 1);
            m.set_output_symbol(n as u32 + 1, 7u8); a.out[n + 1].insert(7);
            for x in 0..n { let o = if x == k { 1 } else { 10 + (x % 200) as u8 }; m.set_output_symbol(x as u32 + 1, o); a.out[x + 1].insert(o); }
            let a = a.with_joins(&joins);
            compare(m, &ax2(), &a, i, n <= 12, ctx).map_err(|e| format!("{} targets, the {}-th goes on, order {}, via {}\n{}", n, k, order, via, e))
        }));
        f.push(family("wide", format!("machines of 4 states with {:?} transitions each, as a library machine", &WIDE[..12]), 12, |i, ctx| {
            let fan = WIDE[i as usize];
            let mut m = Ndfa::new();
            for s in 0..4u32 {
                if s % 2 == 1 { m.set_output_symbol(s, s); }
                for c in (0..fan).rev() { m.add_transition(s, SymbolRange::new(3 * c + s, 3 * c + s), (s + c + 1) % 4); }
            }
            wide_probe(&DfaCompiler::build(m, SymbolRangeDfaBuilder::new()), fan, ctx)
        }));
    }
    {
        let odds = odds(t.pick(40, 120));
        f.push(family("odd-one-out", "machines with up to 240 transitions in a state or up to 1030 states in a row of which exactly one differs: in target, by being missing, in having or lacking an output; every place; listed in three orders".into(), odds.len() as u64 * 3, move |i, ctx| {
            let o = odds[i as usize / 3];
            let (m, a) = o.machine((i % 3) as u8);
            compare(m, &o.axis(), &a, i, o.n <= 20, ctx).map_err(|e| format!("{:?}\n{}", o, e.chars().take(3000).collect::<String>()))
        }));
    }
    // Machines of a given size
    {
        use mc::bigm::*;
        let v = sizes(t.pick(5003, 10007));
        let n = v.len() as u64;
        f.push(family("sizes", format!("{} kinds of machines (chains, fans, joins, rings, many states at once, many outputs, overlapping ranges) of sizes {:?} up to {}, compiled and run; kinds that grow with the square up to 301 or 1025", KINDS, SIZES, t.pick(5003, 10007)), n, move |i, ctx| {
            let (kind, n) = v[i as usize];
            let b = match big(kind, n) { Some(b) => b, None => return Ok(()) };
            let sim = Sim::new(&b.calls);
            let mut m = make(&b.calls);
            if b.overlaps { m.fix_overlapping_ranges(); }
            let dfa: SymbolRangeDfa<u32, u32> = if kind % 2 == 0 { DfaCompiler::build(m, SymbolRangeDfaBuilder::new()) } else {
                let rc: Rc<dyn StateMachine<SymbolRange<u32>, u32>> = Rc::new(m);
                DfaCompiler::build(rc, SymbolRangeDfaBuilder::new())
            };
            for s in 0..dfa.count_states() {
                let mut r: Vec<(u32, u32)> = dfa.get_transitions_for_state(s).into_iter().map(|t| (t.0.lowest, t.0.highest)).collect();
                r.sort();
                if r.windows(2).any(|w| w[0].1 >= w[1].0) { return Err(format!("{}: compiled state {} has two transitions for one symbol", b.name, s)); }
            }
            ctx.sample(|| format!("{}: {} compiled states, {} words", b.name, dfa.count_states(), b.words.len()));
            check_words(&dfa, &sim, &b.words, ctx).map_err(|e| format!("{}\n{}", b.name, e))
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C04",
        level: "model_checking",
        assumptions: vec!["machines with more states, symbols or transitions than enumerated are covered only through the 'grown' family".into()],
        families,
    })
}
