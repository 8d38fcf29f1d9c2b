//! C03: compiled behaviour ignores the order transitions are listed or added.
use concordance::*;
use mc::engine::*;
use mc::machine::*;
use mc::model::*;
use mc::space::*;
use std::collections::BTreeSet;

type M = Listed<SymbolRange<u8>, u8>;

/// Behaviour of the compiled machine against subset simulation of the abstract one
fn compare(m: M, axis: &Axis<u8>, a: &Abs<u8>, tag: u64, ctx: &mut Ctx) -> CaseResult {
    let show = format!("{:?}", m);
    let dfa: SymbolRangeDfa<u8, u8> = DfaCompiler::build(m, SymbolRangeDfaBuilder::new());
    ctx.trace();
    let t = range_table(&dfa, axis).map_err(|e| format!("{}\n{}", show, e))?;
    subset_product(&t, a, tag, ctx).map_err(|e| format!("{}\n{}", show, e))?;
    if ctx.traces % 64 == 1 { ctx.outcome(&format!("{} states", t.next.len())); }
    Ok(())
}

fn ranges() -> [SymbolRange<u8>; 2] {
    [SymbolRange::new(0, 9), SymbolRange::new(10, 255)]
}

fn axis() -> Axis<u8> {
    Axis::new(vec![0, 10])
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    // Many sets of states: where one state's transitions are listed in another order, the sets are met in another order
    {
        let len = t.pick(6u32, 8);
        f.push(family("windows", format!("every word of 1 to {} labels (a, b, either) followed after any beginning, with states numbered up or down, an output on the last state or on every other one: the lists of all states in every order, forwards or backwards", len), string_count(3, len) * 24, move |i, ctx| {
            let w = string(3, i / 24);
            if w.is_empty() { return Ok(()); }
            let n = w.len() + 1;
            let d = digits(i % 24, &[6, 2, 2]);
            let num = |k: usize| if d[1] == 0 { k } else { (n - k) % n };
            let mut a = Abs::new(n, 2);
            let mut per: Vec<Vec<(usize, u32)>> = vec![vec![]; n];
            let mut out = vec![None; n];
            for k in 0..n {
                let mut l: Vec<(usize, u32)> = vec![];
                if k == 0 { l.push((0, 0)); l.push((1, 0)); }
                if k < n - 1 { for c in 0..2 { if w[k] == 2 || w[k] as usize == c { l.push((c, num(k + 1) as u32)); } } }
                for (c, t) in &l { a.step[num(k)][*c].insert(*t); }
                let p = d[0];
                let l = if l.len() == 3 { permutation(3, p).into_iter().map(|j| l[j]).collect() } else { if p % 2 == 1 { l.reverse(); } if p >= 3 && l.len() > 1 { l.rotate_left(1); } l };
                per[num(k)] = l;
                if k == n - 1 || d[2] == 1 && k % 2 == 1 { a.out[num(k)].insert(k as u8); out[num(k)] = Some(k as u8); }
            }
            let r = ranges();
            compare(M { trans: per.iter().map(|l| l.iter().map(|(c, t)| (r[*c].clone(), *t)).collect()).collect(), out }, &axis(), &a, fp(&(&w, d[1], d[2])), ctx)
        }));
    }
    // Listing orders
    {
        let n = 3usize;
        let pool = n * 2 * n;
        let mut sets = vec![];
        for k in 0..=t.pick(4, 5) { sets.extend(subsets(pool, k)); }
        let outs = 27u64;
        let cnt = sets.len() as u64 * outs;
        f.push(family("listing", format!("every machine of 3 states over 2 symbols with at most {} transitions and any outputs from {{none,0,1}}; every permutation of every state's transition list, every transition listed twice at every position", t.pick(4, 5)), cnt, move |i, ctx| {
            let set = &sets[(i / outs) as usize];
            let o = digits(i % outs, &[3, 3, 3]);
            let out: Vec<Option<u8>> = o.iter().map(|x| if *x == 0 { None } else { Some(*x as u8 - 1) }).collect();
            let mut a = Abs::new(n, 2);
            let mut per: Vec<Vec<(usize, u32)>> = vec![vec![]; n];
            for x in set {
                let (from, c, to) = (x / (2 * n), x / n % 2, x % n);
                a.step[from][c].insert(to as u32);
                per[from].push((c, to as u32));
            }
            for s in 0..n { if let Some(x) = out[s] { a.out[s].insert(x); } }
            let r = ranges();
            let tag = fp(&(set, &out));
            let make = |per: &Vec<Vec<(usize, u32)>>| M { trans: per.iter().map(|l| l.iter().map(|(c, t)| (r[*c].clone(), *t)).collect()).collect(), out: out.clone() };
            // all combinations of permutations of the three lists
            let fac: Vec<u64> = per.iter().map(|l| factorial(l.len() as u64)).collect();
            for p in 0..fac.iter().product::<u64>() {
                let d = digits(p, &fac);
                let q: Vec<Vec<(usize, u32)>> = (0..n).map(|s| permutation(per[s].len(), d[s]).into_iter().map(|j| per[s][j]).collect()).collect();
                compare(make(&q), &axis(), &a, tag, ctx)?;
            }
            // duplicates
            for s in 0..n {
                for j in 0..per[s].len() {
                    for pos in 0..=per[s].len() {
                        let mut q = per.clone();
                        let x = q[s][j];
                        q[s].insert(pos, x);
                        compare(make(&q), &axis(), &a, tag, ctx)?;
                    }
                }
            }
            ctx.sample(|| format!("{:?}: {} listings", make(&per), fac.iter().product::<u64>()));
            Ok(())
        }));
    }
    // Construction orders of the library's own machine
    {
        #[derive(Clone, Copy, Debug)]
        enum Call { T(u32, u8, u8, u32), J(u32, u32), O(u32, u8) }
        let mut pool = vec![];
        for s in 0..3u32 { for t in 0..3u32 { for (lo, hi) in [(0u8, 4u8), (3, 9)] { pool.push(Call::T(s, lo, hi, t)); } } }
        for s in 0..3u32 { for t in 0..3u32 { pool.push(Call::J(s, t)); } }
        for s in 0..3u32 { for o in 0..2u8 { pool.push(Call::O(s, o)); } }
        let mut sets: Vec<Vec<usize>> = vec![];
        for k in 1..=t.pick(4, 5) { sets.extend(subsets(pool.len(), k)); }
        // two different outputs for one state are not the same machine in both orders
        sets.retain(|s| {
            let os: Vec<u32> = s.iter().filter_map(|i| if let Call::O(x, _) = pool[*i] { Some(x) } else { None }).collect();
            let u: BTreeSet<u32> = os.iter().cloned().collect();
            u.len() == os.len()
        });
        let cnt = sets.len() as u64;
        f.push(family("construction", format!("every set of at most {} calls (18 transitions over two overlapping ranges, 9 joins, 6 outputs) on 3 states, in every order, and with each call made twice", t.pick(4, 5)), cnt, move |i, ctx| {
            let set = &sets[i as usize];
            let axis = Axis::new(vec![0u8, 3, 5]);
            let mut a = Abs::new(3, 3);
            let mut joins = vec![BTreeSet::new(); 3];
            for x in set {
                match pool[*x] {
                    Call::T(s, lo, _, t) => { for c in if lo == 0 { [0, 1] } else { [1, 2] } { a.step[s as usize][c].insert(t); } }
                    Call::J(s, t) => { joins[s as usize].insert(t); }
                    Call::O(s, o) => { a.out[s as usize].insert(o); }
                }
            }
            let a = a.with_joins(&joins);
            let tag = fp(&(1u8, set));
            let mut orders: Vec<Vec<usize>> = permutations(set.len()).into_iter().map(|p| p.into_iter().map(|j| set[j]).collect()).collect();
            for j in 0..set.len() { let mut v = set.clone(); v.push(set[j]); orders.push(v.clone()); v.rotate_right(1); orders.push(v); }
            for o in orders {
                let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
                n.create_state(2);
                for x in &o {
                    match pool[*x] {
                        Call::T(s, lo, hi, t) => n.add_transition(s, SymbolRange::new(lo, hi), t),
                        Call::J(s, t) => n.join_states(s, t),
                        Call::O(s, v) => n.set_output_symbol(s, v),
                    }
                }
                n.fix_overlapping_ranges();
                ctx.trace();
                let fail = |e: String| format!("calls {:?}\n{}", o.iter().map(|x| pool[*x]).collect::<Vec<_>>(), e);
                let dfa: SymbolRangeDfa<u8, u8> = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
                let t = range_table(&dfa, &axis).map_err(&fail)?;
                let acc = subset_product(&t, &a, tag, ctx).map_err(&fail)?;
                if ctx.want_sample { ctx.sample(|| format!("all orders of {:?}", o.iter().map(|x| pool[*x]).collect::<Vec<_>>())); }
                for w in acc.iter().take(6) {
                    let real = mc::product::run_real(&dfa, &axis.string(w)).map_err(&fail)?;
                    let want = a.longest(w);
                    if real != want { return Err(fail(format!("input {:?}: {:?}, expected {:?}", axis.string(w), real, want))); }
                }
            }
            Ok(())
        }));
    }
    // Long lists
    {
        let sizes: Vec<usize> = vec![5, 16, 21, 33, 64, 100, 200, 256];
        let per = 12u64;
        let n = sizes.len() as u64;
        f.push(family("long-listing", "one state with up to 256 single-symbol transitions (each to two of three states), listed ascending, descending, rotated, interleaved and with every transition repeated".into(), n * per, move |i, ctx| {
            let k = sizes[(i / per) as usize];
            let how = (i % per) as usize;
            let mut list: Vec<(SymbolRange<u8>, u32)> = vec![];
            let mut a = Abs::new(4, k);
            for c in 0..k {
                for t in [1 + (c % 3) as u32, 1 + (c / 3 % 3) as u32] {
                    a.step[0][c].insert(t);
                    list.push((SymbolRange::new(c as u8, c as u8), t));
                }
            }
            a.step[1][0].insert(0);
            let m = list.len();
            match how {
                0 => {}
                1 => list.reverse(),
                2 => list.rotate_left(m / 2),
                3 => list.rotate_left(1),
                4 => list.rotate_right(1),
                5 => { let c = list.clone(); list.extend(c); }
                6 => { list = list.iter().flat_map(|x| vec![x.clone(), x.clone()]).collect(); }
                7 => { let (e, o): (Vec<_>, Vec<_>) = list.iter().cloned().enumerate().partition(|(j, _)| j % 2 == 0); list = e.into_iter().chain(o.into_iter().rev()).map(|x| x.1).collect(); }
                _ => { let step = [7, 11, 13, 17][how - 8]; let mut s = step; while gcd(s, m) != 1 { s += 1; } list = (0..m).map(|j| list[(j * s) % m].clone()).collect(); }
            }
            for s in 1..4usize { a.out[s].insert(s as u8); }
            let m = M { trans: vec![list, vec![(SymbolRange::new(0, 0), 0)], vec![], vec![]], out: vec![None, Some(1), Some(2), Some(3)] };
            compare(m, &Axis::new((0..k.min(249)).map(|x| x as u8).collect()), &{ let mut b = a; b.k = k.min(249); b }, i + 1, ctx)
        }));
    }
    // Machines of a given size
    {
        use mc::bigm::*;
        let v = sizes(t.pick(1025, 5003));
        let per = 6u64;
        let n = v.len() as u64 * per;
        f.push(family("sizes", format!("{} kinds of machines of sizes {:?} up to {}, built by their calls reversed, rotated, shuffled, sorted, made twice over and each made twice in a row, compiled and run", KINDS, SIZES, t.pick(1025, 5003)), n, move |i, ctx| {
            let (kind, n) = v[(i / per) as usize];
            let b = match big(kind, n) { Some(b) => b, None => return Ok(()) };
            let how = (i % per) as usize + 1;
            let mut m = make(&ordered(&b.calls, how));
            if b.overlaps { m.fix_overlapping_ranges(); }
            let dfa: SymbolRangeDfa<u32, u32> = DfaCompiler::build(m, SymbolRangeDfaBuilder::new());
            check_words(&dfa, &Sim::new(&b.calls), &b.words, ctx).map_err(|e| format!("{}, calls in order {}\n{}", b.name, how, e))
        }));
    }
    f
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn main() {
    mc::engine::main(Check {
        property: "C03",
        level: "model_checking",
        assumptions: vec!["behaviour of a compiled machine is read through its public transition table; the table is bound to the running matcher by C04 and by the strings executed here".into()],
        families,
    })
}
