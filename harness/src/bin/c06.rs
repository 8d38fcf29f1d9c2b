//! C06: removing overlaps leaves a machine's behaviour unchanged.
use concordance::*;
use mc::engine::*;
use mc::model::Sym;
use mc::space::*;
use std::collections::BTreeSet;

type Tr = (u32, usize, usize, u32);

fn check<S: Sym>(dom: &[S], trans: &[Tr], joins: &[(u32, u32)], n: u32, ctx: &mut Ctx) -> CaseResult { check_again(dom, trans, joins, n, 0, ctx) }

/// (overlaps are also removed after the j-th transition for every bit j of `early`)
fn check_again<S: Sym>(dom: &[S], trans: &[Tr], joins: &[(u32, u32)], n: u32, early: u64, ctx: &mut Ctx) -> CaseResult {
    let mut m: Ndfa<SymbolRange<S>, u8> = Ndfa::new();
    m.create_state(n - 1);
    for (j, (f, lo, hi, t)) in trans.iter().enumerate() {
        m.add_transition(*f, SymbolRange::new(dom[*lo].clone(), dom[*hi].clone()), *t);
        if j < 64 && early >> j & 1 == 1 { m.fix_overlapping_ranges(); }
    }
    for (a, b) in joins { m.join_states(*a, *b); }
    m.set_output_symbol(n - 1, 5);
    m.set_output_symbol(0, 6);
    let show = || format!("transitions {:?}, joins {:?}, overlaps removed after the transitions {:b}", trans.iter().map(|(f, l, h, t)| (f, &dom[*l], &dom[*h], t)).collect::<Vec<_>>(), joins, early);
    let reach = |m: &Ndfa<SymbolRange<S>, u8>| -> Vec<Vec<BTreeSet<u32>>> {
        (0..n).map(|s| {
            let tr = m.get_transitions_for_state(s);
            dom.iter().map(|c| tr.iter().filter(|(r, _)| r.lowest <= *c && *c <= r.highest).map(|x| x.1).collect()).collect()
        }).collect()
    };
    // what was put in, not what the machine says it holds
    let mut want: Vec<Vec<BTreeSet<u32>>> = vec![vec![BTreeSet::new(); dom.len()]; n as usize];
    for s in 0..n {
        let mut cl = BTreeSet::new();
        let mut todo = vec![s];
        while let Some(x) = todo.pop() { if cl.insert(x) { todo.extend(joins.iter().filter(|j| j.0 == x).map(|j| j.1)); } }
        for (f, lo, hi, t) in trans { if cl.contains(f) { for c in *lo..=*hi { want[s as usize][c].insert(*t); } } }
    }
    let outs: Vec<Option<u8>> = (0..n).map(|s| m.output_symbol_for_state(s).cloned()).collect();
    for round in 0..2 {
        m.fix_overlapping_ranges();
        ctx.trace();
        if m.count_states() != n { return Err(format!("{}\nstate count changed from {} to {}", show(), n, m.count_states())); }
        let outs2: Vec<Option<u8>> = (0..n).map(|s| m.output_symbol_for_state(s).cloned()).collect();
        // a state without an own output may report any joined one; here joins never lead to two
        if outs != outs2 { return Err(format!("{}\noutputs changed from {:?} to {:?}", show(), outs, outs2)); }
        let mut all: Vec<SymbolRange<S>> = (0..n).flat_map(|s| m.get_transitions_for_state(s)).map(|x| x.0).collect();
        all.sort();
        all.dedup();
        for w in all.windows(2) {
            if w[0].highest >= w[1].lowest { return Err(format!("{}\nafter pass {}: ranges {:?} and {:?} overlap but differ", show(), round + 1, w[0], w[1])); }
        }
        for r in &all { if r.lowest > r.highest { return Err(format!("{}\nrange {:?} is reversed", show(), r)); } }
        let got = reach(&m);
        for s in 0..n as usize { for c in 0..dom.len() {
            ctx.step();
            if got[s][c] != want[s][c] {
                return Err(format!("{}\nafter pass {}: on symbol {:?} state {} reaches {:?}, expected {:?}", show(), round + 1, dom[c], s, got[s][c], want[s][c]));
            }
        } }
        ctx.state(&(all.iter().map(|r| (&r.lowest, &r.highest)).collect::<Vec<_>>(), &got));
        if round == 0 && trans.len() < 6 { ctx.outcome(&format!("{} transitions to {} ranges", trans.len(), all.len())); }
    }
    ctx.sample(|| show());
    Ok(())
}

fn small<S: Sym>(name: &str, dom: Vec<S>, k: usize, joins: bool) -> Family {
    let p = dom.len();
    let mut rs = vec![];
    for a in 0..p { for b in a..p { rs.push((a, b)); } }
    let mut pool: Vec<Tr> = vec![];
    for (f, t) in [(0u32, 1u32), (0, 2), (1, 2)] { for r in &rs { pool.push((f, r.0, r.1, t)); } }
    let mut sets = vec![];
    for j in 0..=k { sets.extend(subsets(pool.len(), j)); }
    let m = if joins { 4 } else { 1 };
    let cnt = sets.len() as u64 * m;
    family(name, format!("every library machine with at most {} transitions (0->1, 0->2, 1->2) over the {} ranges of the neighbouring symbols {:?}{}", k, rs.len(), dom, if joins { ", with joins {}, {0-1}, {1-2}, {2-0}" } else { "" }), cnt, move |i, ctx| {
        let tr: Vec<Tr> = sets[(i / m) as usize].iter().map(|j| pool[*j]).collect();
        let j: &[(u32, u32)] = [&[][..], &[(0, 1)][..], &[(1, 2)][..], &[(2, 0)][..]][(i % m) as usize];
        check(&dom, &tr, j, 3, ctx)
    })
}

fn single<S: Sym>(name: &str, dom: Vec<S>, k: usize) -> Family {
    let p = dom.len();
    let mut rs = vec![];
    for a in 0..p { for b in a..p { rs.push((a, b)); } }
    let mut sets = vec![];
    for j in 0..=k { sets.extend(subsets(rs.len(), j)); }
    let cnt = sets.len() as u64 * 2;
    family(name, format!("every set of at most {} of the {} ranges of the neighbouring symbols {:?} on one state, each to its own state, in ascending or descending order", k, rs.len(), dom), cnt, move |i, ctx| {
        let set = &sets[i as usize / 2];
        let mut tr: Vec<Tr> = set.iter().enumerate().map(|(q, j)| (0, rs[*j].0, rs[*j].1, q as u32 + 1)).collect();
        if i % 2 == 1 { tr.reverse(); }
        check(&dom, &tr, &[], set.len() as u32 + 1, ctx)
    })
}

/// The same at every place where a narrower representation of the symbols ends
fn windows<S: Sym>(name: &str, w: Vec<Vec<S>>) -> Family {
    let mut rs = vec![];
    for a in 0..4usize { for b in a..4 { rs.push((a, b)); } }
    let mut sets = vec![];
    for j in 0..=4 { sets.extend(subsets(10, j)); }
    let n = sets.len() as u64 * 2;
    family(name, format!("every set of at most 4 of the 10 ranges over four neighbouring symbols around each of {} places (zero, powers of two and their negatives, the ends of the type), on one state or on two in turn, each to its own state", w.len()), w.len() as u64 * n, move |i, ctx| {
        let set = &sets[(i % n / 2) as usize];
        let tr: Vec<Tr> = set.iter().enumerate().map(|(q, j)| (if i % 2 == 1 { q as u32 % 2 } else { 0 }, rs[*j].0, rs[*j].1, q as u32 + 1)).collect();
        check(&w[(i / n) as usize], &tr, &[], set.len().max(1) as u32 + 1, ctx)
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(small("three-states-low", vec![0u8, 1, 2, 3, 4], t.pick(4, 5), true));
    f.push(small("three-states-high", vec![251u8, 252, 253, 254, 255], t.pick(3, 4), false));
    f.push(small("three-states-char-gap", vec!['\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}'], t.pick(3, 4), false));
    f.push(small("three-states-char-ends", vec!['\0', '\u{1}', '\u{2}', '\u{3}'], t.pick(3, 3), false));
    f.push(small("three-states-char-top", vec!['\u{10fffd}', '\u{10fffe}', '\u{10ffff}'], t.pick(3, 4), false));
    f.push(small("three-states-i8", vec![-128i8, -127, -126], 3, false));
    f.push(small("three-states-i8-zero", vec![-2i8, -1, 0, 1], 3, false));
    f.push(single("one-state-low", vec![0u8, 1, 2, 3, 4, 5], t.pick(6, 8)));
    f.push(single("one-state-high", vec![250u8, 251, 252, 253, 254, 255], t.pick(5, 6)));
    f.push(single("one-state-i64-high", vec![i64::MAX - 4, i64::MAX - 3, i64::MAX - 2, i64::MAX - 1, i64::MAX], t.pick(5, 6)));
    f.push(single("one-state-usize-low", vec![0usize, 1, 2, 3, 4], t.pick(5, 6)));
    f.push(single("one-state-u16-high", vec![65531u16, 65532, 65533, 65534, 65535], t.pick(4, 6)));
    f.push(single("one-state-u32-high", vec![u32::MAX - 3, u32::MAX - 2, u32::MAX - 1, u32::MAX], t.pick(4, 6)));
    f.push(single("one-state-i16-low", vec![-32768i16, -32767, -32766, -32765], t.pick(4, 6)));
    f.push(single("one-state-i32-low", vec![i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MIN + 3], t.pick(4, 6)));
    f.push(single("one-state-u64-high", vec![u64::MAX - 3, u64::MAX - 2, u64::MAX - 1, u64::MAX], t.pick(4, 6)));
    f.push(single("one-state-isize-high", vec![isize::MAX - 3, isize::MAX - 2, isize::MAX - 1, isize::MAX], t.pick(4, 6)));
    f.push(single("one-state-wide-middle", vec![100u16, 101, 102, 103, 104, 105, 106], t.pick(4, 5)));
    mc::every_window!(windows, f);
    {
        let dom = vec!['a', 'b', 'c', 'd', 'e'];
        let mut rs = vec![];
        for a in 0..5 { for b in a..5 { rs.push((a, b)); } }
        let k = t.pick(4usize, 5);
        f.push(family("removed-again", format!("every sequence of {} of the 15 ranges of 5 neighbouring symbols, added to one state or to the states of a chain, with overlaps removed after each (or after every second) addition and at the end", k), 15u64.pow(k as u32) * 3, move |i, ctx| {
            let s = seq(i / 3, 15, k);
            let tr: Vec<Tr> = s.iter().enumerate().map(|(q, j)| (if i % 3 == 1 { q as u32 } else { 0 }, rs[*j].0, rs[*j].1, q as u32 + 1)).collect();
            check_again(&dom, &tr, &[], k as u32 + 1, if i % 3 == 2 { 0b01010 } else { 0b11111 }, ctx)
        }));
    }
    // Overlaps removed in the middle of building a machine: whatever is added afterwards, wherever it is added
    for (name, dom, k) in [("added-between", vec!['a', 'b', 'c'], 4usize), ("added-between-wider", vec!['a', 'b', 'c', 'd'], t.pick(3, 4)), ("added-between-longer", vec!['a', 'b'], t.pick(5, 6))] {
        let mut rs = vec![];
        for a in 0..dom.len() { for b in a..dom.len() { rs.push((a, b)); } }
        let n = rs.len() as u64 * 3;
        let masks = 1u64 << (k - 1);
        f.push(family(name, format!("every sequence of {} transitions, each from any of three states on one of the {} ranges of the neighbouring symbols {:?}, with overlaps removed after every choice of them and at the end; the same with a join made in the end", k, rs.len(), dom), n.pow(k as u32) * masks, move |i, ctx| {
            let s = seq(i / masks, n, k);
            let tr: Vec<Tr> = s.iter().enumerate().map(|(q, j)| ((*j % 3) as u32, rs[*j / 3].0, rs[*j / 3].1, q as u32 % 3)).collect();
            check_again(&dom, &tr, if i % 5 == 0 { &[(1, 2)] } else { &[] }, 3, i % masks, ctx)
        }));
    }
    f.push(family("many-ranges", "machines of up to 120 states and transitions over 200 symbols: nested, staircase, comb, equal, mixed arrangements".into(), 120 * 6, |i, ctx| {
        let n = (i / 6) as usize + 1;
        let dom: Vec<u8> = (0..200).collect();
        let tr: Vec<Tr> = (0..n).map(|j| {
            let (lo, hi) = match i % 6 {
                0 => (j / 2, 199 - j / 2),
                1 => (j, j + 30),
                2 => (if j == 0 { 0 } else { j * 3 % 190 }, if j == 0 { 199 } else { j * 3 % 190 + 1 }),
                3 => (10, 20 + j),
                4 => ((j * 37) % 100, 100 + (j * 53) % 100),
                _ => (j % 7 * 10, j % 7 * 10 + j % 5),
            };
            ((j % 4) as u32, lo, hi, (j + 1) as u32)
        }).collect();
        check(&dom, &tr, &[], n.max(4) as u32 + 1, ctx)
    }));
    // One wide range over n small ones: the pieces of each, with every kind of target
    {
        let max = t.pick(40u64, 100);
        f.push(family("pieces", format!("a range over n single symbols (n up to {}), on the first or the last state, to itself, the first, the next or the last state; the single ones on the same or another state, to one or to many states, every other one or all, before or after the wide one", max), max * 2 * 4 * 8, move |i, ctx| {
            let d = digits(i, &[2, 2, 2, 4, 2, max]);
            let n = d[5] as usize + 1;
            let dom: Vec<u8> = (20..20 + n as u8 + 4).collect();
            let top = n as u32 + 3;
            let from = if d[4] == 0 { 0 } else { top - 1 };
            let to = [from, 0, 1, top][d[3] as usize];
            let mut tr: Vec<Tr> = (0..n).step_by(d[1] as usize + 1).map(|c| (if d[0] == 0 { from } else { 2 }, c + 1, c + 1, if d[2] == 0 { 1 } else { c as u32 + 2 })).collect();
            let wide = (from, 1, n + 1, to);
            if i % 3 == 0 { tr.push(wide) } else { tr.insert(0, wide) }
            check(&dom, &tr, &[], top + 1, ctx)
        }));
    }
    // Machines of a given size
    {
        use mc::bigm::*;
        let v = sizes(t.pick(1025, 5003));
        let n = v.len() as u64 * 2;
        f.push(family("sizes", format!("{} kinds of machines of sizes {:?} up to {}, built by their calls in order and reversed: what the states at the ends, in the middle and next to powers of two reach", KINDS, SIZES, t.pick(1025, 5003)), n, move |i, ctx| {
            let (kind, n) = v[(i / 2) as usize];
            let b = match big(kind, n) { Some(b) => b, None => return Ok(()) };
            let sim = Sim::new(&b.calls);
            let mut m = make(&ordered(&b.calls, i as usize % 2));
            let (states, syms) = places(&b, &sim);
            for round in 0..2 {
                m.fix_overlapping_ranges();
                ctx.trace();
                if m.count_states() != sim.states { return Err(format!("{}: {} states, expected {}", b.name, m.count_states(), sim.states)); }
                let mut all: BTreeSet<(u32, u32)> = BTreeSet::new();
                for s in 0..sim.states {
                    // joined states bring the ranges of others, which are looked at on their own
                    if kind == 4 && s % 16 != 0 { continue; }
                    all.extend(m.get_transitions_for_state(s).into_iter().map(|t| (t.0.lowest, t.0.highest)));
                }
                let all: Vec<(u32, u32)> = all.into_iter().collect();
                for w in all.windows(2) { if w[0].1 >= w[1].0 { return Err(format!("{}: after pass {} ranges {:?} and {:?} overlap but differ", b.name, round + 1, w[0], w[1])); } }
                for s in &states {
                    let real = m.get_transitions_for_state(*s);
                    let want = sim.all(*s);
                    for x in &syms {
                        ctx.step();
                        let got: BTreeSet<u32> = real.iter().filter(|t| t.0.lowest <= *x && *x <= t.0.highest).map(|t| t.1).collect();
                        let exp: BTreeSet<u32> = want.iter().filter(|t| t.0 <= *x && *x <= t.1).map(|t| t.2).collect();
                        if got != exp { return Err(format!("{}: after pass {} state {} reaches {} states on {}, expected {}", b.name, round + 1, s, got.len(), x, exp.len())); }
                    }
                    let outs: BTreeSet<u32> = m.output_symbols_for_state(*s).into_iter().cloned().collect();
                    if outs != sim.outputs(&[*s]) { return Err(format!("{}: outputs of state {} changed", b.name, s)); }
                }
                ctx.state(&(all.len(), sim.states));
            }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C06",
        level: "model_checking",
        assumptions: vec!["range ends are neighbouring symbols of the type, so that every symbol near a boundary is examined; sets of more ranges than stated are covered by the many-ranges family".into()],
        families,
    })
}
