//! C11: the compiler drives any DFA builder within its contract.
use concordance::*;
use mc::engine::*;
use mc::machine::*;
use mc::space::*;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

/// Checks a recorded build: the order of calls, then the machine it describes. `letters` are
/// representative points, `has` tells whether a transition symbol contains a point, `before`
/// whether one transition symbol lies wholly below another.
fn contract<I: Clone + Debug, L: Debug>(
    ev: &[Ev<I, u8>], letters: &[L], has: &dyn Fn(&I, &L) -> bool, before: &dyn Fn(&I, &I) -> bool, a: &Abs<u8>, tag: u64, ctx: &mut Ctx,
) -> CaseResult {
    let starts = ev.iter().filter(|e| matches!(e, Ev::Start)).count();
    let mut t: Table<u8> = Table { next: vec![], out: vec![] };
    let mut last: Option<I> = None;
    for (i, e) in ev.iter().enumerate() {
        ctx.step();
        match e {
            Ev::Start => {
                t.next.push(vec![None; letters.len()]);
                t.out.push(None);
                last = None;
            }
            Ev::Accept(o) => match t.out.last_mut() {
                None => return Err(format!("call {}: an output is set before any state is started; calls {:?}", i, ev)),
                Some(Some(p)) => return Err(format!("call {}: the output of state {} is set a second time ({} then {}); calls {:?}", i, t.next.len() - 1, p, o, ev)),
                Some(x) => *x = Some(*o),
            },
            Ev::Transition(s, to) => {
                if t.next.is_empty() { return Err(format!("call {}: a transition before any state is started; calls {:?}", i, ev)); }
                if *to as usize >= starts { return Err(format!("call {}: a transition to state {}, but only {} states are started; calls {:?}", i, to, starts, ev)); }
                if let Some(ref l) = last {
                    if !before(l, s) { return Err(format!("call {}: transition {:?} given after {:?} in one state; calls {:?}", i, s, l, ev)); }
                }
                last = Some(s.clone());
                for (c, l) in letters.iter().enumerate() {
                    if has(s, l) { t.next.last_mut().unwrap()[c] = Some(*to); }
                }
            }
        }
    }
    ctx.trace();
    let acc = subset_product(&t, a, tag, ctx).map_err(|e| format!("{}; calls {:?}", e, ev))?;
    ctx.outcome(&format!("{} states, {} calls", starts, ev.len()));
    ctx.sample(|| format!("{} calls, {} pairs: {:?}", ev.len(), acc.len(), ev));
    Ok(())
}

fn plain<I: Ord + Clone + Debug + Hash, M: StateMachine<I, u8>>(m: M, via_new: bool, syms: &[I], a: &Abs<u8>, tag: u64, ctx: &mut Ctx) -> CaseResult {
    let ev = if via_new { DfaCompiler::new(m, Recorder::new()).compile() } else { DfaCompiler::build(m, Recorder::new()) };
    contract(&ev, syms, &|s, l| s == l, &|x, y| x < y, a, tag, ctx)
}

fn ranged<M: StateMachine<SymbolRange<u8>, u8>>(m: M, via_new: bool, letters: &[u8], a: &Abs<u8>, tag: u64, ctx: &mut Ctx) -> CaseResult {
    let ev = if via_new { DfaCompiler::new(m, Recorder::new()).compile() } else { DfaCompiler::build(m, Recorder::new()) };
    contract(&ev, letters, &|s, l| s.lowest <= *l && *l <= s.highest, &|x, y| x.highest < y.lowest, a, tag, ctx)
}

/// rel[s][c] = bitmask of targets. `desc`: transitions listed in descending order of symbols and targets
fn from_rel<I: Clone>(rel: &[Vec<u32>], out: &[Option<u8>], syms: &[I], desc: bool) -> (Listed<I, u8>, Abs<u8>) {
    let (n, k) = (rel.len(), rel[0].len());
    let mut a = Abs::new(n, k);
    let mut m = Listed { trans: vec![vec![]; n], out: out.to_vec() };
    for s in 0..n {
        for c in 0..k {
            for t in 0..n as u32 {
                if rel[s][c] >> t & 1 == 1 {
                    a.step[s][c].insert(t);
                    m.trans[s].push((syms[c].clone(), t));
                }
            }
        }
        if desc { m.trans[s].reverse(); }
        if let Some(o) = out[s] { a.out[s].insert(o); }
    }
    (m, a)
}

fn outs(mut i: u64, n: usize) -> Vec<Option<u8>> {
    (0..n).map(|_| { let d = i % 3; i /= 3; if d == 0 { None } else { Some(d as u8 - 1) } }).collect()
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    fn rel2(i: u64) -> Vec<Vec<u32>> {
        let d = digits(i, &[4; 4]);
        (0..2).map(|s| (0..2).map(|c| d[s * 2 + c] as u32).collect()).collect()
    }
    fn rel3(i: u64) -> Vec<Vec<u32>> {
        let d = digits(i, &[8; 6]);
        (0..3).map(|s| (0..2).map(|c| d[s * 2 + c] as u32).collect()).collect()
    }
    // plain symbols of several kinds
    f.push(family("plain-u8", "every machine of 2 states over the symbols 3 and 200, every output assignment from {none,0,1}, ascending and descending listing, DfaCompiler::build and new/compile".into(), 256 * 9 * 4, |i, ctx| {
        let (m, a) = from_rel(&rel2(i / 36), &outs(i / 4 % 9, 2), &[3u8, 200], i % 4 >= 2);
        let m2 = m.clone();
        plain(m, i % 2 == 1, &[3u8, 200], &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    f.push(family("plain-str", "the same over the strings \"\" and \"ab\" as symbols".into(), 256 * 9 * 2, |i, ctx| {
        let syms = ["".to_string(), "ab".to_string()];
        let (m, a) = from_rel(&rel2(i / 18), &outs(i / 2 % 9, 2), &syms, i % 2 == 1);
        let m2 = m.clone();
        plain(m, false, &syms, &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    f.push(family("plain-f-order", "the same over pairs whose order is reversed (Reverse)".into(), 256 * 9 * 2, |i, ctx| {
        use std::cmp::Reverse;
        let syms = [Reverse(7i8), Reverse(-7i8)];
        let (m, a) = from_rel(&rel2(i / 18), &outs(i / 2 % 9, 2), &syms, i % 2 == 1);
        let m2 = m.clone();
        plain(m, false, &syms, &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    f.push(family("ranges-2", "every machine of 2 states over the ranges 0-9 and 10-255, every output assignment, both listings, both entry points; also owned by Rc".into(), 256 * 9 * 4, |i, ctx| {
        let r = [SymbolRange::new(0u8, 9), SymbolRange::new(10, 255)];
        let (m, a) = from_rel(&rel2(i / 36), &outs(i / 4 % 9, 2), &r, i % 4 >= 2);
        let m2 = m.clone();
        if i % 4 == 3 {
            let rc: Rc<dyn StateMachine<SymbolRange<u8>, u8>> = Rc::new(m);
            return ranged(rc, true, &[9u8, 10], &a, i, ctx).map_err(|e| format!("Rc of {:?}\n{}", m2, e));
        }
        ranged(m, i % 2 == 1, &[9u8, 10], &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    let os: Vec<u64> = t.pick(vec![9, 21, 7, 14], (0..27).collect());
    let k = os.len() as u64;
    let os2 = os.clone();
    f.push(family("plain-3", format!("every transition relation of 3 states over 2 plain symbols (8^6) x {} output assignments", k), 262144 * k, move |i, ctx| {
        let (m, a) = from_rel(&rel3(i / k), &outs(os[(i % k) as usize], 3), &[3u8, 4], i / k % 2 == 1);
        let m2 = m.clone();
        plain(m, i % 2 == 1, &[3u8, 4], &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    let os = os2;
    f.push(family("ranges-3", format!("the same over the ranges 0-9 and 20-255 x {} output assignments", k), 262144 * k, move |i, ctx| {
        let r = [SymbolRange::new(0u8, 9), SymbolRange::new(20, 255)];
        let (m, a) = from_rel(&rel3(i / k), &outs(os[(i % k) as usize], 3), &r, i / k % 2 == 0);
        let m2 = m.clone();
        ranged(m, i % 2 == 1, &[0u8, 255], &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    // many symbols per state
    f.push(family("plain-4x1", "every transition relation of 4 states over one symbol (16^4), 27 output assignments".into(), 65536 * 27, |i, ctx| {
        let d = digits(i / 27, &[16; 4]);
        let rel: Vec<Vec<u32>> = (0..4).map(|s| vec![d[s] as u32]).collect();
        let (m, a) = from_rel(&rel, &outs((i % 27) * 3 + 1, 4), &[9u8], i % 2 == 1);
        let m2 = m.clone();
        plain(m, i % 2 == 1, &[9u8], &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    f.push(family("plain-2x4", "every transition relation of 2 states over 4 symbols (4^8), 9 output assignments".into(), 65536 * 9, |i, ctx| {
        let d = digits(i / 9, &[4; 8]);
        let syms = [0u8, 1, 128, 255];
        let rel: Vec<Vec<u32>> = (0..2).map(|s| (0..4).map(|c| d[s * 4 + c] as u32).collect()).collect();
        let (m, a) = from_rel(&rel, &outs(i % 9, 2), &syms, i % 2 == 1);
        let m2 = m.clone();
        plain(m, false, &syms, &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    // listing orders and repeats of one state's transitions
    f.push(family("listings", "4 transitions (3 symbols, one of them twice) of one state listed in all 24 orders, each optionally repeated once at the end (5 choices), over every choice of 2 states as targets (2^4)".into(), 24 * 5 * 16, |i, ctx| {
        let d = digits(i, &[24, 5, 16]);
        let syms = [5u8, 6, 9];
        let all = [0usize, 1, 2, 1];
        let mut a = Abs::new(3, 3);
        let mut m = Listed { trans: vec![vec![]; 3], out: vec![None, Some(1), Some(0)] };
        a.out[1].insert(1);
        a.out[2].insert(0);
        let mut l = vec![];
        for x in permutation(4, d[0]) {
            let to = 1 + (d[2] >> x & 1) as u32;
            a.step[0][all[x]].insert(to);
            l.push((syms[all[x]], to));
        }
        if d[1] > 0 { let x = l[d[1] as usize - 1]; l.push(x); }
        m.trans[0] = l;
        let m2 = m.clone();
        plain(m, false, &syms, &a, i, ctx).map_err(|e| format!("{:?}\n{}", m2, e))
    }));
    // library machines with joins
    {
        let mut sets = vec![];
        for k in 0..=t.pick(2, 3) { sets.extend(subsets(18, k)); }
        let ns = sets.len() as u64;
        f.push(family("ndfa-joins", format!("every library machine of 3 states over 2 plain symbols with at most {} transitions, every join relation (2^6), every output assignment", t.pick(2, 3)), ns * 64 * 27, move |i, ctx| {
            let d = digits(i, &[27, 64, ns]);
            let syms = [1u8, 77];
            let out = outs(d[0], 3);
            let mut a = Abs::new(3, 2);
            let mut joins = vec![BTreeSet::new(); 3];
            let mut n: Ndfa<u8, u8> = Ndfa::new();
            n.create_state(2);
            for x in &sets[d[2] as usize] {
                a.step[x / 6][x / 3 % 2].insert((x % 3) as u32);
                n.add_transition((x / 6) as u32, syms[x / 3 % 2], (x % 3) as u32);
            }
            for (b, (x, y)) in [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)].iter().enumerate() {
                if d[1] >> b & 1 == 1 { joins[*x as usize].insert(*y as u32); n.join_states(*x, *y); }
            }
            for s in 0..3 { if let Some(o) = out[s] { a.out[s].insert(o); n.set_output_symbol(s as u32, o); } }
            let a = a.with_joins(&joins);
            plain(n, i % 2 == 1, &syms, &a, i, ctx).map_err(|e| format!("transitions {:?} (from*6+symbol*3+to), joins {:?}, outputs {:?}\n{}", sets[d[2] as usize], joins, out, e))
        }));
    }
    f.push(family("grown", "rings of up to 3000 states, fans of up to 250 symbols, 'n-th from the end' up to n = 9".into(), 12 + 12 + 9, |i, ctx| {
        if i < 12 {
            let n = [1usize, 2, 3, 5, 100, 127, 129, 255, 256, 257, 1000, 3000][i as usize];
            let rel: Vec<(usize, usize)> = (0..n).map(|s| ((s + 1) % n, (s * 5 + 3) % n)).collect();
            let mut a = Abs::new(n, 2);
            let mut m = Listed { trans: vec![vec![]; n], out: vec![None; n] };
            for s in 0..n {
                m.trans[s] = vec![(9u8, rel[s].1 as u32), (4u8, rel[s].0 as u32)];
                a.step[s][0].insert(rel[s].0 as u32);
                a.step[s][1].insert(rel[s].1 as u32);
                if s % 3 == 1 { m.out[s] = Some((s % 11) as u8); a.out[s].insert((s % 11) as u8); }
            }
            return plain(m, false, &[4u8, 9], &a, i, ctx).map_err(|e| format!("ring of {}: {}", n, &e[..e.len().min(2000)]));
        }
        if i < 24 {
            let fan = [1usize, 2, 7, 8, 9, 31, 33, 64, 100, 128, 200, 250][(i - 12) as usize];
            let syms: Vec<u8> = (0..fan as u8).collect();
            let mut a = Abs::new(4, fan);
            let mut m = Listed { trans: vec![vec![]; 4], out: vec![None, Some(2), Some(1), None] };
            a.out[1].insert(2);
            a.out[2].insert(1);
            for s in 0..4usize {
                for c in 0..fan {
                    let c = (c * 7 + 3) % fan;
                    for to in [(s + c) % 4, (s * c + 1) % 4] { a.step[s][c].insert(to as u32); m.trans[s].push((c as u8, to as u32)); }
                }
            }
            return plain(m, true, &syms, &a, i, ctx).map_err(|e| format!("fan of {}: {}", fan, &e[..e.len().min(2000)]));
        }
        let n = (i - 23) as usize;
        let rel: Vec<Vec<u32>> = (0..n + 2).map(|s| if s == 0 { vec![3, 1] } else if s == n + 1 { vec![0, 0] } else { vec![1 << (s + 1); 2] }).collect();
        let mut out = vec![None; n + 2];
        out[n + 1] = Some(3);
        out[n] = Some(7);
        let (m, a) = from_rel(&rel, &out, &[1u8, 2], false);
        plain(m, false, &[1u8, 2], &a, i, ctx).map_err(|e| format!("n-th from the end, n = {}: {}", n, &e[..e.len().min(2000)]))
    }));
    {
        let odds = odds(t.pick(40, 120));
        f.push(family("odd-one-out", "machines with up to 240 transitions in a state or up to 1030 states in a row of which exactly one differs: in target, by being missing, in having or lacking an output; every place; listed in three orders".into(), odds.len() as u64 * 3, move |i, ctx| {
            let o = odds[i as usize / 3];
            let (m, a) = o.machine((i % 3) as u8);
            let ev = DfaCompiler::build(m, Recorder::new());
            contract(&ev, &o.axis().syms, &|s: &SymbolRange<u16>, l: &u16| s.lowest <= *l && *l <= s.highest, &|x, y| x.highest < y.lowest, &a, i, ctx).map_err(|e| format!("{:?}\n{}", o, e.chars().take(3000).collect::<String>()))
        }));
    }
    // Machines of a given size
    {
        use mc::bigm::*;
        let v = sizes(t.pick(5003, 10007));
        let n = v.len() as u64;
        f.push(family("sizes", format!("{} kinds of machines of sizes {:?} up to {}: the calls made, and the words followed through the machine they describe", KINDS, SIZES, t.pick(5003, 10007)), n, move |i, ctx| {
            let (kind, n) = v[i as usize];
            let b = match big(kind, n) { Some(b) => b, None => return Ok(()) };
            let sim = Sim::new(&b.calls);
            let mut m = make(&b.calls);
            if b.overlaps { m.fix_overlapping_ranges(); }
            let ev: Vec<Ev<SymbolRange<u32>, u32>> = DfaCompiler::build(m, Recorder::new());
            let starts = ev.iter().filter(|e| matches!(e, Ev::Start)).count();
            let mut rows: Vec<(Vec<(u32, u32, u32)>, Option<u32>)> = vec![];
            for (j, e) in ev.iter().enumerate() {
                ctx.step();
                match e {
                    Ev::Start => rows.push((vec![], None)),
                    Ev::Accept(o) => match rows.last_mut() {
                        Some(r) if r.1.is_none() => r.1 = Some(*o),
                        _ => return Err(format!("{}: call {} of {}: an output before any state or a second one", b.name, j, ev.len())),
                    },
                    Ev::Transition(r, to) => {
                        if *to as usize >= starts { return Err(format!("{}: call {}: a transition to state {} of {}", b.name, j, to, starts)); }
                        let row = match rows.last_mut() { Some(x) => &mut x.0, None => return Err(format!("{}: call {}: a transition before any state", b.name, j)) };
                        if let Some(l) = row.last() { if l.1 >= r.lowest { return Err(format!("{}: call {}: {:?} given after {:?} in one state", b.name, j, r, l)); } }
                        row.push((r.lowest, r.highest, *to));
                    }
                }
            }
            ctx.trace();
            if rows.is_empty() { return Err(format!("{}: no state was started", b.name)); }
            for w in &b.words {
                let mut at = 0usize;
                let mut got = rows[0].1.map(|o| (0, o));
                for (p, x) in w.iter().enumerate() {
                    match rows[at].0.binary_search_by(|t| if t.1 < *x { std::cmp::Ordering::Less } else if t.0 > *x { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }) {
                        Err(_) => break,
                        Ok(k) => at = rows[at].0[k].2 as usize,
                    }
                    if let Some(o) = rows[at].1 { got = Some((p + 1, o)); }
                }
                let want = sim.longest(w);
                if got != want { return Err(format!("{}: on {:?}... of {} symbols the machine described by the calls gives {:?}, expected {:?}", b.name, &w[..w.len().min(20)], w.len(), got, want)); }
                ctx.state(&(w.len(), &want));
            }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C11",
        level: "model_checking",
        assumptions: vec!["machines with more states, symbols or transitions than enumerated are covered only through the 'grown' family".into(), "that the build is finished exactly once is enforced by the type of DfaBuilder::build (it consumes the builder) and by the recorded result being returned".into()],
        families,
    })
}
