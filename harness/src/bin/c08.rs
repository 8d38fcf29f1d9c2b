//! C08: range lookup returns exactly the overlapping ranges.
use concordance::overlapping_symbols::SymbolMap;
use concordance::*;
use mc::engine::*;
use mc::model::Sym;
use mc::space::*;

fn rs(lo: usize, hi: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in lo..=hi { for b in a..=hi { v.push((a, b)); } }
    v
}

/// Every query of `queries` against the map of `set`
fn check<S: Sym>(dom: &[S], set: &[(usize, usize)], queries: &[(usize, usize)], ctx: &mut Ctx) -> CaseResult {
    let mut m = SymbolMap::new();
    for r in set { m.add_range(&SymbolRange::new(dom[r.0].clone(), dom[r.1].clone())); }
    lookups(&m, dom, set, queries, ctx)
}

/// Every query of `queries` against a map that should hold `set`
fn lookups<S: Sym>(m: &SymbolMap<S>, dom: &[S], set: &[(usize, usize)], queries: &[(usize, usize)], ctx: &mut Ctx) -> CaseResult {
    let mut sorted: Vec<(usize, usize)> = set.to_vec();
    sorted.sort();
    sorted.dedup();
    for q in queries {
        let got: Vec<(S, S)> = m.find_overlapping_ranges(&SymbolRange::new(dom[q.0].clone(), dom[q.1].clone())).into_iter().map(|r| (r.lowest.clone(), r.highest.clone())).collect();
        ctx.step();
        let want: Vec<(S, S)> = sorted.iter().filter(|r| !(r.1 < q.0 || r.0 > q.1)).map(|r| (dom[r.0].clone(), dom[r.1].clone())).collect();
        if got != want {
            return Err(format!("set {:?}, looking up {:?}..={:?}: got {:?}, expected {:?}", sorted.iter().map(|r| (&dom[r.0], &dom[r.1])).collect::<Vec<_>>(), dom[q.0], dom[q.1], got, want));
        }
        if ctx.transitions % 4096 == 0 { ctx.outcome(&format!("{} of {}", got.len(), sorted.len())); }
    }
    ctx.state(&sorted.iter().map(|r| (dom[r.0].clone(), dom[r.1].clone())).collect::<Vec<_>>());
    ctx.trace();
    ctx.sample(|| format!("{:?}: {} look-ups", sorted, queries.len()));
    Ok(())
}

fn masks<S: Sym>(name: &str, dom: Vec<S>, lo: usize, hi: usize) -> Family {
    let r = rs(lo, hi);
    let q = rs(0, dom.len() - 1);
    let k = r.len();
    family(name, format!("every subset of the {} ranges over {:?}, every one of {} look-ups over {:?}", k, &dom[lo..=hi], q.len(), dom), 1 << k, move |i, ctx| {
        let set: Vec<(usize, usize)> = (0..k).filter(|j| i >> j & 1 == 1).map(|j| r[j]).collect();
        check(&dom, &set, &q, ctx)?;
        if set.len() > 1 {
            let mixed: Vec<(usize, usize)> = set.iter().rev().step_by(2).chain(set.iter().step_by(2)).chain(set.iter().rev()).cloned().collect();
            check(&dom, &mixed, &q, ctx)?;
        }
        Ok(())
    })
}

/// Every sequence of additions (with repetitions), every look-up after each; then the look-ups in the non-overlapping form, with one more range added to it
fn histories<S: Sym>(name: &str, dom: Vec<S>, lo: usize, hi: usize, n: usize) -> Family {
    let r = rs(lo, hi);
    let q = rs(0, dom.len() - 1);
    let k = r.len() as u64;
    family(name, format!("every sequence of {} additions out of the {} ranges over {:?}, every look-up after each addition, in the non-overlapping form, and in that with the first range added again", n, k, &dom[lo..=hi]), k.pow(n as u32), move |i, ctx| {
        let set: Vec<(usize, usize)> = seq(i, k, n).into_iter().map(|j| r[j]).collect();
        let range = |r: (usize, usize)| SymbolRange::new(dom[r.0].clone(), dom[r.1].clone());
        let mut m = SymbolMap::new();
        for j in 0..n {
            m.add_range(&range(set[j]));
            lookups(&m, &dom, &set[..j + 1], &q, ctx).map_err(|e| format!("after adding {:?} in this order\n{}", &set[..j + 1], e))?;
        }
        let mut apart = m.to_non_overlapping_map();
        let at = |s: &S| dom.iter().position(|d| d == s);
        let listed = |m: &SymbolMap<S>| m.find_overlapping_ranges(&range((0, dom.len() - 1))).into_iter().map(|r| (at(&r.lowest), at(&r.highest))).collect::<Vec<_>>();
        let mut pieces = vec![];
        for p in listed(&apart) { match p { (Some(a), Some(b)) => pieces.push((a, b)), _ => return Err(format!("after adding {:?}: the non-overlapping form has ends outside of the symbols used", set)) } }
        lookups(&apart, &dom, &pieces, &q, ctx).map_err(|e| format!("in the non-overlapping form of {:?}\n{}", set, e))?;
        apart.add_range(&range(set[0]));
        pieces.push(set[0]);
        lookups(&apart, &dom, &pieces, &q, ctx).map_err(|e| format!("in the non-overlapping form of {:?} with {:?} added\n{}", set, set[0], e))
    })
}

/// Every set of up to 4 ranges at every place where a narrower representation of the symbols ends
fn windows<S: Sym>(name: &str, w: Vec<Vec<S>>) -> Family {
    let r = rs(0, 3);
    let mut sets = vec![];
    for k in 0..=4 { sets.extend(mc::space::subsets(10, k)); }
    let n = sets.len() as u64;
    family(name, format!("every set of at most 4 of the 10 ranges over four neighbouring symbols around each of {} places (zero, powers of two and their negatives, the ends of the type), added ascending and descending; every look-up", w.len()), w.len() as u64 * n, move |i, ctx| {
        let dom = &w[(i / n) as usize];
        let mut set: Vec<(usize, usize)> = sets[(i % n) as usize].iter().map(|j| r[*j]).collect();
        check(dom, &set, &r, ctx)?;
        set.reverse();
        check(dom, &set, &r, ctx)
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![
        masks("all-five", (0..7u8).collect(), 1, 5),
        masks("all-top", (249..=255u8).collect(), 2, 6),
        masks("all-bottom-i32", vec![i32::MIN, i32::MIN + 1, i32::MIN + 2, -1, 0, 1, i32::MAX], 0, 4),
        masks("all-char", vec!['\0', 'a', '\u{d7ff}', '\u{e000}', '\u{10fffe}', '\u{10ffff}'], 1, 5),
        masks("all-u64", vec![0u64, 1, 2, u64::MAX - 1, u64::MAX], 0, 4),
        masks("all-six", (0..6u16).map(|x| x * 10000).collect(), 0, 5),
        masks("all-i8", vec![-128i8, -1, 0, 1, 127], 0, 4),
        masks("all-isize", vec![isize::MIN, -1, 0, isize::MAX], 0, 3),
    ];
    mc::every_window!(windows, f);
    f.push(histories("histories", (3..10u8).collect(), 1, 5, t.pick(4, 5)));
    f.push(histories("histories-char", vec!['\u{d7fd}', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}'], 0, 4, t.pick(3, 4)));
    f.push(histories("histories-i16", vec![-3i16, -2, -1, 0], 0, 3, t.pick(4, 5)));
    // disjoint sets with gaps, larger
    f.push({
        let p = t.pick(11usize, 13);
        let n = 3u64.pow(p as u32);
        family("disjoint", format!("every way to lay disjoint ranges over {} symbols (each symbol outside, starting a range, or continuing one), every look-up", p), n, move |i, ctx| {
            let d = digits(i, &vec![3u64; p]);
            let mut set: Vec<(usize, usize)> = vec![];
            let mut open = false;
            for c in 0..p {
                match d[c] {
                    0 => open = false,
                    1 => { set.push((c, c)); open = true; }
                    _ => { if !open { return Ok(()); } set.last_mut().unwrap().1 = c; }
                }
            }
            let dom: Vec<u8> = (100..100 + p as u8).collect();
            check(&dom, &set, &rs(0, p - 1), ctx)
        })
    });
    f.push(family("many", "sets of up to 150 ranges (nested, staircase, comb under one wide range, mixed, disjoint, equal lower ends), look-ups of 40 positions x 12 widths".into(), 150 * 6, |i, ctx| {
        let n = (i / 6) as usize + 1;
        let dom: Vec<u32> = (0..700).map(|x| x * 3).collect();
        let set: Vec<(usize, usize)> = (0..n).map(|j| match i % 6 {
            0 => (j, 600 - j),
            1 => (j * 2, j * 2 + 150),
            2 => if j == 0 { (0, 650) } else { (j * 4, j * 4 + 1) },
            3 => ((j * 37) % 300, 300 + (j * 53) % 300),
            4 => (j * 4, j * 4 + 2),
            _ => (10 + j % 3, 20 + j),
        }).collect();
        let mut q = vec![];
        for p in 0..40 { for w in [0usize, 1, 2, 3, 4, 5, 8, 16, 40, 100, 300, 699] { let lo = p * 17; q.push((lo, (lo + w).min(699))); } }
        check(&dom, &set, &q, ctx)?;
        let mixed: Vec<(usize, usize)> = set.iter().rev().step_by(2).chain(set.iter().step_by(2)).chain(set.iter().rev()).cloned().collect();
        check(&dom, &mixed, &q, ctx)
    }));
    // Sets of a given size
    {
        use mc::bigm::*;
        let v = range_sizes(t.pick(5003, 10007));
        let n = v.len() as u64 * 5;
        f.push(family("sizes", format!("sets of up to {} ranges over u32 in {} arrangements, added in five orders; look-ups of 12 widths and of everything at the ends, in the middle and next to powers of two, and the same in the non-overlapping form", t.pick(5003, 10007), ARRANGEMENTS), n, move |i, ctx| {
            let (kind, n) = v[i as usize / 5];
            let (name, rs) = match ranges(kind, n) { Some(x) => x, None => return Ok(()) };
            let mut m = SymbolMap::new();
            for r in shuffled(&rs, i as usize % 5) { m.add_range(&SymbolRange::new(r.0, r.1)); }
            let mut sorted = rs.clone();
            sorted.sort();
            sorted.dedup();
            let top = rs.iter().map(|r| r.1).max().unwrap_or(0) as usize;
            let mut q: Vec<(u32, u32)> = vec![(0, u32::MAX), (0, 0)];
            for p in mc::scale::picks(top + 2) { for w in [0usize, 1, 2, 3, 4, 5, 31, 300, top] { q.push((p as u32, (p + w) as u32)); } }
            let plain = m.to_non_overlapping_map();
            let pieces: Vec<(u32, u32)> = plain.find_overlapping_ranges(&SymbolRange::new(0, u32::MAX)).into_iter().map(|r| (r.lowest, r.highest)).collect();
            for (m, sorted, of) in [(&m, &sorted, "set"), (&plain, &pieces, "non-overlapping form")] {
                for q in &q {
                    ctx.step();
                    let got: Vec<(u32, u32)> = m.find_overlapping_ranges(&SymbolRange::new(q.0, q.1)).into_iter().map(|r| (r.lowest, r.highest)).collect();
                    let want: Vec<(u32, u32)> = sorted.iter().filter(|r| !(r.1 < q.0 || r.0 > q.1)).cloned().collect();
                    if got != want { return Err(format!("{} of {} ranges, {}, added in order {}: looking up {:?} gives {} ranges, expected {}", of, n, name, i % 5, q, got.len(), want.len())); }
                }
            }
            ctx.trace();
            ctx.state(&(kind, n, pieces.len()));
            ctx.sample(|| format!("{} ranges, {}: {} look-ups", n, name, q.len() * 2));
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C08", level: "model_checking", assumptions: vec!["sets larger than stated are covered by the disjoint and many families".into()], families })
}
