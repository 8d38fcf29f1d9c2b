//! C07: the non-overlapping form of a range set is an exact partition.
use concordance::overlapping_symbols::SymbolMap;
use concordance::*;
use mc::engine::*;
use mc::model::Sym;
use mc::space::*;

fn rs(p: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..p { for b in a..p { v.push((a, b)); } }
    v
}

/// All ranges of a map, by looking up everything from the first to the last symbol of the domain
fn listed<S: Sym>(m: &SymbolMap<S>, dom: &[S]) -> Vec<SymbolRange<S>> {
    m.find_overlapping_ranges(&SymbolRange::new(dom[0].clone(), dom[dom.len() - 1].clone())).into_iter().cloned().collect()
}

fn check<S: Sym>(dom: &[S], ranges: &[(usize, usize)], order: &[usize], ctx: &mut Ctx) -> Result<Vec<SymbolRange<S>>, String> {
    let mut m = SymbolMap::new();
    for i in order { m.add_range(&SymbolRange::new(dom[ranges[*i].0].clone(), dom[ranges[*i].1].clone())); }
    let show = || format!("ranges added {:?}", order.iter().map(|i| (&dom[ranges[*i].0], &dom[ranges[*i].1])).collect::<Vec<_>>());
    let n = m.to_non_overlapping_map();
    ctx.trace();
    let got = listed(&n, dom);
    let fail = |m: String| Err(format!("{}\nnon-overlapping form {:?}\n{}", show(), got, m));
    for r in &got { if r.lowest > r.highest { return fail(format!("range {:?} is reversed", r)); } }
    for w in got.windows(2) { if w[0].highest >= w[1].lowest { return fail(format!("{:?} and {:?} are not ascending and disjoint", w[0], w[1])); } }
    // symbol by symbol: which piece is it in, and which original ranges contain it
    let mut sig: Vec<Vec<usize>> = vec![];
    for (c, s) in dom.iter().enumerate() {
        let piece = got.iter().position(|r| r.lowest <= *s && *s <= r.highest);
        let members: Vec<usize> = order.iter().cloned().filter(|i| ranges[*i].0 <= c && c <= ranges[*i].1).collect();
        ctx.step();
        if piece.is_some() != !members.is_empty() { return fail(format!("symbol {:?} is in {} original ranges but {} the non-overlapping form", s, members.len(), if piece.is_some() { "in" } else { "not in" })); }
        sig.push(members);
    }
    // every original is a union of pieces: each piece is inside or outside of it
    for i in order {
        let (lo, hi) = (&dom[ranges[*i].0], &dom[ranges[*i].1]);
        for r in &got {
            let inside = *lo <= r.lowest && r.highest <= *hi;
            let outside = r.highest < *lo || r.lowest > *hi;
            if !inside && !outside { return fail(format!("piece {:?} is partly inside {:?}..={:?}", r, lo, hi)); }
        }
    }
    ctx.state(&got.iter().map(|r| (r.lowest.clone(), r.highest.clone())).collect::<Vec<_>>());
    Ok(got)
}

fn masks<S: Sym>(name: &str, dom: Vec<S>, note: &str) -> Family {
    let r = rs(dom.len());
    let k = r.len();
    family(name, format!("every subset of the {} ranges over {:?} ({}), added ascending, descending and with every range twice", k, dom, note), 1 << k, move |i, ctx| {
        let asc: Vec<usize> = (0..k).filter(|j| i >> j & 1 == 1).collect();
        let mut desc = asc.clone();
        desc.reverse();
        let twice: Vec<usize> = asc.iter().chain(desc.iter()).cloned().collect();
        let a = check(&dom, &r, &asc, ctx)?;
        for o in [desc, twice] {
            let b = check(&dom, &r, &o, ctx)?;
            if a != b { return Err(format!("ranges {:?}: added ascending give {:?}, in another order or twice {:?}", asc.iter().map(|j| r[*j]).collect::<Vec<_>>(), a, b)); }
        }
        if i % 1024 == 1023 { ctx.outcome(&format!("{} ranges to {}", asc.len(), a.len())); }
        ctx.sample(|| format!("{:?} -> {:?}", asc.iter().map(|j| r[*j]).collect::<Vec<_>>(), a));
        Ok(())
    })
}

fn orders<S: Sym>(name: &str, dom: Vec<S>, max: usize) -> Family {
    let r = rs(dom.len());
    let mut sets = vec![];
    for k in 0..=max { sets.extend(subsets(r.len(), k)); }
    let n = sets.len() as u64;
    family(name, format!("every set of at most {} of the {} ranges over {:?}, in every order of addition", max, r.len(), dom), n, move |i, ctx| {
        let set = &sets[i as usize];
        let a = check(&dom, &r, set, ctx)?;
        for p in permutations(set.len()) {
            let o: Vec<usize> = p.into_iter().map(|j| set[j]).collect();
            let b = check(&dom, &r, &o, ctx)?;
            if a != b { return Err(format!("ranges {:?} in the order {:?} give {:?}, in ascending order {:?}", set, o, b, a)); }
        }
        Ok(())
    })
}

/// Every sequence of additions to one map; the non-overlapping form (and its own form) after each
fn grown<S: Sym>(name: &str, dom: Vec<S>, n: usize) -> Family {
    let r = rs(dom.len());
    let k = r.len() as u64;
    family(name, format!("every sequence of {} of the {} ranges over {:?} added to one map: the non-overlapping form after each addition, and the form of that form", n, k, dom), k.pow(n as u32), move |i, ctx| {
        let s = seq(i, k, n);
        let mut m = SymbolMap::new();
        for j in 0..n {
            m.add_range(&SymbolRange::new(dom[r[s[j]].0].clone(), dom[r[s[j]].1].clone()));
            // (the sequences with the same beginning share all but the last)
            if j + 1 < n && s[j + 1..].iter().any(|x| *x > 0) { m.to_non_overlapping_map(); continue; }
            let form = m.to_non_overlapping_map();
            let got = listed(&form, &dom);
            let want = check(&dom, &r, &s[..j + 1], ctx)?;
            if got != want { return Err(format!("ranges {:?} added to one map, asked for after each: {:?}, expected {:?}", s[..j + 1].iter().map(|x| r[*x]).collect::<Vec<_>>(), got, want)); }
            let again = listed(&form.to_non_overlapping_map(), &dom);
            if again != want { return Err(format!("ranges {:?}: the form of the form is {:?}, expected {:?}", s[..j + 1].iter().map(|x| r[*x]).collect::<Vec<_>>(), again, want)); }
        }
        Ok(())
    })
}

/// Every set of ranges at every place where a narrower representation of the symbols ends
fn windows<S: Sym>(name: &str, w: Vec<Vec<S>>) -> Family {
    let r = rs(4);
    family(name, format!("every set of the 10 ranges over four neighbouring symbols around each of {} places (zero, powers of two and their negatives, the ends of the type), added ascending and descending", w.len()), w.len() as u64 * 1024, move |i, ctx| {
        let dom = &w[(i / 1024) as usize];
        let asc: Vec<usize> = (0..10).filter(|j| i % 1024 >> j & 1 == 1).collect();
        let desc: Vec<usize> = asc.iter().rev().cloned().collect();
        let (a, b) = (check(dom, &r, &asc, ctx)?, check(dom, &r, &desc, ctx)?);
        if a != b { return Err(format!("ranges {:?} over {:?}: added ascending give {:?}, descending {:?}", asc, dom, a, b)); }
        Ok(())
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![
        grown("grown-five", vec![0u8, 1, 2, 3, 4], t.pick(4, 5)),
        grown("grown-seven", vec!['\u{d7fd}', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{e002}', '\u{e003}'], t.pick(3, 4)),
        masks("all-low-u8", vec![0u8, 1, 2, 3, 4], "bottom of the type"),
        masks("all-high-u8", vec![251u8, 252, 253, 254, 255], "top of the type"),
        masks("all-gap-char", vec!['\u{d7fd}', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}'], "both sides of the surrogates"),
        masks("all-gap-char-2", vec!['\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{e002}'], "both sides of the surrogates"),
        masks("all-low-char", vec!['\0', '\u{1}', '\u{2}', '\u{3}'], "bottom of the type"),
        masks("all-high-char", vec!['\u{10fffc}', '\u{10fffd}', '\u{10fffe}', '\u{10ffff}'], "top of the type"),
        masks("all-mid-char", vec!['\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}'], "end of the basic plane"),
        masks("all-low-i8", vec![-128i8, -127, -126, -125], "bottom of the type"),
        masks("all-high-i8", vec![124i8, 125, 126, 127], "top of the type"),
        masks("all-zero-i16", vec![-2i16, -1, 0, 1, 2], "around zero"),
        masks("all-zero-i64", vec![-2i64, -1, 0, 1], "around zero"),
        masks("all-zero-isize", vec![-2isize, -1, 0, 1], "around zero"),
        masks("all-low-i32", vec![i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MIN + 3], "bottom of the type"),
        masks("all-high-u16", vec![65532u16, 65533, 65534, 65535], "top of the type"),
        masks("all-byte-u32", vec![254u32, 255, 256, 257], "around 256"),
        masks("all-high-u64", vec![u64::MAX - 3, u64::MAX - 2, u64::MAX - 1, u64::MAX], "top of the type"),
        masks("all-low-usize", vec![0usize, 1, 2, 3], "bottom of the type"),
        orders("orders-low", vec![0u8, 1, 2, 3, 4], t.pick(4, 5)),
        orders("orders-gap", vec!['\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}'], t.pick(4, 6)),
    ];
    mc::every_window!(windows, f);
    f.push(masks("all-six", vec![250u8, 251, 252, 253, 254, 255], "six symbols, top of the type"));
    // Separated domain: ends far apart, probes between and beside them
    f.push({
        let dom: Vec<u8> = vec![0, 1, 9, 10, 11, 99, 100, 101, 199, 200, 201, 254, 255];
        let ends = [0usize, 3, 6, 9, 12];
        let r: Vec<(usize, usize)> = rs(5).into_iter().map(|(a, b)| (ends[a], ends[b])).collect();
        family("separated", "every subset of the 15 ranges with ends in 0, 10, 100, 200, 255 (ends far apart), examined at and beside every end".into(), 1 << 15, move |i, ctx| {
            let asc: Vec<usize> = (0..15).filter(|j| i >> j & 1 == 1).collect();
            let a = check(&dom, &r, &asc, ctx)?;
            let mut d = asc.clone();
            d.reverse();
            let b = check(&dom, &r, &d, ctx)?;
            if a != b { return Err(format!("order matters for {:?}", asc)); }
            Ok(())
        })
    });
    f.push(family("many", "sets of up to 200 ranges over u16: nested, staircase, comb, equal ends, mixed, added in three orders".into(), 200 * 6, |i, ctx| {
        let n = (i / 6) as usize + 1;
        let dom: Vec<u16> = (0..600).collect();
        let r: Vec<(usize, usize)> = (0..n).map(|j| match i % 6 {
            0 => (j, 599 - j),
            1 => (j * 2, j * 2 + 150),
            2 => if j == 0 { (0, 599) } else { (j * 2, j * 2) },
            3 => (10, 20 + j),
            4 => ((j * 37) % 300, 300 + (j * 53) % 300),
            _ => (j % 40 * 10, j % 40 * 10 + j % 25),
        }).collect();
        let asc: Vec<usize> = (0..n).collect();
        let a = check(&dom, &r, &asc, ctx)?;
        let mut d = asc.clone();
        d.reverse();
        let e: Vec<usize> = asc.iter().filter(|x| *x % 2 == 0).chain(asc.iter().filter(|x| *x % 2 == 1)).cloned().collect();
        for o in [d, e] {
            if check(&dom, &r, &o, ctx)? != a { return Err(format!("{} ranges of arrangement {}: order matters", n, i % 6)); }
        }
        Ok(())
    }));
    // Sets of a given size: the boundaries are found by sorting, not symbol by symbol
    {
        use mc::bigm::*;
        let v = range_sizes(t.pick(5003, 10007));
        let n = v.len() as u64 * 5;
        f.push(family("sizes", format!("sets of up to {} ranges over u32 in {} arrangements (nested, staircases, combs, common ends, apart, touching, groups, crossing), added in five orders", t.pick(5003, 10007), ARRANGEMENTS), n, move |i, ctx| {
            let (kind, n) = v[i as usize / 5];
            let (name, rs) = match ranges(kind, n) { Some(x) => x, None => return Ok(()) };
            let mut m = SymbolMap::new();
            for r in shuffled(&rs, i as usize % 5) { m.add_range(&SymbolRange::new(r.0, r.1)); }
            let got: Vec<(u32, u32)> = m.to_non_overlapping_map().find_overlapping_ranges(&SymbolRange::new(0, u32::MAX - 1)).into_iter().map(|r| (r.lowest, r.highest)).collect();
            ctx.trace();
            let fail = |e: String| Err(format!("{} ranges, {}, added in order {}: {}", n, name, i % 5, e));
            for r in &got { if r.0 > r.1 { return fail(format!("piece {:?} is reversed", r)); } }
            for w in got.windows(2) { ctx.step(); if w[0].1 >= w[1].0 { return fail(format!("{:?} and {:?} are not ascending and disjoint", w[0], w[1])); } }
            let cover = |v: &[(u32, u32)]| {
                let mut v = v.to_vec();
                v.sort();
                let mut r: Vec<(u32, u32)> = vec![];
                for x in v { match r.last_mut() { Some(l) if x.0 <= l.1 + 1 => l.1 = l.1.max(x.1), _ => r.push(x) } }
                r
            };
            let (a, b) = (cover(&got), cover(&rs));
            if a != b { return fail(format!("covers {:?}... , expected {:?}...", a.iter().zip(&b).find(|x| x.0 != x.1), a.len())); }
            let mut cuts: Vec<u32> = rs.iter().flat_map(|r| [r.0, r.1 + 1]).collect();
            cuts.sort();
            for c in cuts {
                let k = got.partition_point(|r| r.1 < c);
                if k < got.len() && got[k].0 < c { return fail(format!("a range begins or ends at {}, inside of the piece {:?}", c, got[k])); }
            }
            ctx.state(&(kind, n, got.len()));
            ctx.sample(|| format!("{} ranges, {}: {} pieces", n, name, got.len()));
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C07",
        level: "model_checking",
        assumptions: vec!["the pieces of the non-overlapping form are read by looking up the whole domain in it".into()],
        families,
    })
}
