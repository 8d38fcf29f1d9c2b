//! C09: symbol range operations agree with sets of symbols.
use concordance::*;
use mc::engine::*;
use std::cmp::Ordering;
use std::fmt::Debug;

/// All operations on all pairs of ranges over a list of symbols, with bit masks as the oracle. The
/// list holds every symbol (or a representative of it) that can matter.
fn pairs<S: Ord + Clone + Debug + Send + Sync + std::hash::Hash + 'static>(name: &str, dom: Vec<S>) -> Family {
    assert!(dom.len() <= 64 && dom.windows(2).all(|w| w[0] < w[1]));
    let n = dom.len();
    let mut rs = vec![];
    for a in 0..n { for b in a..n { rs.push((a, b)); } }
    let k = rs.len() as u64;
    let rule = format!("all {} x {} pairs of ranges over {:?}: overlaps, join, order, equality; every symbol for membership; every pair of ends for creation", k, k, dom);
    family(name, rule, k, move |i, ctx| {
        let mask = |(a, b): (usize, usize)| -> u64 { (a..=b).fold(0, |m, c| m | 1 << c) };
        let p = rs[i as usize];
        let x = SymbolRange::new(dom[p.0].clone(), dom[p.1].clone());
        if x.lowest != dom[p.0] || x.highest != dom[p.1] { return Err(format!("new({:?}, {:?}) gives {:?}", dom[p.0], dom[p.1], x)); }
        for c in 0..n {
            ctx.step();
            if x.includes(&dom[c]) != (mask(p) >> c & 1 == 1) { return Err(format!("{:?}.includes({:?}) is {}", x, dom[c], x.includes(&dom[c]))); }
        }
        if p.0 < p.1 {
            let (a, b) = (dom[p.1].clone(), dom[p.0].clone());
            if let Ok(r) = panics(|| SymbolRange::new(a, b)) { return Err(format!("new with reversed ends is accepted: {:?}", r)); }
            ctx.trace();
        }
        for q in &rs {
            ctx.step();
            ctx.trace();
            let y = SymbolRange::new(dom[q.0].clone(), dom[q.1].clone());
            let both = mask(p) & mask(*q);
            if x.overlaps(&y) != (both != 0) { return Err(format!("{:?}.overlaps({:?}) is {}", x, y, x.overlaps(&y))); }
            let j = x.join(&y);
            let hull = mask(p) | mask(*q);
            let (lo, hi) = (hull.trailing_zeros() as usize, 63 - hull.leading_zeros() as usize);
            if j.lowest != dom[lo] || j.highest != dom[hi] { return Err(format!("{:?}.join({:?}) is {:?}", x, y, j)); }
            let want = p.0.cmp(&q.0).then(p.1.cmp(&q.1));
            if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) { return Err(format!("{:?} compared with {:?} is {:?}, {:?}", x, y, x.cmp(&y), x.partial_cmp(&y))); }
            let eq = want == Ordering::Equal;
            if (x == y) != eq || (x != y) == eq || (x < y) != (want == Ordering::Less) || (x <= y) != (want != Ordering::Greater) || (x > y) != (want == Ordering::Greater) || (x >= y) != (want != Ordering::Less) {
                return Err(format!("{:?} and {:?}: comparison operators disagree with {:?}", x, y, want));
            }
            // the greater and the lesser of two
            let (top, low) = if want == Ordering::Greater { (&x, &y) } else { (&y, &x) };
            if std::cmp::max(x.clone(), y.clone()) != *top || std::cmp::min(x.clone(), y.clone()) != *low { return Err(format!("{:?} and {:?}: max is {:?}, min {:?}", x, y, std::cmp::max(x.clone(), y.clone()), std::cmp::min(x.clone(), y.clone()))); }
            if x.clone().clamp(low.clone(), top.clone()) != x || low.clone().clamp(top.clone(), top.clone()) != *top || top.clone().clamp(low.clone(), low.clone()) != *low { return Err(format!("{:?} and {:?}: clamp disagrees with the order", x, y)); }
            let mut sorted = [x.clone(), y.clone(), x.clone()];
            sorted.sort();
            if sorted.windows(2).any(|w| w[0] > w[1]) { return Err(format!("{:?}, {:?} and {:?} are sorted as {:?}", x, y, x, sorted)); }
            ctx.state(&(&x.lowest, &x.highest, &y.lowest, &y.highest));
            if q.0 == 0 { ctx.outcome(&format!("{:?} {}", want, both != 0)); }
        }
        if x.clone() != x { return Err(format!("copy of {:?} differs", x)); }
        ctx.sample(|| format!("{:?} against all {} ranges", x, k));
        Ok(())
    })
}

/// Ranges from one to another of the places where a narrower representation of the symbols ends
fn windows<S: Ord + Clone + Debug + Send + Sync + std::hash::Hash + 'static>(name: &str, w: Vec<Vec<S>>) -> Family { pairs(name, mc::space::window_ends(&w)) }

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(pairs("u8", { let mut v: Vec<u8> = (0..12).collect(); v.extend(120..132); v.extend(244..=255); v }));
    f.push(pairs("i8", { let mut v: Vec<i8> = (-128..-120).collect(); v.extend(-4..4); v.extend(120..=127); v }));
    f.push(pairs("char", vec!['\0', '\u{1}', '0', '9', 'A', 'Z', 'a', 'z', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}']));
    f.push(pairs("i16", vec![i16::MIN, i16::MIN + 1, -257, -256, -255, -2, -1, 0, 1, 2, 255, 256, 257, i16::MAX - 1, i16::MAX]));
    f.push(pairs("u16", vec![0u16, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535]));
    f.push(pairs("i32", vec![i32::MIN, i32::MIN + 1, -65536, -1, 0, 1, 65535, 65536, i32::MAX - 1, i32::MAX]));
    f.push(pairs("u32", vec![0u32, 1, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX]));
    f.push(pairs("i64", vec![i64::MIN, i64::MIN + 1, -(1 << 40), -1, 0, 1, 1 << 40, i64::MAX - 1, i64::MAX]));
    f.push(pairs("u64", vec![0u64, 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX]));
    f.push(pairs("usize", vec![0usize, 1, 1 << 32, usize::MAX - 1, usize::MAX]));
    f.push(pairs("isize", vec![isize::MIN, -1, 0, 1, isize::MAX]));
    mc::every_window!(windows, f);
    f.push(pairs("string", ["", "a", "aa", "ab", "b", "ba", "z"].iter().map(|s| s.to_string()).collect()));
    f.push(pairs("tuple", vec![(0u8, 1u8), (0, 2), (1, 0), (1, 1), (2, 0)]));
    // All pairs of ranges over the whole of u8
    f.push(family("whole-u8", format!("all 32896 ranges over the whole of u8 against {}: overlaps, join and order by arithmetic", if t == Tier::Quick { "every 5th range" } else { "all of them" }), 256, move |i, ctx| {
        let step = t.pick(5, 1);
        let a = i as u8;
        for b in a..=255 {
            let x = SymbolRange::new(a, b);
            let mut n = 0usize;
            for c in 0..=255u8 {
                if x.includes(&c) != (a <= c && c <= b) { return Err(format!("{:?}.includes({})", x, c)); }
                for d in c..=255u8 {
                    n += 1;
                    if n % step != 0 { continue; }
                    let y = SymbolRange { lowest: c, highest: d };
                    let share = a.max(c) <= b.min(d);
                    if x.overlaps(&y) != share { return Err(format!("{:?}.overlaps({:?})", x, y)); }
                    let j = x.join(&y);
                    if j.lowest != a.min(c) || j.highest != b.max(d) { return Err(format!("{:?}.join({:?})", x, y)); }
                    if x.cmp(&y) != (a, b).cmp(&(c, d)) { return Err(format!("{:?}.cmp({:?})", x, y)); }
                }
            }
            ctx.transitions += (n / step) as u64;
            ctx.trace();
            ctx.state(&(a, b));
        }
        for b in 0..a { if panics(|| SymbolRange::new(a, b)).is_ok() { return Err(format!("new({}, {}) is accepted", a, b)); } }
        Ok(())
    }));
    f
}

fn main() {
    mc::engine::main(Check { property: "C09", level: "model_checking", assumptions: vec!["for types other than u8 the operations only compare symbols, so listed representatives stand for the rest".into()], families })
}
