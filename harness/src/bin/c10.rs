//! C10: symbol successor and predecessor are exact for every symbol type.
use concordance::Countable;
use mc::engine::*;
use std::fmt::Debug;

fn one<S: Countable + PartialEq + Debug>(a: &S, b: &S) -> CaseResult {
    let n = Countable::next(a);
    if n != *b { return Err(format!("successor of {:?} is {:?}, expected {:?}", a, n, b)); }
    let p = Countable::prev(b);
    if p != *a { return Err(format!("predecessor of {:?} is {:?}, expected {:?}", b, p, a)); }
    Ok(())
}

macro_rules! ints {
    ($f:ident, $name:expr, $t:ty, whole) => {{
        let span = (<$t>::MAX as i128 - <$t>::MIN as i128) as u64;
        let blocks = (span / (1 << 16)).max(1);
        let per = span / blocks + 1;
        $f.push(family(&format!("{}-all", $name), format!("every one of the {} neighbouring pairs of {}", span, $name), blocks, move |i, ctx| {
            let lo = i * per;
            for k in lo..(lo + per).min(span) {
                let a = (<$t>::MIN as i128 + k as i128) as $t;
                let b = (<$t>::MIN as i128 + k as i128 + 1) as $t;
                one(&a, &b)?;
            }
            let n = (lo + per).min(span) - lo;
            ctx.transitions += 2 * n;
            ctx.traces += n;
            ctx.state(&(stringify!($t), i));
            ctx.outcome($name);
            Ok(())
        }));
    }};
    ($f:ident, $name:expr, $t:ty, $w:expr) => {{
        // windows around every power of two, zero and both ends
        let mut centres: Vec<i128> = vec![0, <$t>::MIN as i128, <$t>::MAX as i128];
        for b in 0..64 { centres.push(1i128 << b); centres.push(-(1i128 << b)); centres.push(3i128 << b); centres.push(-(5i128 << b)); }
        centres.retain(|c| *c >= <$t>::MIN as i128 && *c <= <$t>::MAX as i128);
        centres.sort();
        centres.dedup();
        let w: i128 = $w;
        let n = centres.len() as u64;
        $f.push(family(&format!("{}-windows", $name), format!("every neighbouring pair of {} within {} of both ends, zero, and of 1, 3 and 5 times every power of two", $name, w), n, move |i, ctx| {
            let c = centres[i as usize];
            let (lo, hi) = ((c - w).max(<$t>::MIN as i128), (c + w).min(<$t>::MAX as i128));
            let mut v = lo;
            while v < hi { one(&(v as $t), &((v + 1) as $t))?; v += 1; }
            ctx.transitions += 2 * (hi - lo) as u64;
            ctx.traces += (hi - lo) as u64;
            ctx.state(&(stringify!($t), i));
            ctx.outcome($name);
            ctx.sample(|| format!("{} from {} to {}", $name, lo, hi));
            Ok(())
        }));
    }};
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    ints!(f, "u8", u8, whole);
    ints!(f, "i8", i8, whole);
    ints!(f, "u16", u16, whole);
    ints!(f, "i16", i16, whole);
    f.push(family("char-all", "every one of the 1112063 neighbouring pairs of chars, surrogates left out".into(), 0x110000 / 0x1000, |i, ctx| {
        let lo = (i * 0x1000) as u32;
        let mut prev: Option<char> = if lo == 0 { None } else { (0..lo).rev().filter_map(char::from_u32).next() };
        for c in (lo..lo + 0x1000).filter_map(char::from_u32) {
            if let Some(p) = prev { one(&p, &c)?; ctx.step(); ctx.trace(); }
            prev = Some(c);
        }
        ctx.state(&i);
        ctx.outcome("char");
        ctx.sample(|| format!("chars from {:x}", lo));
        Ok(())
    }));
    ints!(f, "u32", u32, whole);
    ints!(f, "i32", i32, whole);
    let w = t.pick(70_000, 5_000_000);
    ints!(f, "u64", u64, w);
    ints!(f, "i64", i64, w);
    ints!(f, "usize", usize, w);
    ints!(f, "isize", isize, w);
    f
}

fn main() {
    mc::engine::main(Check {
        property: "C10",
        level: "model_checking",
        assumptions: vec!["64-bit types are explored in windows, all other types completely; the successor of the greatest and the predecessor of the least symbol are not specified".into()],
        families,
    })
}
