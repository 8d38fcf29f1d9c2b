//! C17: tagging only groups symbols.
use concordance::TagSymbol::*;
use concordance::*;
use mc::engine::*;
use mc::space::*;
use mc::tree::*;

fn base(n: usize) -> (Stream<u8>, Vec<T<u8>>) {
    // symbols 10, 20, ... with one repeated, so that equal symbols occur
    let v: Vec<u8> = (0..n).map(|i| if i == 3 { 10 } else { (i as u8 + 1) * 10 }).collect();
    let mut r = v.read_symbols();
    (TaggedStream::from_reader(&mut r), v.iter().map(|b| T::U(*b)).collect())
}

/// Ranges lo..hi of a stream of n symbols, including empty ones
fn ranges(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for w in 0..=n { for lo in 0..=n - w { v.push((lo, lo + w)); } }
    v
}

/// Is the list one that with_tags takes?
fn ordered(l: &[(usize, usize, u8)]) -> bool { l.windows(2).all(|w| w[0].1 <= w[1].0) }

fn apply_many(s: &Stream<u8>, m: &[T<u8>], l: &[(usize, usize, u8)], ctx: &mut Ctx) -> Result<Option<(Stream<u8>, Vec<T<u8>>)>, String> {
    let tags: Vec<(std::ops::Range<usize>, u8)> = l.iter().map(|x| (x.0..x.1, x.2)).collect();
    let r = panics(|| s.with_tags(tags.iter().cloned()));
    ctx.step();
    same(s, m).map_err(|e| format!("after with_tags({:?}) the original changed: {}", tags, e))?;
    match (r, ordered(l)) {
        (Err(_), false) => { ctx.outcome("refused"); Ok(None) }
        (Err(e), true) => Err(format!("with_tags({:?}) panicked: {}", tags, e)),
        (Ok(_), false) => Err(format!("with_tags({:?}) accepted ranges that are out of order or overlap", tags)),
        (Ok(n), true) => {
            let want = with_tags(m, l);
            same(&n, &want).map_err(|e| format!("with_tags({:?}): {}", tags, e))?;
            // one by one, from the last to the first
            let mut one = s.clone();
            for x in l.iter().rev() { one.tag(x.2, x.0..x.1); }
            if one != n { return Err(format!("with_tags({:?}) differs from tagging one by one: {:?} and {:?}", tags, n, one)); }
            Ok(Some((n, want)))
        }
    }
}

fn apply_one(s: &mut Stream<u8>, m: &mut Vec<T<u8>>, (lo, hi): (usize, usize), g: u8, ctx: &mut Ctx) -> CaseResult {
    let sym = s.tag_range(lo..hi, g);
    let want = T::G(g, m[lo..hi].to_vec());
    if symbol(&sym) != want { return Err(format!("tag_range({}..{}, {}) is {:?}, expected {:?}", lo, hi, g, sym, want)); }
    same(s, m).map_err(|e| format!("tag_range({}..{}) changed the stream: {}", lo, hi, e))?;
    s.tag(g, lo..hi);
    ctx.step();
    *m = tag(m, g, lo, hi);
    same(s, m).map_err(|e| format!("tag({}, {}..{}): {}", g, lo, hi, e))?;
    if s[lo] != sym { return Err(format!("the tag at {} differs from tag_range({}..{})", lo, lo, hi)); }
    Ok(())
}

/// A stream of n symbols that are all the same
fn alike(n: usize) -> (Stream<u8>, Vec<T<u8>>) {
    let v = vec![3u8; n];
    (TaggedStream::from_reader(&mut v.read_symbols()), v.into_iter().map(T::U).collect())
}

fn unchanged(s: &[T<u8>], n: usize) -> CaseResult { unchanged_from(s, &base(n).1) }

fn unchanged_from(s: &[T<u8>], from: &[T<u8>]) -> CaseResult {
    let mut got = vec![];
    expand(s, &mut got);
    let mut want = vec![];
    expand(from, &mut want);
    if got != want { return Err(format!("expanding all tags gives {:?}, expected {:?}", got, want)); }
    Ok(())
}

/// All sequences of single tags
fn singles(name: &str, n: usize, depth: usize) -> Family {
    // an upper bound of the choices: ranges of n + 1 symbols (an empty range makes the stream longer)
    let k = ranges(n + depth).len() as u64;
    let first = ranges(n).len() as u64;
    family(name, format!("all sequences of {} single tags of any range (also empty ones) of a stream of {} symbols, all different or all the same, and of the streams that result; tags that differ, repeat or are all the same", depth, n), first * k.pow(depth as u32 - 1) * 4, move |i, ctx| {
        // Tags that take turns, are all the same, or come in other orders
        let (i, v) = (i / 4, (i % 4) as u8);
        let (mut s, mut m) = if v % 2 == 0 { base(n) } else { alike(n) };
        let from = m.clone();
        let mut radix = vec![first];
        radix.extend(vec![k; depth - 1]);
        for (step, d) in digits(i, &radix).into_iter().enumerate() {
            let r = ranges(m.len());
            if d as usize >= r.len() { return Ok(()); }
            let r = r[d as usize];
            apply_one(&mut s, &mut m, r, [step as u8 % 2, 0, step as u8 / 2 % 2, step as u8][v as usize], ctx).map_err(|e| format!("stream of {}, case {}, step {}: {}", n, i, step, e))?;
        }
        unchanged_from(&m, &from)?;
        ctx.state(&m);
        ctx.trace();
        ctx.outcome(&format!("length {}", m.len()));
        ctx.sample(|| format!("{:?}", m));
        Ok(())
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(family("from-reader", "streams made from readers of 0 to 300 symbols, of several kinds; equality with a copy and inequality with every stream differing in one place".into(), 301, |i, ctx| {
        let n = i as usize;
        let v: Vec<u8> = (0..n).map(|x| (x * 7) as u8).collect();
        let s: Stream<u8> = TaggedStream::from_reader(&mut v.read_symbols());
        let want: Vec<T<u8>> = v.iter().map(|b| T::U(*b)).collect();
        same(&s, &want)?;
        let s2: Stream<u8> = TaggedStream::from_reader(&mut VecReader::from_vec(v.clone()));
        let s3: Stream<u8> = TaggedStream::from_reader(&mut ByteSymbolReader::from(&v[..]));
        if s != s2 || s2 != s3 || s.clone() != s { return Err(format!("streams made from the same {} symbols differ", n)); }
        ctx.trace();
        ctx.state(&n);
        if n <= 20 {
            for k in 0..n {
                let mut w = v.clone();
                w[k] = w[k].wrapping_add(1);
                let o: Stream<u8> = TaggedStream::from_reader(&mut w.read_symbols());
                if o == s { return Err(format!("streams that differ at {} compare equal", k)); }
                let mut a = s.clone();
                a.tag(1, k..k + 1);
                let mut b = s.clone();
                b.tag(2, k..k + 1);
                if a == b || a == s { return Err(format!("differently tagged streams compare equal (at {})", k)); }
                ctx.step();
            }
        }
        Ok(())
    }));
    {
        let depth = t.pick(2usize, 3);
        let all: Vec<(Stream<u8>, Vec<T<u8>>)> = {
            let mut seen: std::collections::BTreeMap<Vec<T<u8>>, Stream<u8>> = Default::default();
            for j in 0..string_count(2, 3) {
                let v = string(2, j);
                seen.insert(v.iter().map(|b| T::U(*b)).collect(), TaggedStream::from_reader(&mut v.read_symbols()));
            }
            for _ in 0..depth {
                let now: Vec<(Vec<T<u8>>, Stream<u8>)> = seen.iter().map(|(m, s)| (m.clone(), s.clone())).collect();
                for (m, s) in now {
                    for (lo, hi) in ranges(m.len()) {
                        for g in 0..2u8 {
                            let w = tag(&m, g, lo, hi);
                            let mut r = s.clone();
                            // a changed tree that behaves differently is reported by the other families
                            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.tag(g, lo..hi))).is_err() { continue; }
                            seen.entry(w).or_insert(r);
                        }
                    }
                }
            }
            seen.into_iter().map(|(m, s)| (s, m)).collect()
        };
        let n = all.len() as u64;
        let all = std::sync::Arc::new(all);
        let take = t.pick(n, n.min(12_000));
        f.push(family("equal", format!("all pairs of the {} streams that up to {} tags make of streams of up to 3 of 2 symbols{}: they compare equal exactly when they hold the same", n, depth, if take < n { format!(", the second one of the first {}", take) } else { String::new() }), n, move |i, ctx| {
            let (s, m) = &all[i as usize];
            same(s, m)?;
            for (s2, m2) in all.iter().take(take as usize) {
                if (s == s2) != (m == m2) || (s != s2) == (m == m2) { return Err(format!("{:?} and {:?} compare {}", m, m2, if m == m2 { "different" } else { "equal" })); }
            }
            for k in 0..s.len() {
                for (s2, m2) in all.iter().take(60) {
                    for j in 0..s2.len() { if (s[k] == s2[j]) != (m[k] == m2[j]) { return Err(format!("the symbols {:?} and {:?} compare {}", m[k], m2[j], if m[k] == m2[j] { "different" } else { "equal" })); } }
                }
            }
            ctx.transitions += take;
            ctx.state(m);
            ctx.trace();
            Ok(())
        }));
    }
    for n in 0..=5 { f.push(singles(&format!("tag-{}", n), n, t.pick(3, if n < 4 { 4 } else { 3 }))); }
    f.push(singles("tag-8", 8, 2));
    // with_tags with every list of up to 3 ranges, ordered or not
    for n in 0..=4usize {
        let r = ranges(n);
        let k = r.len() as u64;
        f.push(family(&format!("many-{}", n), format!("with_tags on a stream of {} symbols with every list of at most 3 ranges, in order or not, empty ranges included; every way in which the tags and the symbols can be the same; each result tagged once more with every range", n), (1 + k + k * k + k * k * k) * 10, move |i, ctx| {
            let (mut i, alike_symbols, v) = (i / 10, i % 2 == 1, (i / 2 % 5) as usize);
            let tags = [[0u8, 1, 2], [0, 0, 0], [0, 0, 1], [0, 1, 1], [0, 1, 0]][v];
            let case = i;
            let mut c = 0;
            while i >= k.pow(c) { i -= k.pow(c); c += 1; }
            let l: Vec<(usize, usize, u8)> = digits(i, &vec![k; c as usize]).into_iter().enumerate().map(|(j, d)| (r[d as usize].0, r[d as usize].1, tags[j])).collect();
            if l.len() < 2 && v > 0 || l.len() == 2 && v > 1 { return Ok(()); }
            let (s, m) = if alike_symbols { alike(n) } else { base(n) };
            let from = m.clone();
            let fail = |e: String| format!("stream of {} symbols, case {}: {}", n, case, e);
            let q = apply_many(&s, &m, &l, ctx).map_err(&fail)?;
            ctx.trace();
            if let Some((s2, m2)) = q {
                unchanged_from(&m2, &from).map_err(&fail)?;
                ctx.state(&m2);
                ctx.outcome(&format!("{} tags, length {}", l.len(), m2.len()));
                for x in ranges(m2.len()) {
                    let (mut s3, mut m3) = (s2.clone(), m2.clone());
                    apply_one(&mut s3, &mut m3, x, if v > 0 { 0 } else { 9 }, ctx).map_err(&fail)?;
                    unchanged_from(&m3, &from).map_err(&fail)?;
                    ctx.state(&m3);
                }
            }
            Ok(())
        }));
    }
    // two rounds of with_tags, then a single tag; disjoint ranges of 6 symbols
    {
        let n = t.pick(5usize, 6);
        let k = 4u64.pow(n as u32);
        f.push(family("two-levels", format!("every way of laying tags on {} symbols at once (each symbol untagged, starting a tag, continuing one, or after an empty tag), then every way of laying tags on the result; all tags different and all the same", n), k * k * 2, move |i, ctx| {
            let (i, same_tags) = (i / 2, i % 2 == 1);
            let lay = |n: usize, code: u64, g: u8| -> Option<Vec<(usize, usize, u8)>> {
                let d = digits(code, &vec![4u64; n]);
                let mut l: Vec<(usize, usize, u8)> = vec![];
                let mut open = false;
                for (x, d) in d.iter().enumerate() {
                    match d {
                        0 => open = false,
                        1 => { l.push((x, x + 1, g + l.len() as u8)); open = true; }
                        2 => { if !open { return None; } l.last_mut().unwrap().1 = x + 1; }
                        _ => { l.push((x, x, g + l.len() as u8)); open = false; }
                    }
                }
                if same_tags { for x in l.iter_mut() { x.2 = 3; } }
                Some(l)
            };
            let (s, m) = if same_tags { alike(n) } else { base(n) };
            let from = m.clone();
            let a = match lay(n, i / k, 0) { Some(a) => a, None => return Ok(()) };
            let (s, m) = match apply_many(&s, &m, &a, ctx)? { Some(x) => x, None => return Err("an ordered list was refused".into()) };
            let len = m.len();
            if len <= n && i % k >= 4u64.pow(len as u32) { return Ok(()); }
            let b = match lay(len.min(n), i % k, 50) { Some(b) => b, None => return Ok(()) };
            let (s, m) = match apply_many(&s, &m, &b, ctx)? { Some(x) => x, None => return Err("an ordered list was refused".into()) };
            unchanged_from(&m, &from)?;
            ctx.state(&m);
            ctx.trace();
            let _ = s;
            Ok(())
        }));
    }
    // mixtures: single tag, many tags, single tag
    {
        let n = 4usize;
        let r0 = ranges(n);
        let k0 = r0.len() as u64;
        let k = ranges(n + 1).len() as u64;
        f.push(family("mixed", "a single tag, then two tags at once in any order, then a single tag, every choice of ranges of a stream of 4 symbols; all tags different and all the same".into(), k0 * k * k * 2, move |i, ctx| {
            let (i, g) = (i / 2, if i % 2 == 1 { [7; 4] } else { [1, 2, 3, 4] });
            let d = digits(i, &[k, k, k0]);
            let (mut s, mut m) = base(n);
            apply_one(&mut s, &mut m, r0[d[2] as usize], g[0], ctx)?;
            let r = ranges(m.len());
            if d[0] as usize >= r.len() || d[1] as usize >= r.len() { return Ok(()); }
            let (a, b) = (r[d[0] as usize], r[d[1] as usize]);
            if let Some((mut s2, mut m2)) = apply_many(&s, &m, &[(a.0, a.1, g[1]), (b.0, b.1, g[2])], ctx)? {
                for x in ranges(m2.len()) {
                    if (x.1 - x.0) % 2 == 1 { continue; }
                    let (mut s3, mut m3) = (s2.clone(), m2.clone());
                    apply_one(&mut s3, &mut m3, x, g[3], ctx)?;
                    unchanged(&m3, n)?;
                    ctx.state(&m3);
                }
                let l = m2.len();
                apply_one(&mut s2, &mut m2, (0, l), if g[0] == 7 { 7 } else { 5 }, ctx)?;
                unchanged(&m2, n)?;
            }
            ctx.trace();
            Ok(())
        }));
    }
    f.push(family("scaled", "streams of up to 3000 symbols with a tag of w symbols every k symbols, nested up to 40 levels".into(), 8 * 6 * 5, |i, ctx| {
        let d = digits(i, &[8, 6, 5]);
        let n = [1usize, 10, 64, 65, 200, 500, 1000, 3000][d[0] as usize];
        let k = [1usize, 2, 3, 7, 50, 256][d[1] as usize];
        let w = [0usize, 1, 2, 5, 49][d[2] as usize].min(k);
        let v: Vec<u16> = (0..n as u16).collect();
        let s: Stream<u16> = TaggedStream::from_reader(&mut v.read_symbols());
        let m: Vec<T<u16>> = v.iter().map(|b| T::U(*b)).collect();
        let l: Vec<(usize, usize, u8)> = (0..n / k).map(|x| (x * k, x * k + w, x as u8)).collect();
        let r = s.with_tags(l.iter().map(|x| (x.0..x.1, x.2)));
        // reference laid out directly
        let mut want = vec![];
        let mut at = 0;
        for (lo, hi, g) in &l { want.extend_from_slice(&m[at..*lo]); want.push(T::G(*g, m[*lo..*hi].to_vec())); at = *hi; }
        want.extend_from_slice(&m[at..]);
        same(&r, &want).map_err(|e| format!("{} symbols, {} tagged every {}: {}", n, w, k, &e[..e.len().min(1000)]))?;
        same(&s, &m).map_err(|e| e[..e.len().min(1000)].to_string())?;
        // nest
        let (mut s, mut m) = (r, want);
        for x in 0..40usize {
            let (lo, hi) = (x % m.len(), m.len().min(x % m.len() + 1 + x % 3));
            s.tag(x as u8, lo..hi);
            m = tag(&m, x as u8, lo, hi);
            ctx.step();
        }
        same(&s, &m).map_err(|e| e[..e.len().min(1000)].to_string())?;
        let mut got = vec![];
        expand(&m, &mut got);
        if got != v { return Err("symbols were lost".into()); }
        if let Untagged(_) = s[0] { if m.len() > 0 { if let T::G(..) = m[0] { return Err("tag missing".into()); } } }
        ctx.state(&(n, k, w));
        ctx.trace();
        Ok(())
    }));
    {
        let places = t.pick(vec![0usize, 1, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 8192, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 69_999, 70_000], vec![0usize, 1, 7, 254, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 69_999, 70_000]);
        let k = places.len() as u64;
        f.push(family("huge", format!("a stream of 70000 symbols with one or two tags at any pair of the places {:?}, or with a tag for each of the symbols; a further tag around, inside or beside them", places), k * k * 3, move |i, ctx| {
            let n = 70_000usize;
            let d = digits(i, &[3, k, k]);
            let (lo, hi) = (places[d[1] as usize], places[d[2] as usize]);
            if lo > hi { return Ok(()); }
            let v: Vec<u32> = (0..n as u32).collect();
            let s: Stream<u32> = TaggedStream::from_reader(&mut v.read_symbols());
            let m: Vec<T<u32>> = v.iter().map(|b| T::U(*b)).collect();
            let l: Vec<(usize, usize, u8)> = match d[0] {
                0 => vec![(lo, hi, 1)],
                1 => vec![(lo.min(1), lo, 1), (lo, hi, 2), (hi, n, 3)],
                _ => (lo..hi).map(|x| (x, x + 1, x as u8)).collect(),
            };
            let fail = |e: String| format!("70000 symbols, shape {} with {}..{}: {}", d[0], lo, hi, e);
            let mut r = s.with_tags(l.iter().map(|x| (x.0..x.1, x.2)));
            let mut want = with_tags(&m, &l);
            ctx.step();
            same_long(&r, &want).map_err(&fail)?;
            same_long(&s, &m).map_err(&fail)?;
            if d[0] == 0 {
                let mut one = s.clone();
                one.tag(1, lo..hi);
                if one != r { return Err(fail("tag and with_tags differ".into())); }
                if one == s { return Err(fail("a tagged stream equals the untagged one".into())); }
            }
            let (a, b) = (lo.min(want.len()), (lo + 2).min(want.len()));
            for (g, (a, b)) in [(a, b), (0, a), (a + 1, want.len().saturating_sub(2))].into_iter().enumerate() {
                if a > b || b > want.len() { continue; }
                r.tag(g as u8, a..b);
                want = tag(&want, g as u8, a, b);
                ctx.step();
                same_long(&r, &want).map_err(&fail)?;
            }
            let mut got = vec![];
            expand(&want, &mut got);
            if got != v { return Err(fail("symbols were lost".into())); }
            ctx.state(&(d[0], lo, hi));
            ctx.trace();
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C17", level: "model_checking", assumptions: vec!["ranges outside the stream or with start after end are not part of the property".into()], families })
}
