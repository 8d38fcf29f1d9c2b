//! C22: combining patterns combines their languages.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::product::*;
use mc::scale;
use mc::space::*;

fn axis() -> Axis<char> { Axis::new(vec!['a', 'b', 'c', 'd']) }

/// The library pattern must denote the language of the reference pattern
fn same(real: Pattern<char>, want: &P, ax: &Axis<char>, what: &dyn Fn() -> String, ctx: &mut Ctx) -> CaseResult {
    let ps = vec![(want.clone(), ())];
    let mut r = RefAutomaton::new(&ps);
    let shown = if ctx.want_sample { format!("{:?}", real) } else { String::new() };
    let dfa = real.prepare_to_match();
    let e = product(&dfa, ax, &mut r, fp(want), ctx).map_err(|e| format!("{} (language of {:?}): {}", what(), want, e))?;
    for w in e.access.iter().rev().take(4) { check_run(&dfa, ax, &mut r, w, ctx).map_err(|e| format!("{}: {}", what(), e))?; }
    ctx.trace();
    ctx.sample(|| format!("{}: {}", what(), shown));
    Ok(())
}

/// Operands of every form, with nested combinations
fn pool() -> Vec<P> {
    let a = || lit(&[0]);
    let b = || lit(&[1]);
    let bx = |p: P| Box::new(p);
    vec![
        P::Eps, lit(&[]), a(), b(), lit(&[0, 1]), lit(&[2, 0]), P::Range(0, 1), P::Range(2, 2),
        P::Inf(0, bx(a())), P::Inf(1, bx(b())), P::Inf(2, bx(P::Range(0, 1))), P::Inf(0, bx(lit(&[0, 1]))),
        P::Rep(0, 2, bx(a())), P::Rep(1, 3, bx(b())), P::Rep(2, 3, bx(lit(&[0, 1]))), P::Rep(0, 0, bx(a())), P::Rep(0, 1, bx(b())),
        P::All(vec![]), P::All(vec![a()]), P::All(vec![a(), P::Range(1, 2)]), P::All(vec![P::Inf(0, bx(a())), b(), lit(&[2])]), P::All(vec![P::All(vec![a(), b()]), lit(&[2])]),
        P::Any(vec![]), P::Any(vec![a()]), P::Any(vec![a(), lit(&[1, 2])]), P::Any(vec![P::Eps, b()]), P::Any(vec![P::Any(vec![a(), b()]), lit(&[0, 2])]), P::Any(vec![P::All(vec![a(), b()]), P::Inf(1, bx(lit(&[2])))]),
        P::All(vec![P::Any(vec![a(), b()]), P::Any(vec![P::Eps, a()])]),
        P::Inf(0, bx(P::Any(vec![a(), lit(&[1, 0])]))), P::Rep(1, 3, bx(P::All(vec![a(), P::Inf(0, bx(b()))]))),
    ]
}

fn append(p: &P, q: &P) -> P { P::All(vec![p.clone(), q.clone()]) }
fn or(p: &P, q: &P) -> P { P::Any(vec![p.clone(), q.clone()]) }

/// Every way of making a literal, on its own and as an operand
fn literal(w: &[u8], ax: &Axis<char>, ctx: &mut Ctx) -> CaseResult {
    let v = ax.string(w);
    let s: String = v.iter().collect();
    let second = [ax.syms[2], ax.syms[0]];
    let l = lit(w);
    let what = || format!("literal {:?}", s);
    same(exactly(&s[..]), &l, ax, &what, ctx)?;
    same(exactly(&v), &l, ax, &what, ctx)?;
    same(exactly(&v[..]), &l, ax, &what, ctx)?;
    same(v.to_pattern(), &l, ax, &what, ctx)?;
    same(v[..].to_pattern(), &l, ax, &what, ctx)?;
    same(s.to_pattern(), &l, ax, &what, ctx)?;
    same((&s[..]).into_pattern(), &l, ax, &what, ctx)?;
    same((&v[..]).into_pattern(), &l, ax, &what, ctx)?;
    let boxed = Box::new(exactly(&s[..]));
    same(boxed.to_pattern(), &l, ax, &what, ctx)?;
    same(exactly(boxed.clone()), &l, ax, &what, ctx)?;
    same(exactly(&boxed), &l, ax, &what, ctx)?;
    same(exactly(exactly(&s[..])), &l, ax, &what, ctx)?;
    same(exactly(&[ax.syms[1]][..]).append(&s[..]), &append(&lit(&[1]), &l), ax, &what, ctx)?;
    same(exactly(&[ax.syms[1]][..]).append(&v[..]), &append(&lit(&[1]), &l), ax, &what, ctx)?;
    same(exactly(&[ax.syms[1]][..]).append(&v), &append(&lit(&[1]), &l), ax, &what, ctx)?;
    same(exactly(&second[..]).or(&s[..]), &or(&lit(&[2, 0]), &l), ax, &what, ctx)?;
    same(exactly(&second[..]).or(&v[..]), &or(&lit(&[2, 0]), &l), ax, &what, ctx)?;
    same(exactly(&second[..]).or(&v), &or(&lit(&[2, 0]), &l), ax, &what, ctx)?;
    ctx.outcome("literal");
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let pool = pool();
    let n = pool.len() as u64;
    let mut f = vec![];
    f.push(family("scale", format!("{} kinds of patterns (literals, alternatives, sequences, repetitions, nestings) of every size of {:?} up to 1025, put together by append, or, repeat and repeat_forever from the left and from the right; inputs around every power of two", scale::KINDS, scale::SIZES), (scale::KINDS * scale::SIZES.len() * 2) as u64, move |i, ctx| {
        let how = [scale::How::Left, scale::How::Right][i as usize % 2];
        let i = i as usize / 2;
        let (kind, n) = (i / scale::SIZES.len(), scale::SIZES[i % scale::SIZES.len()]);
        let Some(b) = scale::big(kind, n, how) else { return Ok(()) };
        let dfa = b.p.clone().prepare_to_match();
        for (w, want) in &b.words {
            let got = matches_prepared(w, &dfa);
            ctx.trace();
            ctx.transitions += w.len() as u64;
            ctx.state(&(kind, n, w));
            if got != *want { return Err(format!("{}: an input of {} symbols that begins {:?}: {:?}, expected {:?}", b.name, w.len(), &w[..w.len().min(8)], got, want)); }
        }
        ctx.outcome("scale");
        Ok(())
    }));
    {
        // operands that are wrapped twice, so that parts of parts are of every form
        let inner = vec![lit(&[0]), lit(&[0, 1]), P::Range(0, 1), P::Eps, lit(&[])];
        let wraps = |x: &P| -> Vec<P> {
            let y = lit(&[1]);
            let b = || Box::new(x.clone());
            vec![P::All(vec![x.clone()]), P::Any(vec![x.clone()]), P::All(vec![x.clone(), y.clone()]), P::All(vec![y.clone(), x.clone()]),
                P::Any(vec![x.clone(), y.clone()]), P::Any(vec![y, x.clone()]), P::Inf(0, b()), P::Inf(1, b()), P::Rep(1, 2, b()), P::Rep(0, 3, b())]
        };
        let once: Vec<P> = inner.iter().flat_map(|x| wraps(x)).collect();
        let mut twice: Vec<P> = once.iter().flat_map(|x| wraps(x)).collect();
        let two = twice.len();
        twice.extend(inner[..t.pick(1usize, 5)].iter().map(|x| if t == Tier::Quick { lit(&[0, 1]) } else { x.clone() }).flat_map(|x| wraps(&x)).flat_map(|x| wraps(&x)).flat_map(|x| wraps(&x)).collect::<Vec<P>>());
        let mut others = vec![lit(&[]), P::Eps, lit(&[1]), lit(&[1, 2]), lit(&[0, 1, 2]), lit(&[2, 1, 1, 0]), P::Range(1, 2)];
        others.extend(once.clone());
        others.extend([lit(&[0]), lit(&[1, 2]), P::Range(0, 2)].iter().flat_map(|x| wraps(x)));
        let (a, b) = (twice.len() as u64, others.len() as u64);
        f.push(family("wrapped", format!("append and or, both ways round, of {} operands , {} of which are two wrappings (of 10) around one of 5 patterns and the rest three, with {} others: literals of up to four symbols, ranges, single wrappings", a, two, b), a, move |i, ctx| {
            let p = &twice[i as usize];
            let ax = axis();
            for q in &others {
                let (x, y) = (ax.pattern(p), ax.pattern(q));
                same(x.clone().append(y.clone()), &append(p, q), &ax, &|| format!("{:?} append {:?}", p, q), ctx)?;
                same(y.clone().append(x.clone()), &append(q, p), &ax, &|| format!("{:?} append {:?}", q, p), ctx)?;
                same(x.clone().or(y.clone()), &or(p, q), &ax, &|| format!("{:?} or {:?}", p, q), ctx)?;
                same(y.or(x), &or(q, p), &ax, &|| format!("{:?} or {:?}", q, p), ctx)?;
                ctx.trace();
            }
            Ok(())
        }));
    }
    {
        let pool = pool.clone();
        f.push(family("pairs", "append and or of every ordered pair of 31 operands of all forms; the second operand given by value, by reference and boxed".into(), n * n * 2 * 3, move |i, ctx| {
            let d = digits(i, &[3, 2, n, n]);
            let (p, q) = (&pool[d[2] as usize], &pool[d[3] as usize]);
            let ax = axis();
            let (x, y) = (ax.pattern(p), ax.pattern(q));
            let real = match (d[1], d[0]) {
                (0, 0) => x.append(y), (0, 1) => x.append(&y), (0, _) => x.append(Box::new(y)),
                (_, 0) => x.or(y), (_, 1) => x.or(&y), (_, _) => x.or(Box::new(y)),
            };
            let want = if d[1] == 0 { append(p, q) } else { or(p, q) };
            ctx.outcome(if d[1] == 0 { "append" } else { "or" });
            same(real, &want, &ax, &|| format!("{:?} {} {:?}", p, if d[1] == 0 { "append" } else { "or" }, q), ctx)
        }));
    }
    {
        let pool = pool.clone();
        f.push(family("chains", "(p op q) op r for every triple of operands and every choice of append and or".into(), n * n * n * 4, move |i, ctx| {
            let d = digits(i, &[2, 2, n, n, n]);
            let (p, q, r) = (&pool[d[2] as usize], &pool[d[3] as usize], &pool[d[4] as usize]);
            let ax = axis();
            let (x, y, z) = (ax.pattern(p), ax.pattern(q), ax.pattern(r));
            let (pq, w) = if d[0] == 0 { (x.append(y), append(p, q)) } else { (x.or(y), or(p, q)) };
            let (real, want) = if d[1] == 0 { (pq.append(z), append(&w, r)) } else { (pq.or(z), or(&w, r)) };
            same(real, &want, &ax, &|| format!("({:?} {} {:?}) {} {:?}", p, d[0], q, d[1], r), ctx)
        }));
    }
    {
        let pool = pool.clone();
        f.push(family("chains-right", "p op (q op r) for every triple of operands and every choice of append and or".into(), n * n * n * 4, move |i, ctx| {
            let d = digits(i, &[2, 2, n, n, n]);
            let (p, q, r) = (&pool[d[2] as usize], &pool[d[3] as usize], &pool[d[4] as usize]);
            let ax = axis();
            let (x, y, z) = (ax.pattern(p), ax.pattern(q), ax.pattern(r));
            let (qr, w) = if d[0] == 0 { (y.append(z), append(q, r)) } else { (y.or(z), or(q, r)) };
            let (real, want) = if d[1] == 0 { (x.append(qr), append(p, &w)) } else { (x.or(qr), or(p, &w)) };
            same(real, &want, &ax, &|| format!("{:?} {} ({:?} {} {:?})", p, d[1], q, d[0], r), ctx)
        }));
    }
    {
        let pool = pool.clone();
        let reps = t.pick(5u64, 7);
        f.push(family("repeats", format!("repeat(m..n) for m, n < {} and repeat_forever(m) of every operand, and of append/or of it with one more, followed by one more append or or", reps), n * reps * (reps + 1) * 9, move |i, ctx| {
            let d = digits(i, &[3, 3, reps + 1, reps, n]);
            let ax = axis();
            let p = &pool[d[4] as usize];
            let (m, k) = (d[3] as u32, d[2] as u32);
            let b = lit(&[1]);
            let mut x = ax.pattern(p);
            let mut w = p.clone();
            match d[0] { 1 => { x = x.append("b"); w = append(&w, &b); } 2 => { x = x.or("b"); w = or(&w, &b); } _ => {} }
            if k as u64 == reps { x = x.repeat_forever(m); w = P::Inf(m, Box::new(w)); } else { if m > k { return Ok(()); } x = x.repeat(m..k); w = P::Rep(m, k, Box::new(w)); }
            match d[1] { 1 => { x = x.append("a"); w = append(&w, &lit(&[0])); } 2 => { x = x.or("a"); w = or(&w, &lit(&[0])); } _ => {} }
            ctx.outcome(if k as u64 == reps { "repeat_forever" } else { "repeat" });
            same(x, &w, &ax, &|| format!("{:?} with tail {} repeated {}..{}, then {}", p, d[0], m, k, d[1]), ctx)
        }));
    }
    // repetitions of repetitions of repetitions
    {
        let bases = vec![lit(&[0]), lit(&[0, 1]), P::Eps, P::Any(vec![lit(&[0]), lit(&[1, 0])]), P::Range(0, 1), P::Any(vec![lit(&[0]), P::Eps])];
        let top = t.pick(4u32, 5);
        let mut reps: Vec<(u32, Option<u32>)> = vec![];
        for m in 0..=top { for n in m..=top { reps.push((m, Some(n))); } }
        for m in 0..4 { reps.push((m, None)); }
        let k = reps.len() as u64;
        f.push(family("nested-repeats", format!("every repetition of every repetition of every repetition of 6 patterns, each of the {} repetitions m..n with m <= n <= {} and m or more for m < 4; alone and followed by a literal", k, top), 6 * k * k * k, move |i, ctx| {
            let d = digits(i, &[6, k, k, k]);
            let ax = axis();
            let mut w = bases[d[0] as usize].clone();
            let mut x = ax.pattern(&w);
            let mut copies = 1;
            for j in 1..4 {
                let (m, n) = reps[d[j] as usize];
                copies *= n.unwrap_or(m + 2);
                match n {
                    Some(n) => { x = x.repeat(m..n); w = P::Rep(m, n, Box::new(w)); }
                    None => { x = x.repeat_forever(m); w = P::Inf(m, Box::new(w)); }
                }
            }
            if copies > 40 { return Ok(()); }
            same(x.clone(), &w, &ax, &|| format!("{:?}", w), ctx)?;
            let tail = x.append("ab");
            same(tail, &append(&w, &lit(&[0, 1])), &ax, &|| format!("{:?} then ab", w), ctx)
        }));
    }
    // all call sequences on small operands
    {
        let depth = t.pick(5usize, 6);
        let ops = 9u64;
        f.push(family("sequences", format!("every sequence of {} calls from append(a), append(eps), append([a|b]), append(ab+), or(b), or(eps), or(any(a, bc)), repeat(1..3), repeat_forever(0), starting from 4 patterns", depth), ops.pow(depth as u32) * 4, move |i, ctx| {
            let ax = axis();
            let (mut x, mut w) = match i % 4 { 0 => (exactly("c"), lit(&[2])), 1 => (Pattern::Epsilon, P::Eps), 2 => (Pattern::MatchAll(vec![]), P::All(vec![])), _ => (Pattern::MatchAny(vec![]), P::Any(vec![])) };
            let s = seq(i / 4, ops, depth);
            if s.iter().filter(|o| **o == 7).count() > 2 { return Ok(()); }
            for o in &s {
                match o {
                    0 => { x = x.append("a"); w = append(&w, &lit(&[0])); }
                    1 => { x = x.append(Pattern::Epsilon); w = append(&w, &P::Eps); }
                    2 => { x = x.append(Pattern::MatchAny(vec![exactly("a"), exactly("b")])); w = append(&w, &P::Any(vec![lit(&[0]), lit(&[1])])); }
                    3 => { let q = P::All(vec![lit(&[0]), P::Inf(1, Box::new(lit(&[1])))]); x = x.append(ax.pattern(&q)); w = append(&w, &q); }
                    4 => { x = x.or("b"); w = or(&w, &lit(&[1])); }
                    5 => { x = x.or(Pattern::Epsilon); w = or(&w, &P::Eps); }
                    6 => { let q = P::Any(vec![lit(&[0]), lit(&[1, 2])]); x = x.or(ax.pattern(&q)); w = or(&w, &q); }
                    7 => { x = x.repeat(1..3); w = P::Rep(1, 3, Box::new(w)); }
                    _ => { x = x.repeat_forever(0); w = P::Inf(0, Box::new(w)); }
                }
            }
            same(x, &w, &ax, &|| format!("start {}, calls {:?}", i % 4, s), ctx)
        }));
    }
    // literals that share beginnings
    for (name, k, most, n) in t.pick(vec![("words-3", 2u64, 3u32, 3usize), ("words-4", 2, 2, 4)], vec![("words-3", 3, 3, 3), ("words-4", 2, 3, 4)]) {
        let one = string_count(k, most);
        f.push(family(name, format!("every list of {} literals of up to {} symbols over {}, joined by or from the left, by or from the right, by or and then append, and by append and then or", n, most, k), one.pow(n as u32) * 4, move |i, ctx| {
            let ax = axis();
            let l: Vec<Vec<u8>> = seq(i / 4, one, n).into_iter().map(|x| string(k, x as u64)).collect();
            let real = |w: &[u8]| exactly(&ax.string(w)[..]);
            let (x, w) = match i % 4 {
                0 => (l[1..].iter().fold(real(&l[0]), |x, y| x.or(&ax.string(y)[..])), l[1..].iter().fold(lit(&l[0]), |w, y| or(&w, &lit(y)))),
                1 => (l[..n - 1].iter().rev().fold(real(&l[n - 1]), |x, y| real(y).or(x)), l[..n - 1].iter().rev().fold(lit(&l[n - 1]), |w, y| or(&lit(y), &w))),
                2 => (l[1..n - 1].iter().fold(real(&l[0]), |x, y| x.or(&ax.string(y)[..])).append(real(&l[n - 1])), append(&l[1..n - 1].iter().fold(lit(&l[0]), |w, y| or(&w, &lit(y))), &lit(&l[n - 1]))),
                _ => (l[2..].iter().fold(real(&l[0]).append(&ax.string(&l[1])[..]), |x, y| x.or(real(y))), l[2..].iter().fold(append(&lit(&l[0]), &lit(&l[1])), |w, y| or(&w, &lit(y)))),
            };
            same(x, &w, &ax, &|| format!("literals {:?}, way {}", l, i % 4), ctx)
        }));
    }
    // lists put together from lists
    {
        let len = t.pick(2u32, 3);
        let k = string_count(8, len);
        f.push(family("lists", format!("every list of up to {} of 8 small patterns over neighbouring symbols joined to every other such list: alternatives to alternatives, sequences to sequences, either to the other, by or and by append", len), k * k * 8, move |i, ctx| {
            let d = digits(i, &[2, 2, 2, k, k]);
            let items = Bank::items();
            let list = |j: u64, any: bool| { let l: Vec<P> = string(8, j).into_iter().map(|x| items[x as usize].clone()).collect(); if any { P::Any(l) } else { P::All(l) } };
            let ax = Axis::new(vec!['a', 'b', 'c', 'd', 'e']);
            let (p, q) = (list(d[3], d[1] == 0), list(d[4], d[2] == 0));
            let (x, w) = if d[0] == 0 { (ax.pattern(&p).or(ax.pattern(&q)), or(&p, &q)) } else { (ax.pattern(&p).append(&ax.pattern(&q)), append(&p, &q)) };
            same(x, &w, &ax, &|| format!("{:?} {} {:?}", p, ["or", "append"][d[0] as usize], q), ctx)
        }));
    }
    // conversions
    {
        let len = t.pick(6u32, 8);
        f.push(family("literals", format!("every literal of up to {} symbols over 3, from str, slice, vector, Vec reference and boxed pattern, through exactly, into_pattern, to_pattern and as second operand", len), string_count(3, len), |i, ctx| literal(&string(3, i), &axis(), ctx)));
        let (ax, len) = (text_axis(), t.pick(2u32, 3));
        let k = ax.len() as u32;
        f.push(family("texts", format!("every literal of up to {} characters over {} that text handling might treat specially (controls, blanks, case pairs, combining and order marks, UTF-8 and UTF-16 boundaries), in the same ways", len, k), string_count(k as u64, len), move |i, ctx| literal(&string(k as u64, i), &ax, ctx)));
    }
    {
        let pool = pool.clone();
        f.push(family("pattern-conversions", "every operand through to_pattern, into_pattern, exactly, and boxes of it: the same language and an equal pattern".into(), n, move |i, ctx| {
            let ax = axis();
            let p = &pool[i as usize];
            let x = ax.pattern(p);
            let what = || format!("conversion of {:?}", p);
            for y in vec![x.to_pattern(), x.clone().into_pattern(), (&x).into_pattern(), exactly(&x), exactly(x.clone()), Box::new(x.clone()).to_pattern(), Box::new(x.clone()).into_pattern()] {
                if y != x { return Err(format!("{}: {:?}", what(), y)); }
                same(y, p, &ax, &what, ctx)?;
            }
            Ok(())
        }));
    }
    f.push(family("scaled", "chains of k appends, of k alternatives, of k literals, and of alternating calls, k up to 300".into(), 14 * 5, |i, ctx| {
        let k = [1usize, 2, 3, 7, 8, 15, 16, 31, 32, 33, 64, 65, 128, 300][(i % 14) as usize];
        let ax = axis();
        let (mut x, mut w) = (exactly("a"), lit(&[0]));
        let mut parts = vec![w.clone()];
        for j in 0..k {
            let c = (j % 3) as u8;
            match i / 14 {
                0 => { x = x.append(&ax.string(&[c])); parts.push(lit(&[c])); }
                1 => { x = x.or(&ax.string(&vec![c; j % 20 + 1])); parts.push(lit(&vec![c; j % 20 + 1])); }
                2 => { x = x.append(Pattern::MatchRange('a', ax.syms[c as usize])); parts.push(P::Range(0, c)); }
                3 => { x = x.append(exactly(&ax.string(&[c, 1])[..]).repeat(0..2)); parts.push(P::Rep(0, 2, Box::new(lit(&[c, 1])))); if j > 14 { break; } }
                _ => { if j % 2 == 0 { x = x.append("b"); w = append(&w, &lit(&[1])); } else { x = x.or("c"); w = or(&w, &lit(&[2])); } if j > 60 { break; } }
            }
        }
        let w = match i / 14 { 1 => P::Any(parts), 4 => w, _ => P::All(parts) };
        ctx.outcome("scaled");
        same(x, &w, &ax, &|| format!("chain {} of {}", i / 14, k), ctx)
    }));
    f
}

fn main() {
    mc::engine::main(Check { property: "C22", level: "model_checking", assumptions: vec!["operands outside the pool are covered by the sequences family and by C01 (languages of all small patterns)".into()], families })
}
