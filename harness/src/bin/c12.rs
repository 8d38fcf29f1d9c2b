//! C12: a built range DFA follows exactly the transitions it was given.
use concordance::*;
use mc::engine::*;
use mc::machine::odds;
use mc::model::*;
use mc::product::*;
use mc::space::*;

/// One state as it is described to the builder
#[derive(Clone, Debug)]
enum Call<S: Ord> { T(SymbolRange<S>, u32), A(u8) }

/// Reference: per state and axis symbol the target, and the output
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model { next: Vec<Vec<Option<u32>>>, out: Vec<Option<u8>> }

impl Model {
    fn run(&self, w: &[u8]) -> Option<(usize, u8)> {
        let mut s = 0usize;
        let mut best = self.out[0].map(|o| (0, o));
        for (i, c) in w.iter().enumerate() {
            match self.next[s][*c as usize] {
                None => break,
                Some(t) => s = t as usize,
            }
            if let Some(o) = self.out[s] { best = Some((i + 1, o)); }
        }
        best
    }
}

fn build<S: Sym>(states: &[Vec<Call<S>>]) -> SymbolRangeDfa<S, u8> {
    let mut b = SymbolRangeDfaBuilder::new();
    for st in states {
        b.start_state();
        for c in st {
            match c { Call::T(r, t) => b.transition(r.clone(), *t), Call::A(o) => b.accept(*o) }
        }
    }
    b.build()
}

fn model<S: Sym>(states: &[Vec<Call<S>>], axis: &Axis<S>) -> Model {
    let mut m = Model { next: vec![], out: vec![] };
    for st in states {
        let mut row = vec![None; axis.len()];
        let mut o = None;
        for c in st {
            match c {
                Call::A(x) => o = Some(*x),
                Call::T(r, t) => for (i, s) in axis.syms.iter().enumerate() { if r.lowest <= *s && *s <= r.highest { row[i] = Some(*t); } },
            }
        }
        m.next.push(row);
        m.out.push(o);
    }
    m
}

/// Steps by hand; an early final result is fine as long as it is the right one
fn step_by_hand<S: Sym>(d: &SymbolRangeDfa<S, u8>, w: &[S]) -> Option<(usize, u8)> {
    let mut a = d.start();
    for s in w {
        a = match a { More(st) => st.next(s.clone()), done => done };
    }
    match a { More(st) => a = st.finish(), _ => {} }
    match a { Accept(n, o) => Some((n, *o)), Reject => None, More(_) => Some((usize::MAX, 255)) }
}

/// The numbers of states and transitions that the description in words gives are the right ones (its wording is its own affair)
fn described<S: Sym>(d: &SymbolRangeDfa<S, u8>) -> Result<(), String> {
    let text = d.description();
    let transitions: usize = (0..d.count_states()).map(|s| d.get_transitions_for_state(s).len()).sum();
    let words: Vec<&str> = text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).collect();
    for (k, w) in words.iter().enumerate() {
        let Ok(n) = w.parse::<u64>() else { continue };
        // what the number counts: the first of these words before the next number
        let of = words[k + 1..].iter().take_while(|w| w.parse::<u64>().is_err()).find(|w| ["state", "states", "transition", "transitions"].contains(w));
        let right = match of { Some(w) if w.starts_with("state") => d.count_states() as u64, Some(_) => transitions as u64, None => n };
        if n != right { return Err(format!("described as {:?}; it has {} states and {} transitions", text, d.count_states(), transitions)); }
    }
    Ok(())
}

fn check<S: Sym>(states: &[Vec<Call<S>>], axis: &Axis<S>, words: &[Vec<u8>], ctx: &mut Ctx) -> CaseResult {
    let d = build(states);
    let m = model(states, axis);
    let fail = |e: String| format!("states described as {:?}\n{}", states.iter().take(6).map(|s| s.iter().take(12).collect::<Vec<_>>()).collect::<Vec<_>>(), e);
    if d.count_states() as usize != states.len() { return Err(fail(format!("{} states, expected {}", d.count_states(), states.len()))); }
    described(&d).map_err(|e| fail(e))?;
    let t = table(&d, axis).map_err(|e| fail(e))?;
    for s in 0..states.len() {
        for c in 0..axis.len() {
            ctx.step();
            if t[s][c] != m.next[s][c] { return Err(fail(format!("state {} goes to {:?} on {:?}, expected {:?}", s, t[s][c], axis.syms[c], m.next[s][c]))); }
        }
        if d.output_symbol_for_state(s as u32).cloned() != m.out[s] { return Err(fail(format!("state {} has output {:?}, expected {:?}", s, d.output_symbol_for_state(s as u32), m.out[s]))); }
    }
    ctx.state(&m);
    for w in words {
        let want = m.run(w);
        let text = axis.string(w);
        let real = run_real(&d, &text)?;
        ctx.trace();
        if real != want { return Err(fail(format!("input {:?}: match_pattern reports {:?}, expected {:?}", text, real, want))); }
        let real = step_by_hand(&d, &text);
        if real != want { return Err(fail(format!("input {:?}: stepping by hand gives {:?}, expected {:?}", text, real, want))); }
    }
    ctx.outcome(&format!("{} states, {} outputs, {} defined steps", states.len(), m.out.iter().filter(|x| x.is_some()).count(), m.next.iter().flatten().filter(|x| x.is_some()).count()));
    ctx.sample(|| format!("{:?}", states));
    Ok(())
}

/// Number of ways to describe one state over k dense symbols with n target states
fn variants(k: usize, n: u64, acc: u64) -> u64 { (n + 1).pow(k as u32) * (1 << (k - 1)) * acc }

/// The idx-th description; None when the break flags are redundant
fn describe<S: Sym>(dense: &[S], n: u64, acc: u64, idx: u64) -> Option<Vec<Call<S>>> {
    let k = dense.len();
    let mut radix = vec![n + 1; k];
    radix.push(1 << (k - 1));
    radix.push(acc);
    let d = digits(idx, &radix);
    let br = d[k];
    let mut calls: Vec<Call<S>> = vec![];
    let mut prev: Option<usize> = None; // index in calls of the range that ends just before
    for i in 0..k {
        if d[i] == 0 {
            if i > 0 && br >> (i - 1) & 1 == 1 { return None; }
            prev = None;
            continue;
        }
        let t = d[i] as u32 - 1;
        let flag = i > 0 && br >> (i - 1) & 1 == 1;
        if let Some(p) = prev {
            if let Call::T(ref mut r, t0) = calls[p] {
                if t0 == t {
                    if !flag { r.highest = dense[i].clone(); continue; }
                } else if flag { return None; }
            }
        } else if flag { return None; }
        calls.push(Call::T(SymbolRange::new(dense[i].clone(), dense[i].clone()), t));
        prev = Some(calls.len() - 1);
    }
    match d[k + 1] {
        0 => {}
        1 => calls.insert(0, Call::A(1)),
        2 => calls.push(Call::A(2)),
        3 => { let at = calls.len() / 2; calls.insert(at, Call::A(1)); calls.push(Call::A(0)); }
        _ => { let at = (calls.len() + 1) / 2; calls.insert(at, Call::A(3)); }
    }
    Some(calls)
}

/// Machines of 2 states over a dense part of the axis (indices lo..lo+k)
fn two<S: Sym>(name: &str, axis: Axis<S>, lo: usize, k: usize, acc: u64, len: u32) -> Family {
    let v = variants(k, 2, acc);
    let words: Vec<Vec<u8>> = strings(axis.len() as u64, len);
    family(name, format!("every description of 2 states over the neighbouring symbols {:?}: every assignment of targets, every way to break runs into adjoining ranges, {} placements of outputs (none, first, last, set twice, in between); all inputs up to {} symbols over {:?}", &axis.syms[lo..lo + k], acc, len, axis.syms), v * v, move |i, ctx| {
        let dense = &axis.syms[lo..lo + k];
        let (a, b) = match (describe(dense, 2, acc, i / v), describe(dense, 2, acc, i % v)) { (Some(a), Some(b)) => (a, b), _ => return Ok(()) };
        check(&[a, b], &axis, &words, ctx)
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    // one state, long runs of adjoining ranges
    f.push({
        let axis = Axis::new((250..=255u8).collect());
        let k = 6;
        let v = variants(k, 2, 5);
        let words = strings(6, 2);
        family("one-state", "every description of state 0 over the six symbols 250..=255 with targets 0 and 1 (all breaks, all output placements); state 1 loops with output 9".into(), v, move |i, ctx| {
            match describe(&axis.syms[..k], 2, 5, i) {
                None => Ok(()),
                Some(a) => check(&[a, vec![Call::A(9), Call::T(SymbolRange::new(251, 253), 1)]], &axis, &words, ctx),
            }
        })
    });
    f.push(two("two-top-u8", Axis::new(vec![0u8, 100, 253, 254, 255]), 2, 3, 5, 2));
    f.push(two("two-bottom-u8", Axis::new(vec![0u8, 1, 2, 3, 255]), 0, 3, 4, 2));
    f.push(two("two-i8-zero", Axis::new(vec![-128i8, -2, -1, 0, 1, 127]), 2, 3, 3, 2));
    f.push(two("two-i8-bottom", Axis::new(vec![-128i8, -127, -126, 127]), 0, 3, 3, 2));
    f.push(two("two-char-gap", Axis::new(vec!['a', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}']), 2, 3, 3, 2));
    f.push(two("two-char-top", Axis::new(vec!['\0', '\u{10fffd}', '\u{10fffe}', '\u{10ffff}']), 1, 3, 3, 2));
    f.push(two("two-u64-top", Axis::new(vec![0u64, u64::MAX - 2, u64::MAX - 1, u64::MAX]), 1, 3, 2, 2));
    f.push(two("two-i64-bottom", Axis::new(vec![i64::MIN, i64::MIN + 1, i64::MIN + 2, i64::MAX]), 0, 3, 2, 2));
    f.push(two("two-long-inputs", Axis::new(vec![10u8, 11, 12]), 0, 2, 5, t.pick(6, 8)));
    f.push({
        let axis = Axis::new(vec![10u8, 11, 12]);
        let acc = t.pick(3, 5);
        let v = variants(2, 3, acc);
        let words = strings(3, 4);
        family("three", format!("every description of 3 states over 2 neighbouring symbols, {} output placements; all inputs up to 4 symbols", acc), v * v * v, move |i, ctx| {
            let d = digits(i, &[v, v, v]);
            let mut st = vec![];
            for x in d { match describe(&axis.syms[0..2], 3, acc, x) { Some(s) => st.push(s), None => return Ok(()) } }
            check(&st, &axis, &words, ctx)
        })
    });
    // ranges with gaps: arbitrary pairs of disjoint ranges
    f.push({
        let axis = Axis::new(vec![0u8, 1, 2, 3, 60, 61, 62, 254, 255]);
        let mut r = vec![];
        for a in 0..9usize { for b in a..9 { r.push((a, b)); } }
        let k = r.len() as u64;
        let words = strings(9, 2);
        family("gaps", "state 0 with every pair of disjoint ascending ranges over 9 spread symbols x 9 target pairs x output of the three states".into(), k * k * 9 * 4, move |i, ctx| {
            let d = digits(i, &[3, 3, 4, k, k]);
            let (a, b) = (r[d[3] as usize], r[d[4] as usize]);
            if a.1 >= b.0 { return Ok(()); }
            let s = |x: usize| axis.syms[x];
            let mut st = vec![
                vec![Call::T(SymbolRange::new(s(a.0), s(a.1)), d[0] as u32), Call::T(SymbolRange::new(s(b.0), s(b.1)), d[1] as u32)],
                vec![Call::A(1), Call::T(SymbolRange::new(s(a.1), s(b.0)), 2)],
                vec![],
            ];
            if d[2] & 1 == 1 { st[0].push(Call::A(7)); }
            if d[2] & 2 == 2 { st[2].push(Call::A(0)); }
            check(&st, &axis, &words, ctx)
        })
    });
    // empty states anywhere
    f.push(family("empty-states", "0 to 6 states, each empty, with an output only, or with one transition only (3^n), for every n".into(), (0..=6u32).map(|n| 3u64.pow(n)).sum(), |mut i, ctx| {
        let mut n = 0u32;
        while i >= 3u64.pow(n) { i -= 3u64.pow(n); n += 1; }
        let d = digits(i, &vec![3; n as usize]);
        let axis = Axis::new(vec![5u8, 6, 7]);
        let st: Vec<Vec<Call<u8>>> = d.iter().enumerate().map(|(s, x)| match x { 0 => vec![], 1 => vec![Call::A(s as u8)], _ => vec![Call::T(SymbolRange::new(5, 6), (s as u32 + 1) % n)] }).collect();
        if n == 0 {
            let d = build(&st);
            return if d.count_states() == 0 { Ok(()) } else { Err("a machine with no states reports states".into()) };
        }
        check(&st, &axis, &strings(3, 4), ctx)
    }));
    f.push(family("grown", "k single-symbol transitions per state with the target changing every j symbols (k up to 256, j up to 32), in 1..=300 states; rings of up to 70000 states; inputs that visit every state".into(), 9 * 8 * 5 + 6, |i, ctx| {
        if i >= 360 {
            let n = [1000usize, 4096, 32768, 65535, 65536, 70000][(i - 360) as usize];
            let st: Vec<Vec<Call<u8>>> = (0..n).map(|s| {
                let mut v = vec![Call::T(SymbolRange::new(1, 1), ((s + 1) % n) as u32), Call::T(SymbolRange::new(2, 2), ((s + 1) % n) as u32), Call::T(SymbolRange::new(3, 3), (s / 2) as u32)];
                if s % 1000 == 999 { v.push(Call::A((s / 1000) as u8)); }
                v
            }).collect();
            let axis = Axis::new(vec![1u8, 2, 3, 4]);
            let mut w: Vec<u8> = (0..n + 500).map(|x| (x % 2) as u8).collect();
            w[n + 10] = 2;
            w[n + 490] = 3;
            return check(&st, &axis, &[w.clone(), w[..n / 2].to_vec()], ctx);
        }
        let d = digits(i, &[9, 8, 5]);
        let k = [1usize, 2, 3, 16, 127, 128, 200, 255, 256][d[0] as usize];
        let j = [1usize, 2, 3, 5, 8, 16, 32, 300][d[1] as usize];
        let n = [1usize, 2, 7, 100, 300][d[2] as usize];
        let axis = Axis::new((0..=248u8).map(|x| if x < 248 { x } else { 255 }).collect());
        let st: Vec<Vec<Call<u8>>> = (0..n).map(|s| {
            let mut v: Vec<Call<u8>> = (0..k).map(|c| Call::T(SymbolRange::new(c as u8, c as u8), ((s + 1 + c / j) % n) as u32)).collect();
            if s % 3 == 2 { v.insert(k / 2, Call::A((s % 200) as u8)); }
            v
        }).collect();
        let mut words = vec![];
        for m in [1usize, 3, 7, 31] { words.push((0..200).map(|x| ((x * m) % k.min(248)) as u8).collect::<Vec<u8>>()); }
        words.push(vec![248]);
        check(&st, &axis, &words, ctx)
    }));
    f.push(family("wide", format!("machines of 4 states with {:?} transitions each", WIDE), WIDE.len() as u64, |i, ctx| wide_probe(&wide_dfa(WIDE[i as usize]), WIDE[i as usize], ctx)));
    {
        let odds = odds(t.pick(40, 120));
        f.push(family("odd-one-out", "machines with up to 240 transitions in a state or up to 1030 states in a row of which exactly one differs: in target, by being missing, in having or lacking an output; every place; described by hand with the output first or last".into(), odds.len() as u64 * 2, move |i, ctx| {
            let o = odds[i as usize / 2];
            let (rows, outs) = o.rows();
            let st: Vec<Vec<Call<u16>>> = rows.iter().zip(&outs).map(|(r, out)| {
                let mut v: Vec<Call<u16>> = r.iter().map(|(c, to)| Call::T(o.range(*c), *to)).collect();
                if let Some(out) = out { if i % 2 == 0 { v.insert(0, Call::A(*out)) } else { v.push(Call::A(*out)) } }
                v
            }).collect();
            let axis = o.axis();
            let mut words: Vec<Vec<u8>> = (0..axis.len() as u8).map(|c| vec![c, if o.gap { 1 } else { 0 }, if o.gap { 1 } else { 0 }]).collect();
            if o.variant >= 5 { words = vec![vec![words[0][1]; o.n + 2]]; }
            check(&st, &axis, &words, ctx).map_err(|e| format!("{:?}\n{}", o, e.chars().take(3000).collect::<String>()))
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C12", level: "model_checking", assumptions: vec!["the caller keeps the builder's contract (states started in order, ascending disjoint ranges, targets that exist)".into()], families })
}
