//! C21: a stored matcher behaves identically after being loaded.
use concordance::*;
use mc::engine::*;
use mc::machine::odds;
use mc::model::*;
use mc::product::*;
use mc::space::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::any::TypeId;
use std::fmt::Debug;

fn round_trips<T: Serialize + DeserializeOwned>(x: &T) -> Result<Vec<(&'static str, T)>, String> {
    let j = serde_json::to_string(x).map_err(|e| format!("cannot be written as JSON: {}", e))?;
    let a: T = serde_json::from_str(&j).map_err(|e| format!("cannot be loaded from JSON: {}: {}", e, &j[..j.len().min(500)]))?;
    let p = serde_json::to_vec_pretty(x).map_err(|e| format!("pretty JSON: {}", e))?;
    let b: T = serde_json::from_slice(&p).map_err(|e| format!("cannot be loaded from pretty JSON: {}", e))?;
    let v = serde_json::to_value(x).map_err(|e| format!("JSON value: {}", e))?;
    let c: T = serde_json::from_value(v).map_err(|e| format!("cannot be loaded from a JSON value: {}", e))?;
    let y = bincode::serialize(x).map_err(|e| format!("cannot be written as bincode: {}", e))?;
    let d: T = bincode::deserialize(&y).map_err(|e| format!("cannot be loaded from bincode: {}", e))?;
    let y2 = bincode::serialize(&a).map_err(|e| format!("bincode of the one loaded from JSON: {}", e))?;
    let e: T = bincode::deserialize_from(&y2[..]).map_err(|e| format!("JSON then bincode: {}", e))?;
    Ok(vec![("JSON", a), ("pretty JSON", b), ("JSON value", c), ("bincode", d), ("JSON then bincode", e)])
}

fn view<S: Sym, O: Clone>(d: &SymbolRangeDfa<S, O>) -> Vec<(Vec<(S, S, u32)>, Option<O>)> {
    (0..d.count_states()).map(|s| (d.get_transitions_for_state(s).into_iter().map(|(r, t)| (r.lowest, r.highest, t)).collect(), d.output_symbol_for_state(s).cloned())).collect()
}

fn check_dfa<S: Sym + Serialize + DeserializeOwned, O: Ord + Clone + Debug + Serialize + DeserializeOwned + 'static>(d: &SymbolRangeDfa<S, O>, axis: &Axis<S>, words: &[Vec<u8>], ctx: &mut Ctx) -> CaseResult {
    let before = view(d);
    for (how, l) in round_trips(d)? {
        ctx.step();
        let after = view(&l);
        // Recorded finding (family json-unit-output): JSON writes the unit output `Some(())` the
        // way it writes `None`. Only exactly that loss is set aside here; the same patterns are
        // also stored with an output that JSON can tell from none.
        if TypeId::of::<O>() == TypeId::of::<()>() && how != "bincode" && after.iter().all(|s| s.1.is_none()) && after.iter().zip(&before).all(|(a, b)| a.0 == b.0) && after.len() == before.len() { continue; }
        if after != before { return Err(format!("loaded from {}: {:?}, stored {:?}", how, after, before)); }
        for w in words {
            let v = axis.string(w);
            let (a, b) = (run_real(d, &v)?, run_real(&l, &v)?);
            ctx.trace();
            if a != b { return Err(format!("loaded from {}: input {:?} gives {:?}, before storing {:?}", how, v, b, a)); }
        }
    }
    if view(d) != before { return Err("storing changed the matcher".into()); }
    ctx.state(&format!("{:?}", before));
    ctx.outcome(&format!("{} states", before.len()));
    ctx.sample(|| format!("{:?}", before));
    Ok(())
}

fn patterns<S: Sym + Serialize + DeserializeOwned>(name: &str, axis: Axis<S>, m: [u8; 3], size: usize, len: u32) -> Family {
    let g = Grammar::new(atoms3(m[0], m[1], m[2]), unaries(), false, size);
    let words: Vec<Vec<u8>> = strings(3, len).into_iter().map(|w| w.into_iter().map(|c| m[c as usize]).collect()).chain((0..axis.len() as u8).map(|c| vec![c])).collect();
    family(name, format!("every pattern of at most {} nodes over {:?} prepared, stored and loaded through 5 routes; all inputs of up to {} symbols and every representative symbol", size, axis.string(&m), len), g.total(), move |i, ctx| {
        let p = g.get(i);
        let d = axis.pattern(&p).prepare_to_match();
        check_dfa(&d, &axis, &words, ctx).map_err(|e| format!("pattern {:?}: {}", axis.pattern(&p), e))?;
        let mut t = TokenMatcher::new();
        t.add_pattern(axis.pattern(&p), 7u16);
        check_dfa(&t.prepare_to_match(), &axis, &words, ctx).map_err(|e| format!("pattern {:?} as token 7: {}", axis.pattern(&p), e))
    })
}

fn ranges<S: Sym + Serialize + DeserializeOwned>(name: &str, axis: Axis<S>) -> Family {
    let n = axis.len() as u64;
    family(name, format!("every range over {:?}", axis.syms), n * n, move |i, ctx| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        if a > b { return Ok(()); }
        let r = SymbolRange::new(axis.syms[a].clone(), axis.syms[b].clone());
        for (how, l) in round_trips(&r)? {
            ctx.step();
            if l != r || l.lowest != r.lowest || l.highest != r.highest { return Err(format!("{:?} came back from {} as {:?}", r, how, l)); }
            for s in &axis.syms { if l.includes(s) != r.includes(s) { return Err(format!("{:?} from {}: includes({:?})", r, how, s)); } }
        }
        ctx.trace();
        ctx.state(&(axis.syms[a].clone(), axis.syms[b].clone()));
        Ok(())
    })
}

/// Ranges from one to another of the places where a narrower representation of the symbols ends
fn windows<S: Sym + Serialize + DeserializeOwned>(name: &str, w: Vec<Vec<S>>) -> Family { ranges(name, Axis::new(window_ends(&w))) }

/// Matchers over them
fn window_patterns<S: Sym + Serialize + DeserializeOwned>(name: &str, w: Vec<Vec<S>>) -> Family {
    let axis = Axis::new(window_ends(&w));
    let n = axis.len() as u64;
    family(&name.replace("windows", "between"), format!("a range or literal from one to another of {} symbols (around zero, powers of two and their negatives, the ends of the type), followed by another symbol: prepared, stored and loaded; every symbol", n), n * n, move |i, ctx| {
        let (a, b) = ((i / n) as u8, (i % n) as u8);
        let p = if a > b { lit(&[a, b]) } else { P::All(vec![P::Range(a, b), lit(&[b])]) };
        let words: Vec<Vec<u8>> = (0..n as u8).map(|c| vec![c, b]).chain([vec![a, b, a], vec![b, b], vec![a]]).collect();
        let d = axis.pattern(&p).prepare_to_match();
        let mut t = TokenMatcher::new();
        t.add_pattern(axis.pattern(&p), 7u16);
        if i % 16 == 0 { check_dfa(&d, &axis, &words, ctx)?; }
        check_dfa(&t.prepare_to_match(), &axis, &words, ctx).map_err(|e| format!("pattern {:?}: {}", axis.pattern(&p), e))
    })
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![
        ranges("range-u8", axis_u8()), ranges("range-i8", axis_i8()), ranges("range-i16", axis_i16()), ranges("range-u16", axis_u16()), ranges("range-i32", axis_i32()), ranges("range-u32", axis_u32()),
        ranges("range-i64", axis_i64()), ranges("range-u64", axis_u64()), ranges("range-isize", axis_isize()), ranges("range-usize", axis_usize()), ranges("range-char", axis_char()),
        patterns("patterns-u8", axis_u8(), [0, 1, 7], t.pick(4, 5), 3),
        patterns("patterns-char", axis_char(), [4, 5, 10], t.pick(3, 4), 3),
        patterns("patterns-i64", axis_i64(), [0, 3, 6], t.pick(3, 4), 3),
        patterns("patterns-u64", axis_u64(), [0, 3, 6], 3, 3),
        patterns("patterns-usize", axis_usize(), [0, 3, 6], 3, 3),
        patterns("patterns-i16", axis_i16(), [0, 3, 6], 3, 3),
    ];
    mc::every_window!(windows, f);
    mc::every_window!(window_patterns, f);
    f.push(family("json-unit-output", "the pattern `a` prepared (its output is the unit), stored as JSON and loaded".into(), 1, |_, ctx| {
        let d = "a".into_pattern().prepare_to_match();
        let l: SymbolRangeDfa<char, ()> = serde_json::from_str(&serde_json::to_string(&d).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ctx.trace();
        if view(&l) == view(&d) { Ok(()) } else { Err(format!("loaded {:?}, stored {:?}", view(&l), view(&d))) }
    }));
    // token matchers with several output types
    {
        let g = Grammar::new(vec![P::Eps, lit(&[0]), lit(&[1]), P::Range(0, 2), lit(&[0, 1])], vec![Un::Inf(0), Un::Inf(1), Un::Rep(0, 2)], false, 3);
        let k = g.total();
        let words = strings(3, 3);
        f.push(family("tokens", "every ordered pair of patterns of at most 3 nodes with outputs of type u8, String, Option, pair or enum-like Result".into(), k * k, move |i, ctx| {
            let (p, q) = (g.get(i / k), g.get(i % k));
            let ax = Axis::new(vec!['"', 'a', '\u{1f600}']);
            fn make<O: Clone + Ord + 'static>(ax: &Axis<char>, p: &P, q: &P, a: O, b: O) -> SymbolRangeDfa<char, O> {
                let mut m = TokenMatcher::new();
                m.add_pattern(ax.pattern(p), a);
                m.add_pattern(ax.pattern(q), b);
                m.prepare_to_match()
            }
            let fail = |e: String| format!("patterns {:?} and {:?}: {}", p, q, e);
            match i % 4 {
                0 => check_dfa(&make(&ax, &p, &q, 0u8, 255u8), &ax, &words, ctx).map_err(fail),
                1 => check_dfa(&make(&ax, &p, &q, "x\"\\\n".to_string(), String::new()), &ax, &words, ctx).map_err(fail),
                2 => check_dfa(&make(&ax, &p, &q, (i64::MIN, 'z'), (i64::MAX, '\0')), &ax, &words, ctx).map_err(fail),
                _ => { let (a, b): (Result<u8, bool>, Result<u8, bool>) = (Ok(3), Err(true)); check_dfa(&make(&ax, &p, &q, a, b), &ax, &words, ctx).map_err(fail) }
            }
        }));
    }
    // hand-built tables: transitions to any state, states without transitions, outputs everywhere
    f.push(family("hand-built", "every hand-built machine of 3 states over 2 separate or adjoining ranges (4^6 transition tables, 8 output assignments)".into(), 4096 * 8 * 2, |i, ctx| {
        let d = digits(i, &[2, 8, 4, 4, 4, 4, 4, 4]);
        let (lo, hi) = if d[0] == 0 { (10u8, 12u8) } else { (10, 11) };
        let mut b = SymbolRangeDfaBuilder::new();
        for s in 0..3usize {
            b.start_state();
            if d[1] >> s & 1 == 1 { b.accept(s as u8); }
            for c in 0..2usize { let t = d[2 + s * 2 + c]; if t > 0 { b.transition(if c == 0 { SymbolRange::new(0, lo) } else { SymbolRange::new(hi, 255) }, t as u32 - 1); } }
        }
        check_dfa(&b.build(), &Axis::new(vec![0u8, 11, 255]), &strings(3, 2), ctx)
    }));
    f.push(family("scaled", "rings of up to 70000 states and fans of up to 250 transitions".into(), 12, |i, ctx| {
        let n = [1usize, 2, 100, 255, 256, 257, 1000, 65535, 65536, 70000, 3, 4][i as usize];
        let mut b = SymbolRangeDfaBuilder::new();
        let fan = if i >= 10 { 250 } else { 2 };
        for s in 0..n {
            b.start_state();
            if s % 9 == 8 { b.accept(s as u32); }
            for c in 0..fan as u8 { b.transition(SymbolRange::new(c as u64, c as u64), ((s * 3 + 1 + c as usize) % n) as u32); }
        }
        let w: Vec<u8> = (0..300).map(|x| (x % 7 == 3) as u8).collect();
        check_dfa(&b.build(), &Axis::new(vec![0u64, 1]), &[w], ctx).map_err(|e| e[..e.len().min(1000)].to_string())
    }));
    f.push(family("wide", format!("machines of 4 states with {:?} transitions each", WIDE), WIDE.len() as u64, |i, ctx| {
        let d = wide_dfa(WIDE[i as usize]);
        for (how, l) in round_trips(&d)? {
            wide_probe(&l, WIDE[i as usize], ctx).map_err(|e| format!("loaded from {}: {}", how, e))?;
            if view(&l) != view(&d) { return Err(format!("loaded from {}: {} transitions per state: different states", how, WIDE[i as usize])); }
        }
        Ok(())
    }));
    {
        let odds = odds(t.pick(24, 100));
        f.push(family("odd-one-out", "machines with up to 240 transitions in a state or up to 1030 states in a row of which exactly one differs: in target, by being missing, in having or lacking an output; every place".into(), odds.len() as u64, move |i, ctx| {
            let o = odds[i as usize];
            let (rows, outs) = o.rows();
            let mut b = SymbolRangeDfaBuilder::new();
            for (r, out) in rows.iter().zip(&outs) {
                b.start_state();
                if let Some(out) = out { b.accept(*out); }
                for (c, to) in r { b.transition(o.range(*c), *to); }
            }
            let axis = o.axis();
            let zero = if o.gap { 1u8 } else { 0 };
            let words: Vec<Vec<u8>> = if o.variant >= 5 { vec![vec![zero; o.n + 2], vec![zero; o.n / 2]] } else { (0..axis.len() as u8).map(|c| vec![c, zero, zero]).collect() };
            check_dfa(&b.build(), &axis, &words, ctx).map_err(|e| format!("{:?}\n{}", o, e.chars().take(3000).collect::<String>()))
        }));
    }
    // Machines of a given size
    {
        use mc::bigm::*;
        let v = sizes(t.pick(1025, 10007));
        let n = v.len() as u64;
        f.push(family("sizes", format!("{} kinds of machines of sizes {:?} up to {}, stored and loaded through 5 routes and run", KINDS, SIZES, t.pick(1025, 10007)), n, move |i, ctx| {
            let (kind, n) = v[i as usize];
            let b = match big(kind, n) { Some(b) => b, None => return Ok(()) };
            let sim = Sim::new(&b.calls);
            let mut m = make(&b.calls);
            if b.overlaps { m.fix_overlapping_ranges(); }
            let dfa: SymbolRangeDfa<u32, u32> = DfaCompiler::build(m, SymbolRangeDfaBuilder::new());
            let before = view(&dfa);
            for (how, l) in round_trips(&dfa)? {
                ctx.step();
                if view(&l) != before { return Err(format!("{}: loaded from {} it differs", b.name, how)); }
                check_words(&l, &sim, &b.words, ctx).map_err(|e| format!("{}, loaded from {}\n{}", b.name, how, e))?;
            }
            Ok(())
        }));
    }
    f
}

fn main() {
    mc::engine::main(Check { property: "C21", level: "model_checking", assumptions: vec!["serde_json and bincode represent the two kinds of format".into()], families })
}
