//! C20: a prepared matcher can be shared and reused without interference.
use concordance::*;
use mc::engine::*;
use mc::model::*;
use mc::space::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::Range;

type Set = Vec<(P, u8)>;
type Dfa = SymbolRangeDfa<char, u8>;

fn axis() -> Axis<char> { Axis::new(vec!['a', 'b', 'c']) }

fn prepare(set: &Set) -> Dfa {
    let ax = axis();
    let mut m = TokenMatcher::new();
    for (p, o) in set { m.add_pattern(ax.pattern(p), *o); }
    m.prepare_to_match()
}

fn view(d: &Dfa) -> Vec<(Vec<(char, char, u32)>, Option<u8>)> {
    (0..d.count_states()).map(|s| (d.get_transitions_for_state(s).into_iter().map(|(r, t)| (r.lowest, r.highest, t)).collect(), d.output_symbol_for_state(s).cloned())).collect()
}

fn sets() -> Vec<Set> {
    let a = || lit(&[0]);
    vec![
        vec![(P::Inf(0, Box::new(a())), 1)],
        vec![(P::All(vec![a(), P::Inf(0, Box::new(lit(&[1])))]), 1), (lit(&[0, 1, 2]), 0)],
        vec![(P::Range(0, 1), 2), (lit(&[0, 0]), 1), (lit(&[1, 1, 1]), 0)],
        vec![(P::Inf(1, Box::new(lit(&[0, 1]))), 1), (P::Inf(1, Box::new(P::Range(0, 2))), 2)],
        vec![(P::Rep(1, 3, Box::new(P::Range(0, 1))), 1), (P::All(vec![P::Inf(0, Box::new(P::Range(0, 1))), lit(&[2])]), 0)],
        vec![(P::Eps, 3), (lit(&[2, 2]), 1), (lit(&[0]), 3)],
        vec![(lit(&[1, 0, 2]), 0), (lit(&[1]), 4)],
    ]
}

type State<'a> = SymbolRangeState<'a, char, u8>;

/// A run: the state it is in, the whole of its input, how much has been fed. The whole input of a
/// copy is the part already fed with another rest.
struct Run<'a> { act: MatchAction<'a, u8, State<'a>>, w: Vec<u8>, at: usize, done: bool }

/// All schedules of the runs of `inputs` with at most `clones` copies
fn schedules(prefix: &[usize], set: &Set, dfa: &Dfa, inputs: &[Vec<u8>], rest: &[u8], clones: usize, between: bool, ctx: &mut Ctx) -> CaseResult {
    let ax = axis();
    let before = view(dfa);
    let fresh: Vec<Option<(usize, u8)>> = inputs.iter().map(|w| longest_of(set, w, 0)).collect();
    let wants: RefCell<HashMap<Vec<u8>, Option<(usize, u8)>>> = RefCell::new(HashMap::new());
    let want_of = |w: &Vec<u8>| *wants.borrow_mut().entry(w.clone()).or_insert_with(|| longest_of(set, w, 0));
    let fset = fp(set);
    explore(prefix, |ch| {
        // (0 = step, 1 = copy; which run)
        let mut hist: Vec<(u8, usize)> = vec![];
        let mut runs: Vec<Run> = inputs.iter().map(|w| Run { act: dfa.start(), w: w.clone(), at: 0, done: false }).collect();
        let mut copies = 0;
        loop {
            let mut en = vec![];
            for (i, r) in runs.iter().enumerate() { if !r.done { en.push((0, i)); } }
            if en.is_empty() { break; }
            if copies < clones { for (i, r) in runs.iter().enumerate() { if !r.done { en.push((1, i)); } } }
            let (op, i) = en[ch.choose(en.len())];
            ctx.step();
            if op == 1 {
                hist.push((1, i));
                copies += 1;
                let (w, at) = (runs[i].w[..runs[i].at].iter().chain(rest.iter()).cloned().collect::<Vec<u8>>(), runs[i].at);
                let (keep, copy) = match std::mem::replace(&mut runs[i].act, Reject) {
                    More(s) => (More(s.clone()), More(s)),
                    Accept(n, o) => (Accept(n, o), Accept(n, o)),
                    Reject => (Reject, Reject),
                };
                // the copy goes on, the copied state is a new run
                let first = copies % 2 == 0;
                runs[i].act = if first { keep } else { match keep { More(s) => More(s), x => x } };
                runs.push(Run { act: copy, w, at, done: false });
                continue;
            }
            hist.push((0, i));
            if between {
                // a whole match of another input in between
                let k = hist.len() % inputs.len();
                let v = ax.string(&inputs[k]);
                let got = matches_prepared(&v, dfa);
                if got != fresh[k].map(|x| x.0) { return Err(format!("{:?}: matching {:?} in between gave {:?}, expected {:?}; {:?}", set, v, got, fresh[k], hist)); }
            }
            let r = &mut runs[i];
            let end = r.at == r.w.len();
            let act = std::mem::replace(&mut r.act, Reject);
            r.act = match act {
                More(s) => if end { s.finish() } else { s.next(ax.syms[r.w[r.at] as usize]) },
                x => x,
            };
            if end { r.done = true; } else { r.at += 1; }
            let fin = match r.act { More(_) => { if end { return Err(format!("{:?}: finishing asked for more; {:?}", set, hist)); } None } Accept(n, o) => Some(Some((n, *o))), Reject => Some(None) };
            if let Some(got) = fin {
                let want = want_of(&r.w);
                if got != want { return Err(format!("{:?}: run {} over {:?} gave {:?}, expected {:?}; schedule (0 = step, 1 = copy; run) {:?}", set, i, ax.string(&r.w), got, want, hist)); }
                r.done = true;
            }
            ctx.state(&(fset, runs.iter().map(|r| (&r.w, r.at, r.done)).collect::<Vec<_>>()));
        }
        ctx.trace();
        ctx.outcome(&format!("{} runs", runs.len()));
        ctx.sample(|| format!("{:?}, (0 = step, 1 = copy; run): {:?}", inputs, hist));
        Ok(())
    })?;
    if view(dfa) != before { return Err(format!("{:?}: the matcher changed", set)); }
    Ok(())
}

fn token(set: &Set, w: &[u8], at: usize) -> Option<(Range<usize>, u8)> {
    match longest_of(set, w, at) { Some((n, o)) if n > 0 => Some((at..at + n, o)), _ => None }
}

// Whether a type can be shared between threads or handed from one to another: the method of the
// type itself comes before the one of the trait.
struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Sync> Probe<T> { fn shared(&self) -> bool { true } }
impl<T: Send> Probe<T> { fn handed(&self) -> bool { true } }
trait Neither { fn shared(&self) -> bool { false } fn handed(&self) -> bool { false } }
impl<T> Neither for Probe<T> {}
fn probe<T>() -> Probe<T> { Probe(std::marker::PhantomData) }

/// Carries anything to another thread (used only once the probes have said that it can be)
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> { fn out(self) -> T { self.0 } }
#[derive(Clone, Copy)]
struct Seen<'a>(&'a Dfa);
unsafe impl<'a> Send for Seen<'a> {}
impl<'a> Seen<'a> { fn out(self) -> &'a Dfa { self.0 } }

enum Job<'a> { Start, Step(Carry<State<'a>>, Option<char>), Copy(Carry<State<'a>>) }
type Reply<'a> = Vec<Carry<MatchAction<'a, u8, State<'a>>>>;

/// Two runs on one matcher; every step of either happens on one or the other of two threads, to which the match in progress is handed; one may be copied
fn on_threads(set: &Set, inputs: &[Vec<u8>], ctx: &mut Ctx) -> CaseResult {
    let ax = axis();
    let dfa = prepare(set);
    let before = view(&dfa);
    let wants: Vec<Option<(usize, u8)>> = inputs.iter().map(|w| longest_of(set, w, 0)).collect();
    let r = std::thread::scope(|scope| -> CaseResult {
        let mut ends = vec![];
        for _ in 0..2 {
            let (job, jobs) = std::sync::mpsc::channel::<Job>();
            let (reply, replies) = std::sync::mpsc::channel::<Reply>();
            let seen = Seen(&dfa);
            scope.spawn(move || {
                let dfa = seen.out();
                while let Ok(j) = jobs.recv() {
                    let r = match j {
                        Job::Start => vec![Carry(dfa.start())],
                        Job::Step(s, Some(c)) => vec![Carry(s.out().next(c))],
                        Job::Step(s, None) => vec![Carry(s.out().finish())],
                        Job::Copy(s) => { let s = s.out(); vec![Carry(More(s.clone())), Carry(More(s))] }
                    };
                    if reply.send(r).is_err() { return; }
                }
            });
            ends.push((job, replies));
        }
        let ask = |th: usize, j: Job<'_>| -> Result<Vec<MatchAction<u8, State>>, String> {
            // (the lifetimes are all that of the matcher, which the threads do not outlive)
            let j: Job = unsafe { std::mem::transmute(j) };
            ends[th].0.send(j).map_err(|_| "a thread has ended".to_string())?;
            Ok(ends[th].1.recv().map_err(|_| "a thread panicked".to_string())?.into_iter().map(|c| c.out()).collect())
        };
        explore(&[], |ch| {
            let mut hist: Vec<(usize, usize)> = vec![];
            // (match in progress, its input, how much of it has been given)
            let mut runs: Vec<(MatchAction<u8, State>, usize, usize)> = vec![];
            for k in 0..inputs.len() { runs.push((ask(k % 2, Job::Start)?.pop().unwrap(), k, 0)); }
            let mut done = 0;
            let mut copied = false;
            while done < runs.len() {
                let live: Vec<usize> = (0..runs.len()).filter(|k| match runs[*k].0 { More(_) => true, _ => false }).collect();
                // (once one is copied, the threads take turns)
                let (n, th) = if copied { (live[ch.choose(live.len())], hist.len() % 2) } else { let x = ch.choose(2 * live.len()); (live[x / 2], x % 2) };
                let copy = !copied && th == 1 && runs[n].2 == 1 && n == 0;
                hist.push((n, th));
                ctx.step();
                let (act, k, at) = std::mem::replace(&mut runs[n], (Reject, 0, 0));
                let s = match act { More(s) => s, _ => unreachable!() };
                let s = if copy {
                    copied = true;
                    let mut two = ask(0, Job::Copy(Carry(s)))?;
                    runs.push((two.pop().unwrap(), k, at));
                    match two.pop().unwrap() { More(s) => s, _ => unreachable!() }
                } else { s };
                let w = &inputs[k];
                let c = w.get(at).map(|c| ax.syms[*c as usize]);
                let act = ask(th, Job::Step(Carry(s), c))?.pop().unwrap();
                let got = match act { More(_) => None, Accept(n, o) => Some(Some((n, *o))), Reject => Some(None) };
                runs[n] = (act, k, at + 1);
                if let Some(got) = got {
                    done += 1;
                    if got != wants[k] { return Err(format!("patterns {:?}, inputs {:?}, steps (run, thread) {:?}: run {} gave {:?}, expected {:?}", set, inputs, hist, n, got, wants[k])); }
                } else if c.is_none() { return Err(format!("patterns {:?}, inputs {:?}, steps (run, thread) {:?}: run {} is not decided by its end", set, inputs, hist, n)); }
                ctx.state(&(set, inputs, runs.iter().map(|r| (r.1, r.2)).collect::<Vec<_>>(), th));
            }
            ctx.trace();
            Ok(())
        })
    });
    r?;
    if view(&dfa) != before { return Err(format!("patterns {:?}: the matcher has changed", set)); }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let sets = sets();
    let n = sets.len() as u64;
    let mut f = vec![];
    {
        let sets = sets.clone();
        let len = t.pick(3u32, 4);
        let k = string_count(3, len);
        f.push(family("two-runs", format!("two runs over every pair of inputs of up to {} symbols, all interleavings of their steps, {} sets of patterns", len, n), n * k * k, move |i, ctx| {
            let d = digits(i, &[k, k, n]);
            let set = &sets[d[2] as usize];
            schedules(&[], set, &prepare(set), &[string(3, d[0]), string(3, d[1])], &[], 0, false, ctx)
        }));
    }
    {
        let sets = sets.clone();
        let len = t.pick(3u32, 4);
        let k = string_count(3, len);
        let rest: Vec<Vec<u8>> = strings(3, 2);
        let kr = rest.len() as u64;
        f.push(family("copies", format!("one run over every input of up to {} symbols, copied at every point up to twice (also copies of copies), each copy continued with every other rest of up to 2 symbols, all interleavings", len), n * k * kr, move |i, ctx| {
            let d = digits(i, &[k, kr, n]);
            let set = &sets[d[2] as usize];
            schedules(&[], set, &prepare(set), &[string(3, d[0])], &rest[d[1] as usize], 2, false, ctx)
        }));
    }
    {
        let sets = sets.clone();
        let k = string_count(3, 2);
        f.push(family("two-runs-copy", "two runs over every pair of inputs of up to 2 symbols with one copy, all interleavings, with a complete match run in between every two steps".into(), n * k * k, move |i, ctx| {
            let d = digits(i, &[k, k, n]);
            let set = &sets[d[2] as usize];
            schedules(&[], set, &prepare(set), &[string(3, d[0]), string(3, d[1])], &[0, 1], 1, true, ctx)
        }));
    }
    {
        let sets = sets.clone();
        let pool: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 1], vec![1, 1, 1], vec![0, 1, 2], vec![0, 0, 2], vec![1, 0, 2], vec![2, 2], vec![0, 1, 0, 1]];
        let k = t.pick(6, 9) as u64;
        f.push(family("three-runs", format!("three runs over every triple of {} inputs of up to {} symbols, all interleavings", k, t.pick(3, 4)), n * k * k * k, move |i, ctx| {
            let d = digits(i, &[k, k, k, n]);
            let set = &sets[d[3] as usize];
            schedules(&[], set, &prepare(set), &[pool[d[0] as usize].clone(), pool[d[1] as usize].clone(), pool[d[2] as usize].clone()], &[], 0, false, ctx)
        }));
    }
    {
        let sets = sets.clone();
        let inputs: Vec<Vec<u8>> = strings(3, 3).into_iter().filter(|w| w.len() == 3 || w.len() == 0).collect();
        let k = inputs.len() as u64;
        f.push(family("tokenizers", "two tokenizers on one matcher over every pair of inputs of 3 symbols, all interleavings of next_token, skip_input and iterator steps on either (4 steps), then both run to the end alternately".into(), n * k * k, move |i, ctx| {
            let d = digits(i, &[k, k, n]);
            let set = &sets[d[2] as usize];
            let dfa = prepare(set);
            let before = view(&dfa);
            let ax = axis();
            let ws = [&inputs[d[0] as usize], &inputs[d[1] as usize]];
            let vs = [ax.string(ws[0]), ax.string(ws[1])];
            explore(&[], |ch| {
                let mut ts = [Tokenizer::new_prepared(vs[0].read_symbols(), &dfa), Tokenizer::new_prepared(vs[1].read_symbols(), &dfa)];
                let mut pos = [0usize; 2];
                let mut hist = vec![];
                for k in 0..12 {
                    let (x, op) = if k < 4 { let c = ch.choose(4); (c % 2, c / 2) } else { (k % 2, 2) };
                    hist.push((x, op));
                    ctx.step();
                    let w = ws[x];
                    match op {
                        0 => {
                            let want = token(set, w, pos[x]);
                            let got = ts[x].next_token();
                            if got != want { return Err(format!("{:?} over {:?}: {:?} (tokenizer, 0 next/1 skip/2 iterate): got {:?}, expected {:?}", set, vs, hist, got, want)); }
                            if let Some((r, _)) = want { pos[x] = r.end; }
                        }
                        1 => { let got = ts[x].skip_input(); if got != vs[x].get(pos[x]).cloned() { return Err(format!("{:?} over {:?}: {:?}: skipped {:?}", set, vs, hist, got)); } pos[x] = (pos[x] + 1).min(w.len()); }
                        _ => {
                            let mut at = pos[x];
                            let want = loop { match token(set, w, at) { Some(y) => break Some(y), None if at >= w.len() => break None, None => at += 1 } };
                            let got = ts[x].next();
                            if got != want { return Err(format!("{:?} over {:?}: {:?}: iterator gave {:?}, expected {:?}", set, vs, hist, got, want)); }
                            pos[x] = match want { Some((r, _)) => r.end, None => w.len() };
                        }
                    }
                    ctx.state(&(fp(set), ws, pos));
                }
                ctx.trace();
                Ok(())
            })?;
            if view(&dfa) != before { return Err(format!("{:?}: the matcher changed", set)); }
            Ok(())
        }));
    }
    {
        let sets = sets.clone();
        f.push(family("reuse", "one matcher used for every input of up to 6 symbols one after another, forwards and backwards, then every input again; a clone of it used in between".into(), n * 2, move |i, ctx| {
            let set = &sets[(i / 2) as usize];
            let dfa = prepare(set);
            let copy = dfa.clone();
            let before = view(&dfa);
            let ax = axis();
            let k = string_count(3, 6);
            for round in 0..2 {
                for j in 0..k {
                    let w = string(3, if (i + round) % 2 == 0 { j } else { k - 1 - j });
                    let want = longest_of(set, &w, 0);
                    for d in [&dfa, &copy] {
                        let got = mc::product::run_real(d, &ax.string(&w))?;
                        ctx.trace();
                        ctx.step();
                        if got != want { return Err(format!("{:?}: round {} input {:?}: got {:?}, expected {:?}", set, round, ax.string(&w), got, want)); }
                    }
                }
            }
            if view(&dfa) != before || view(&copy) != before { return Err(format!("{:?}: the matcher changed", set)); }
            ctx.state(&(i, before));
            Ok(())
        }));
    }
    {
        let all = sets.clone();
        let n = all.len() as u64;
        let words = t.pick(vec![vec![0u8, 1], vec![0, 0], vec![1, 2], vec![2]], strings(3, 2));
        let k = words.len() as u64;
        f.push(family("threads", format!("a matcher and a match in progress of four kinds of symbols and outputs can be shared and handed over; two runs over every pair of {} inputs on {} matchers, one of them copied, every step of either on one or the other of two threads, all interleavings", k, n), 1 + n * k * k, move |i, ctx| {
            // (symbols and outputs that can be shared and handed over themselves)
            let probes = [
                ("SymbolRangeDfa<char, u8> is Sync", probe::<SymbolRangeDfa<char, u8>>().shared()),
                ("SymbolRangeDfa<char, u8> is Send", probe::<SymbolRangeDfa<char, u8>>().handed()),
                ("SymbolRangeDfa<u8, String> is Sync", probe::<SymbolRangeDfa<u8, String>>().shared()),
                ("SymbolRangeDfa<u8, String> is Send", probe::<SymbolRangeDfa<u8, String>>().handed()),
                ("SymbolRangeDfa<u32, ()> is Sync", probe::<SymbolRangeDfa<u32, ()>>().shared()),
                ("SymbolRangeDfa<u32, ()> is Send", probe::<SymbolRangeDfa<u32, ()>>().handed()),
                ("SymbolRangeState<char, u8> is Sync", probe::<SymbolRangeState<'static, char, u8>>().shared()),
                ("SymbolRangeState<char, u8> is Send", probe::<SymbolRangeState<'static, char, u8>>().handed()),
                ("SymbolRangeState<u8, String> is Send", probe::<SymbolRangeState<'static, u8, String>>().handed()),
                ("MatchAction<u8, SymbolRangeState<char, u8>> is Send", probe::<MatchAction<'static, u8, SymbolRangeState<'static, char, u8>>>().handed()),
            ];
            ctx.step();
            if let Some((what, _)) = probes.iter().find(|p| !p.1) { return Err(format!("it no longer holds that {}", what)); }
            if i == 0 { ctx.trace(); return Ok(()); }
            let d = digits(i - 1, &[k, k, n]);
            on_threads(&all[d[2] as usize], &[words[d[0] as usize].clone(), words[d[1] as usize].clone()], ctx)
        }));
    }
    f.push(family("scaled", "up to 40 runs over inputs of up to 200 symbols on one matcher of up to 150 states, advanced in rotation, each copied at several points".into(), 40 * 5, |i, ctx| {
        let (n, m) = ((i % 40) as usize + 1, [3usize, 10, 40, 100, 150][(i / 40) as usize]);
        let ax = axis();
        let mut l = vec![0u8; m];
        l.push(1);
        let set: Set = vec![(lit(&l), 1), (P::Inf(1, Box::new(lit(&[0]))), 2), (P::Inf(2, Box::new(P::Range(0, 1))), 3)];
        let dfa = prepare(&set);
        let mut auto = RefAutomaton::new(&set);
        let input = |r: usize, k: usize| -> Vec<u8> { (0..k).map(|x| if x == m.wrapping_add(r % 3).wrapping_sub(1) { 1 } else if x > m + 10 + r { 2 } else { 0 }).collect() };
        let mut runs: Vec<Run> = (0..n).map(|r| Run { act: dfa.start(), w: input(r, (r * 13) % 50 + m), at: 0, done: false }).collect();
        for round in 0..260usize {
            for r in 0..runs.len() {
                if runs[r].done { continue; }
                if round % 29 == 7 && r < 3 && runs.len() < 60 {
                    if let More(ref s) = runs[r].act {
                        let c = s.clone();
                        let (mut w, at) = (runs[r].w[..runs[r].at].to_vec(), runs[r].at);
                        w.extend([1, 0, 1, 2]);
                        runs.push(Run { act: More(c), w, at, done: false });
                    }
                }
                ctx.step();
                let x = &mut runs[r];
                let end = x.at == x.w.len();
                x.act = match std::mem::replace(&mut x.act, Reject) { More(s) => if end { s.finish() } else { s.next(ax.syms[x.w[x.at] as usize]) }, y => y };
                if !end { x.at += 1; }
                let got = match x.act { More(_) => continue, Accept(n, o) => Some((n, *o)), Reject => None };
                x.done = true;
                let want = auto.longest(&x.w);
                if got != want { return Err(format!("{} runs, m = {}: run {} of {} symbols gave {:?}, expected {:?}", n, m, r, x.w.len(), got, want)); }
            }
        }
        if runs.iter().any(|r| !r.done) { return Err("a run did not end".into()); }
        ctx.state(&(n, m));
        ctx.trace();
        Ok(())
    }));
    f.push(family("huge", "one matcher used by a run over up to 70000 symbols while up to 3 others go on in rotation in steps of 1, 7 or 4096 symbols, each copied near the end of what was read last; and used for 70000 matches and 70000 tokens, one after another".into(), 8 * 3 * 4, |i, ctx| {
        let d = digits(i, &[4, 3, 8]);
        let n = [1000usize, 4095, 4096, 4097, 32_769, 65_535, 65_537, 70_000][d[2] as usize];
        let chunk = [1usize, 7, 4096][d[1] as usize];
        let ax = axis();
        // a* b, (aa)+, c+
        let set: Set = vec![(P::All(vec![P::Inf(0, Box::new(lit(&[0]))), lit(&[1])]), 1), (P::Inf(1, Box::new(lit(&[0, 0]))), 2), (P::Inf(1, Box::new(lit(&[2]))), 0)];
        let dfa = prepare(&set);
        let before = view(&dfa);
        let mut auto = RefAutomaton::new(&set);
        if d[0] == 3 {
            // used again and again
            let words: Vec<Vec<u8>> = strings(3, 3);
            let wants: Vec<Option<(usize, u8)>> = words.iter().map(|w| longest_of(&set, w, 0)).collect();
            for k in 0..n {
                let j = (k * 7 + chunk) % words.len();
                let got = mc::product::run_real(&dfa, &ax.string(&words[j]))?;
                ctx.step();
                if got != wants[j] { return Err(format!("use {} of one matcher, over {:?}: {:?}, expected {:?}", k + 1, words[j], got, wants[j])); }
            }
            let w: Vec<char> = (0..n).map(|k| ['a', 'b', 'a', 'a', 'c', 'b'][k % 6]).collect();
            let mut t = Tokenizer::new_prepared(w.read_symbols(), &dfa);
            let mut at = 0;
            let wd: Vec<u8> = w.iter().map(|c| *c as u8 - b'a').collect();
            while let Some((r, o)) = t.next() {
                let want = auto.longest(&wd[at..]).map(|(l, o)| (at..at + l, o));
                if Some((r.clone(), o)) != want { return Err(format!("token {:?} {}, expected {:?}", r, o, want)); }
                at = r.end;
                let got = mc::product::run_real(&dfa, &vec!['a', 'b'])?;
                ctx.step();
                if got != Some((2, 1)) { return Err(format!("a match while tokenizing at {} gave {:?}", at, got)); }
            }
        } else {
            let inputs: Vec<Vec<u8>> = vec![
                [vec![0; n], vec![1]].concat(), vec![0; n - 1], [vec![0; n / 2], vec![2; 2]].concat(), vec![2; n],
            ];
            let mut runs: Vec<Run> = inputs[..d[0] as usize + 2].iter().map(|w| Run { act: dfa.start(), w: w.clone(), at: 0, done: false }).collect();
            let live = runs.len();
            while runs.iter().any(|r| !r.done) {
                for r in 0..runs.len() {
                    for _ in 0..chunk {
                        if runs[r].done { break; }
                        let near = runs[r].at + 2 == runs[r].w.len() || runs[r].at == runs[r].w.len();
                        if near && r < live {
                            if let More(ref s) = runs[r].act {
                                let c = s.clone();
                                let (mut w, at) = (runs[r].w[..runs[r].at].to_vec(), runs[r].at);
                                w.extend([1, 2]);
                                runs.push(Run { act: More(c), w, at, done: false });
                            }
                        }
                        ctx.step();
                        let x = &mut runs[r];
                        let end = x.at == x.w.len();
                        x.act = match std::mem::replace(&mut x.act, Reject) { More(s) => if end { s.finish() } else { s.next(ax.syms[x.w[x.at] as usize]) }, y => y };
                        if !end { x.at += 1; }
                        let got = match x.act { More(_) => continue, Accept(n, o) => Some((n, *o)), Reject => None };
                        x.done = true;
                        let want = auto.longest(&x.w);
                        if got != want { return Err(format!("n = {}, {} at a time: run {} of {} symbols gave {:?}, expected {:?}", n, chunk, r, x.w.len(), got, want)); }
                    }
                }
            }
        }
        if view(&dfa) != before { return Err("the matcher changed".into()); }
        ctx.state(&(n, chunk, d[0]));
        ctx.trace();
        Ok(())
    }));
    f
}

fn main() {
    mc::engine::main(Check { property: "C20", level: "model_checking", assumptions: vec!["steps are interleaved on one thread; a matcher offers no interior mutability that would distinguish threads".into()], families })
}
