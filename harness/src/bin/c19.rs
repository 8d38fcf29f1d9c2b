//! C19: symbol sources deliver every symbol once, in order, then the end.
use concordance::*;
use mc::engine::*;
use mc::model::text_axis;
use mc::space::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{Error, ErrorKind, Read};
use std::rc::Rc;

fn expect<S: PartialEq + Debug, R: SymbolReader<S>>(what: &str, mut r: R, want: &[S], ends: usize, ctx: &mut Ctx) -> CaseResult {
    for (i, w) in want.iter().enumerate() {
        ctx.step();
        match r.next_symbol() {
            Some(ref g) if g == w => {}
            g => return Err(format!("{} of {:?}: symbol {} is {:?}", what, &want[..want.len().min(20)], i, g)),
        }
    }
    for k in 0..ends {
        ctx.step();
        if let Some(x) = r.next_symbol() { return Err(format!("{} of {:?}: request {} after the last symbol gave {:?}", what, &want[..want.len().min(20)], k + 1, x)); }
    }
    ctx.trace();
    Ok(())
}

/// All readers of one vector
fn all_kinds<S: Clone + PartialEq + Debug + 'static>(v: &Vec<S>, ctx: &mut Ctx) -> CaseResult {
    expect("vector", v.read_symbols(), v, 3, ctx)?;
    expect("owned vector", VecReader::from_vec(v.clone()), v, 3, ctx)?;
    let b: Box<dyn SymbolReader<S>> = Box::new(VecReader::from_vec(v.clone()));
    expect("boxed", b, v, 3, ctx)?;
    let b: Box<dyn SymbolReader<S> + '_> = Box::new(v.read_symbols());
    let b: Box<dyn SymbolReader<S> + '_> = Box::new(b);
    expect("boxed twice", b, v, 3, ctx)?;
    if v.read_symbols().to_vec() != *v { return Err(format!("to_vec of {:?}", v)); }
    // mapping: applied once per symbol, in order, not before it is needed
    let seen: Rc<RefCell<Vec<S>>> = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let mut k = 0;
    let mut m = v.read_symbols().map_symbols(move |x: S| { s2.borrow_mut().push(x.clone()); k += 1; (k, x) });
    for i in 0..v.len() {
        ctx.step();
        let g = m.next_symbol();
        if g != Some((i + 1, v[i].clone())) { return Err(format!("mapped {:?}: symbol {} is {:?}", v, i, g)); }
    }
    if m.next_symbol().is_some() { return Err(format!("mapped {:?}: a symbol after the end", v)); }
    if *seen.borrow() != *v { return Err(format!("mapped {:?}: the mapping was applied to {:?}", v, seen.borrow())); }
    // mapping of a mapping, partly read and then collected
    let mut m = VecReader::from_vec(v.clone()).map_symbols(|x: S| (x, 1)).map_symbols(|(x, n): (S, i32)| (n, x));
    if let Some(f) = m.next_symbol() {
        if f != (1, v[0].clone()) { return Err(format!("mapped twice {:?}: first is {:?}", v, f)); }
        let rest: Vec<S> = m.to_vec().into_iter().map(|x| x.1).collect();
        if rest != v[1..] { return Err(format!("mapped twice {:?}: rest is {:?}", v, rest)); }
    } else if !v.is_empty() { return Err("mapped twice: nothing".into()); }
    ctx.trace();
    Ok(())
}

// ------------------------------------------------------------------------- byte sources

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Io { /// this many bytes can be read, in one or several reads
    Data(usize), Interrupted, Fail(ErrorKind), Eof }

struct Script { events: Vec<Io>, at: usize, left: usize, sent: usize, started: bool, max_read: usize }
impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        if self.at >= self.events.len() { return Ok(0); }
        match self.events[self.at] {
            Io::Data(n) => {
                if !self.started { self.left = n; self.started = true; }
                let k = self.left.min(buf.len()).min(self.max_read);
                for b in buf[..k].iter_mut() { *b = byte(self.sent); self.sent += 1; }
                self.left -= k;
                if self.left == 0 { self.at += 1; self.started = false; }
                Ok(k)
            }
            Io::Interrupted => { self.at += 1; Err(Error::new(ErrorKind::Interrupted, "interrupted")) }
            Io::Fail(k) => { self.at += 1; Err(Error::new(k, "failed")) }
            Io::Eof => { self.at += 1; Ok(0) }
        }
    }
}

/// The i-th byte ever sent; all 256 values occur
fn byte(i: usize) -> u8 { (i * 37 + 250) as u8 }

fn bytes(events: &[Io], max_read: usize, via_new: bool, ctx: &mut Ctx) -> CaseResult {
    let n: usize = events.iter().take_while(|e| matches!(e, Io::Data(_) | Io::Interrupted)).map(|e| if let Io::Data(n) = e { *n } else { 0 }).sum();
    let want: Vec<u8> = (0..n).map(byte).collect();
    let src = Script { events: events.to_vec(), at: 0, left: 0, sent: 0, started: false, max_read };
    let r = if via_new { ByteSymbolReader::new(src.bytes()) } else { ByteSymbolReader::from(src) };
    ctx.state(&(events, max_read));
    ctx.outcome(&format!("{} bytes", n));
    ctx.sample(|| format!("{:?}", events));
    expect("bytes", r, &want, 1, ctx).map_err(|e| format!("source {:?}: {}", events, e))
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let len = t.pick(7, 9);
    f.push(family("vectors-u8", format!("every vector of up to {} symbols over 0, 1, 255, through every kind of reader", len), string_count(3, len), |i, ctx| {
        let v: Vec<u8> = string(3, i).iter().map(|x| [0u8, 1, 255][*x as usize]).collect();
        ctx.state(&v);
        all_kinds(&v, ctx)
    }));
    f.push(family("vectors-option", format!("every vector of up to {} symbols over None, Some(false), Some(true)", len - 1), string_count(3, len - 1), |i, ctx| {
        let v: Vec<Option<bool>> = string(3, i).iter().map(|x| [None, Some(false), Some(true)][*x as usize]).collect();
        ctx.state(&v);
        all_kinds(&v, ctx)
    }));
    f.push(family("vectors-string", format!("every vector of up to {} symbols over \"\" and \"xy\"", len), string_count(2, len), |i, ctx| {
        let v: Vec<String> = string(2, i).iter().map(|x| ["", "xy"][*x as usize].to_string()).collect();
        ctx.state(&v);
        all_kinds(&v, ctx)
    }));
    f.push(family("strings", format!("every string of up to {} characters over NUL, a, e-acute, U+D7FF, U+E000, U+10FFFF, combining acute and newline (1 to 4 bytes each)", t.pick(5, 6)), string_count(8, t.pick(5, 6)), |i, ctx| {
        let c = ['\0', 'a', '\u{e9}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{301}', '\n'];
        let v: Vec<char> = string(8, i).iter().map(|x| c[*x as usize]).collect();
        let s: String = v.iter().collect();
        ctx.state(&v);
        expect("str", s.read_symbols(), &v, 3, ctx)?;
        let b: Box<dyn SymbolReader<char> + '_> = Box::new(s.read_symbols());
        expect("boxed str", b, &v, 3, ctx)?;
        if s.read_symbols().to_vec() != v { return Err(format!("to_vec of {:?}", s)); }
        expect("mapped str", s.read_symbols().map_symbols(|x: char| x as u32), &v.iter().map(|x| *x as u32).collect::<Vec<_>>(), 1, ctx)
    }));
    let k = text_axis().len() as u64;
    f.push(family("texts", format!("every string of up to {} characters over {} that text handling might treat specially", t.pick(3, 4), k), string_count(k, t.pick(3, 4)), move |i, ctx| {
        let v = text_axis().string(&string(k, i));
        let s: String = v.iter().collect();
        ctx.state(&v);
        expect("str", s.read_symbols(), &v, 2, ctx)?;
        if s.read_symbols().to_vec() != v { return Err(format!("to_vec of {:?}", s)); }
        Ok(())
    }));
    f.push(family("filtered", format!("every vector of up to {} symbols over 4, filtered and mapped by each of the 16 keep-sets", len), string_count(4, t.pick(6, 8)) * 16, |i, ctx| {
        let v = string(4, i / 16);
        let keep = i % 16;
        let want: Vec<u32> = v.iter().filter(|x| keep >> **x & 1 == 1).map(|x| *x as u32 + 7).collect();
        let asked = RefCell::new(0);
        {
            let r = v.iter().filter_map(|x| { *asked.borrow_mut() += 1; if keep >> *x & 1 == 1 { Some(*x as u32 + 7) } else { None } });
            expect("filter_map", r, &want, 2, ctx)?;
        }
        if *asked.borrow() != v.len() { return Err(format!("filter_map over {:?}: {} symbols were looked at", v, asked.borrow())); }
        ctx.state(&(v.clone(), keep));
        let got = v.clone().into_iter().filter_map(|x| if keep >> x & 1 == 1 { Some(x as u32 + 7) } else { None }).to_vec();
        if got != want { return Err(format!("to_vec of filter_map over {:?}: {:?}", v, got)); }
        Ok(())
    }));
    // every io history
    let ev = vec![Io::Data(1), Io::Interrupted, Io::Data(2), Io::Data(5), Io::Eof, Io::Fail(ErrorKind::Other), Io::Fail(ErrorKind::WouldBlock), Io::Fail(ErrorKind::UnexpectedEof)];
    let d = t.pick(6u32, 7);
    {
        let ev = ev.clone();
        f.push(family("io-faults", format!("every history of up to {} events of a byte source from {:?}, then end of file; read in pieces of at most 1, 2 or any number of bytes; ByteSymbolReader::from and new", d, ev), string_count(8, d) * 6, move |i, ctx| {
            let e: Vec<Io> = string(8, i / 6).iter().map(|x| ev[*x as usize]).collect();
            bytes(&e, [1, 2, usize::MAX][(i % 3) as usize], i / 3 % 2 == 1, ctx)
        }));
    }
    f.push(family("io-scaled", "up to 70000 bytes in pieces of k bytes with j interruptions between pieces, ending in end of file or any error kind".into(), 9 * 8 * 4 * 12, |i, ctx| {
        let d = digits(i, &[12, 4, 8, 9]);
        let n = [1usize, 255, 256, 257, 4096, 8191, 8192, 8193, 70000][d[3] as usize];
        let k = [1usize, 2, 3, 100, 255, 256, 8192, 70000][d[2] as usize];
        if n / k > 9000 && d[0] > 1 { return Ok(()); }
        let kinds = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other];
        let mut e = vec![];
        let mut left = n;
        while left > 0 {
            e.push(Io::Data(k.min(left)));
            left -= k.min(left);
            for _ in 0..d[1] { e.push(Io::Interrupted); }
        }
        if d[0] > 0 { e.push(Io::Fail(kinds[d[0] as usize - 1])); e.push(Io::Data(3)); }
        let want: Vec<u8> = (0..n).map(byte).collect();
        let src = Script { events: e, at: 0, left: 0, sent: 0, started: false, max_read: usize::MAX };
        ctx.state(&(n, k, d[1], d[0]));
        expect("bytes", ByteSymbolReader::from(src), &want, 1, ctx)
    }));
    f.push(family("long", "vectors, owned vectors, boxed and mapped readers of up to 1048577 symbols; every number of symbols up to 2100".into(), 24 + 2100, |i, ctx| {
        let n = if i >= 24 { i as usize - 24 } else { [4095usize, 4096, 4097, 8191, 8192, 8193, 10_000, 16_383, 16_384, 16_385, 32_767, 32_768, 65_535, 65_536, 65_537, 99_999, 100_000, 100_001, 131_073, 262_145, 524_289, 999_999, 1_048_576, 1_048_577][i as usize] };
        let v: Vec<u32> = (0..n as u32).map(|x| x.wrapping_mul(2654435761)).collect();
        ctx.state(&n);
        all_kinds(&v, ctx)?;
        let s: String = v.iter().map(|x| char::from_u32(x % 0xd000).unwrap()).collect();
        let w: Vec<char> = s.chars().collect();
        expect("str", s.read_symbols(), &w, 2, ctx)?;
        if s.read_symbols().to_vec() != w { return Err(format!("to_vec of a str of {} characters", n)); }
        let b: Vec<u8> = (0..n).map(byte).collect();
        expect("bytes", ByteSymbolReader::from(&b[..]), &b, 1, ctx)?;
        if ByteSymbolReader::from(&b[..]).to_vec() != b { return Err(format!("to_vec of {} bytes", n)); }
        if v.iter().filter_map(|x| if x % 3 == 0 { None } else { Some(*x) }).to_vec() != v.iter().cloned().filter(|x| x % 3 != 0).collect::<Vec<_>>() { return Err(format!("to_vec of {} filtered symbols", n)); }
        // filtered down to very little
        for keep in [0, n / 2, n.saturating_sub(1)] {
            let want: Vec<usize> = if keep < n { vec![keep] } else { vec![] };
            expect("filter_map", (0..n).filter_map(|x| if x == keep { Some(x) } else { None }), &want, 2, ctx)?;
        }
        Ok(())
    }));
    f.push(family("every-char", "every character alone, at the beginning, in the middle and at the end of a str, and twice; 0x1000 characters to a case".into(), 0x110, |i, ctx| {
        for c in (i as u32 * 0x1000..(i as u32 + 1) * 0x1000).filter_map(char::from_u32) {
            for v in [vec![c], vec![c, 'a'], vec!['a', c], vec!['a', c, 'b'], vec![c, c], vec!['\u{e9}', c, c, '\u{10ffff}']] {
                let s: String = v.iter().collect();
                expect("str", s.read_symbols(), &v, 2, ctx)?;
                let got = s.read_symbols().to_vec();
                if got != v { return Err(format!("to_vec of {:?} gives {:?}", s, got)); }
                let got = v.read_symbols().to_vec();
                if got != v { return Err(format!("to_vec of {:?} gives {:?}", v, got)); }
            }
            ctx.state(&c);
        }
        Ok(())
    }));
    f.push(family("every-bytes", "every pair of bytes, and every triple of bytes from 24 (those at the edges of UTF-8, line ends, control characters), alone, followed by another and preceded by another: as bytes and as vector".into(), 256 + 24, |i, ctx| {
        let edge = [0u8, 1, 4, 9, 10, 13, 26, 27, 32, 0x41, 0x7f, 0x80, 0xbb, 0xbf, 0xc0, 0xc2, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf8, 0xfe, 0xff];
        let mut go = |v: Vec<u8>, ctx: &mut Ctx| -> CaseResult {
            ctx.state(&v);
            expect("bytes", ByteSymbolReader::from(&v[..]), &v, 1, ctx)?;
            expect("bytes", ByteSymbolReader::new((&v[..]).bytes()), &v, 1, ctx)?;
            expect("vector", v.read_symbols(), &v, 2, ctx)?;
            if ByteSymbolReader::from(&v[..]).to_vec() != v { return Err(format!("to_vec of the bytes {:?}", v)); }
            Ok(())
        };
        if i < 256 { for b in 0..=255u8 { go(vec![i as u8, b], ctx)?; go(vec![65, i as u8, b], ctx)?; go(vec![i as u8, b, 65], ctx)?; } }
        else { for b in edge { for c in edge { go(vec![edge[i as usize - 256], b, c], ctx)?; go(vec![65, edge[i as usize - 256], b, c], ctx)?; go(vec![edge[i as usize - 256], b, c, 65], ctx)?; } } }
        Ok(())
    }));
    f
}

fn main() {
    mc::engine::main(Check { property: "C19", level: "fault_enumeration", assumptions: vec!["what an iterator-based or io-based source yields after it has once reported the end is up to that source".into()], families })
}
