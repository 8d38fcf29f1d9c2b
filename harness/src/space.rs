//! Finite, indexable spaces. Index order is simplest first.

use crate::model::P;

/// Number of strings over k symbols of length 0..=n
pub fn string_count(k: u64, n: u32) -> u64 {
    (0..=n).map(|i| k.pow(i)).sum()
}

/// The idx-th string, shortest first
pub fn string(k: u64, mut idx: u64) -> Vec<u8> {
    let mut len = 0u32;
    while idx >= k.pow(len) {
        idx -= k.pow(len);
        len += 1;
    }
    let mut out = vec![0u8; len as usize];
    for i in (0..len as usize).rev() {
        out[i] = (idx % k) as u8;
        idx /= k;
    }
    out
}

/// All strings of length 0..=n over k symbols
pub fn strings(k: u64, n: u32) -> Vec<Vec<u8>> {
    (0..string_count(k, n)).map(|i| string(k, i)).collect()
}

/// Mixed radix digits, first radix least significant
pub fn digits(mut idx: u64, radix: &[u64]) -> Vec<u64> {
    radix.iter().map(|r| { let d = idx % r; idx /= r; d }).collect()
}

/// n digits in one base, most significant first
pub fn seq(mut idx: u64, base: u64, n: usize) -> Vec<usize> {
    let mut v = vec![0usize; n];
    for i in (0..n).rev() {
        v[i] = (idx % base) as usize;
        idx /= base;
    }
    v
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in (0..=p.len()).rev() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}

/// The idx-th permutation of 0..n (0 = identity)
pub fn permutation(n: usize, mut idx: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in 0..n {
        let f = factorial((n - 1 - i) as u64);
        out.push(pool.remove((idx / f) as usize));
        idx %= f;
    }
    out
}

/// k-subsets of 0..n in lexicographic order
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            go(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, k, 0, &mut vec![], &mut out);
    out
}

#[derive(Clone, Debug)]
pub enum Un {
    Inf(u32),
    Rep(u32, u32),
    All1,
    Any1,
}

impl Un {
    pub fn apply(&self, x: P) -> P {
        match self {
            Un::Inf(n) => P::Inf(*n, Box::new(x)),
            Un::Rep(a, b) => P::Rep(*a, *b, Box::new(x)),
            Un::All1 => P::All(vec![x]),
            Un::Any1 => P::Any(vec![x]),
        }
    }
}

/// All abstract syntax trees over some atoms and unary operators, with binary (and optionally
/// ternary) sequences and alternatives, by number of nodes.
#[derive(Clone, Debug)]
pub struct Grammar {
    pub atoms: Vec<P>,
    pub unary: Vec<Un>,
    pub ternary: bool,
    counts: Vec<u64>,
}

impl Grammar {
    pub fn new(atoms: Vec<P>, unary: Vec<Un>, ternary: bool, max_size: usize) -> Grammar {
        let mut g = Grammar { atoms, unary, ternary, counts: vec![0] };
        for n in 1..=max_size {
            let c = g.compute(n);
            g.counts.push(c);
        }
        g
    }
    fn c(&self, n: usize) -> u64 {
        self.counts[n]
    }
    fn compute(&self, n: usize) -> u64 {
        if n == 1 {
            return self.atoms.len() as u64;
        }
        let mut t = self.unary.len() as u64 * self.c(n - 1);
        for i in 1..n - 1 {
            t += 2 * self.c(i) * self.c(n - 1 - i);
        }
        if self.ternary {
            for i in 1..n {
                for j in 1..n {
                    if i + j + 1 < n {
                        t += 2 * self.c(i) * self.c(j) * self.c(n - 1 - i - j);
                    }
                }
            }
        }
        t
    }
    pub fn total(&self) -> u64 {
        self.counts.iter().sum()
    }
    pub fn get(&self, mut idx: u64) -> P {
        for n in 1..self.counts.len() {
            if idx < self.c(n) {
                return self.of_size(n, idx);
            }
            idx -= self.c(n);
        }
        panic!("index outside the grammar")
    }
    fn of_size(&self, n: usize, mut idx: u64) -> P {
        if n == 1 {
            return self.atoms[idx as usize].clone();
        }
        let u = self.unary.len() as u64 * self.c(n - 1);
        if idx < u {
            let op = (idx / self.c(n - 1)) as usize;
            return self.unary[op].apply(self.of_size(n - 1, idx % self.c(n - 1)));
        }
        idx -= u;
        for i in 1..n - 1 {
            let (a, b) = (self.c(i), self.c(n - 1 - i));
            if idx < 2 * a * b {
                let any = idx >= a * b;
                let k = idx % (a * b);
                let v = vec![self.of_size(i, k / b), self.of_size(n - 1 - i, k % b)];
                return if any { P::Any(v) } else { P::All(v) };
            }
            idx -= 2 * a * b;
        }
        if self.ternary {
            for i in 1..n {
                for j in 1..n {
                    if i + j + 1 < n {
                        let (a, b, c) = (self.c(i), self.c(j), self.c(n - 1 - i - j));
                        if idx < 2 * a * b * c {
                            let any = idx >= a * b * c;
                            let k = idx % (a * b * c);
                            let v = vec![self.of_size(i, k / (b * c)), self.of_size(j, k / c % b), self.of_size(n - 1 - i - j, k % c)];
                            return if any { P::Any(v) } else { P::All(v) };
                        }
                        idx -= 2 * a * b * c;
                    }
                }
            }
        }
        panic!("index outside the grammar")
    }
}

pub fn lit(v: &[u8]) -> P {
    P::Lit(v.to_vec())
}

/// Unary operators used almost everywhere
pub fn unaries() -> Vec<Un> {
    vec![
        Un::Inf(0), Un::Inf(1), Un::Inf(2),
        Un::Rep(0, 1), Un::Rep(0, 2), Un::Rep(1, 2), Un::Rep(1, 3), Un::Rep(2, 4), Un::Rep(0, 0),
        Un::All1, Un::Any1,
    ]
}

/// Atoms over three mentioned axis positions a < b < c
pub fn atoms3(a: u8, b: u8, c: u8) -> Vec<P> {
    vec![
        P::Eps, lit(&[a]), lit(&[b]), P::Range(a, b), P::Range(b, c), P::Range(a, c), lit(&[a, b]), lit(&[]),
        P::All(vec![]), P::Any(vec![]),
    ]
}

// ------------------------------------------------------------------ axes of the symbol types

use crate::model::Axis;

pub fn axis_u8() -> Axis<u8> {
    Axis::new(vec![0, 1, 2, 76, 77, 78, 254, 255])
}

/// Six neighbouring symbols at one end of u8 and the next one; `.1` is the index of the first
pub fn axis_dense(top: bool) -> (Axis<u8>, u8) {
    if top { (Axis::new((249..=255).collect()), 1) } else { (Axis::new((0..=6).collect()), 0) }
}

macro_rules! axis_of {
    ($name:ident, $t:ty) => {
        /// Both extremes and a middle of the type, with neighbours
        pub fn $name() -> Axis<$t> {
            let m: $t = 100;
            Axis::new(vec![<$t>::MIN, <$t>::MIN + 1, m - 1, m, m + 1, <$t>::MAX - 1, <$t>::MAX])
        }
    };
}
axis_of!(axis_i8, i8);
axis_of!(axis_i16, i16);
axis_of!(axis_i32, i32);
axis_of!(axis_i64, i64);
axis_of!(axis_isize, isize);
axis_of!(axis_u16, u16);
axis_of!(axis_u32, u32);
axis_of!(axis_u64, u64);
axis_of!(axis_usize, usize);

/// Both ends of char and both sides of the surrogate gap
pub fn axis_char() -> Axis<char> {
    Axis::new(vec!['\0', '\u{1}', 'a', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}'])
}

/// One-level contexts: a list or repetition with a hole
#[derive(Clone, Debug)]
pub enum Cx { All(usize, usize), Any(usize, usize), Un(Un) }

pub fn contexts(list: usize, fine: bool) -> Vec<Cx> {
    let mut v = vec![];
    for n in 1..=list { for i in 0..n { v.push(Cx::All(n, i)); } }
    for n in 1..list { for i in 0..n { v.push(Cx::Any(n, i)); } }
    for u in [Un::Inf(0), Un::Inf(1), Un::Rep(0, 2), Un::Rep(1, 3)] { v.push(Cx::Un(u)); }
    if fine { for u in [Un::Inf(2), Un::Rep(1, 2), Un::Rep(2, 4), Un::Rep(0, 1), Un::Rep(0, 3)] { v.push(Cx::Un(u)); } }
    v
}

impl Cx {
    /// fillers of sequences are the literal a, of alternatives the literal b
    pub fn fill(&self, x: P, a: u8, b: u8) -> P {
        match self {
            Cx::All(n, i) => P::All((0..*n).map(|j| if j == *i { x.clone() } else { P::Lit(vec![a]) }).collect()),
            Cx::Any(n, i) => P::Any((0..*n).map(|j| if j == *i { x.clone() } else { P::Lit(vec![b]) }).collect()),
            Cx::Un(u) => u.apply(x),
        }
    }
}

/// Two overlapping patterns, each put into the same context of the given depth, as alternatives
/// or one after the other. (contexts^depth * 4 * 3 cases)
pub fn in_context(i: u64, cxs: &[Cx], depth: usize) -> P {
    let k = cxs.len() as u64;
    let probes = [
        (P::Range(0, 2), P::Lit(vec![1, 3])),
        (P::Range(0, 1), P::Range(1, 2)),
        (P::Lit(vec![2]), P::Range(1, 3)),
        (P::Lit(vec![1]), P::Lit(vec![1, 2])),
    ];
    let (x, y) = probes[(i % 4) as usize].clone();
    let c: Vec<usize> = seq(i / 12, k, depth);
    let put = |p: P| c.iter().rev().fold(p, |p, j| cxs[*j].fill(p, 1, 3));
    match i / 4 % 3 {
        0 => P::Any(vec![put(x), put(y)]),
        1 => P::Any(vec![put(P::All(vec![y, P::Lit(vec![0])])), x]),
        _ => P::All(vec![P::Inf(0, Box::new(x.clone())), put(x), put(y)]),
    }
}

/// Patterns that are more particular than those of few nodes: lists with repetitions of the same, words that share
/// beginnings, a grid of counts, and overlapping patterns deep inside lists. (Symbols 0..=4.)
pub struct Bank { list: u32, top: u64, words: (u64, u32, usize), cxs: Vec<Cx>, depth: usize }

impl Bank {
    pub fn new(list: u32, top: u64, words: (u64, u32, usize), cx: usize, depth: usize) -> Bank { Bank { list, top, words, cxs: contexts(cx, true), depth } }

    pub fn text(&self) -> String {
        format!("every word of up to 6 symbols over a, b and either, anywhere in the input; every pair of 12 patterns in 8 arrangements; every list of up to {} of 8 small patterns as alternatives or in sequence; x(lo..hi) and x{{lo,}} for lo, hi <= {} and 9 inner patterns; every list of {} literals of up to {} symbols over {}; overlapping patterns in every nesting of depth {} of {} lists and repetitions",
            self.list, self.top, self.words.2, self.words.1, self.words.0, self.depth, self.cxs.len())
    }

    fn parts(&self) -> [u64; 6] {
        [string_count(3, 6), 12 * 12 * 8, 2 * string_count(8, self.list), 9 * (self.top + 1) * (self.top + 2), string_count(self.words.0, self.words.1).pow(self.words.2 as u32), (self.cxs.len() as u64).pow(self.depth as u32) * 12]
    }

    pub fn total(&self) -> u64 { self.parts().iter().sum() }

    pub fn items() -> Vec<P> { vec![lit(&[1]), lit(&[2]), lit(&[3]), lit(&[4]), P::Range(1, 2), P::Range(2, 4), lit(&[1, 2]), P::Eps] }

    pub fn get(&self, i: u64) -> P {
        let [y, z, a, b, c, _] = self.parts();
        let bx = |p: P| Box::new(p);
        if i < y {
            let any = P::Range(0, 1);
            let mut v = vec![P::Inf(0, bx(any.clone()))];
            v.extend(string(3, i).into_iter().map(|x| if x == 2 { any.clone() } else { lit(&[x]) }));
            return P::All(v);
        }
        let i = i - y;
        if i < z {
            let inner = [
                lit(&[0]), lit(&[1]), lit(&[0, 1]), P::Inf(0, bx(lit(&[0]))), P::Inf(0, bx(lit(&[1]))), P::Inf(0, bx(lit(&[0, 1]))), P::Inf(1, bx(lit(&[0]))), P::Rep(0, 3, bx(lit(&[0]))),
                P::Range(0, 1), P::Eps, P::Inf(0, bx(P::Any(vec![lit(&[0]), lit(&[1])]))), P::Any(vec![lit(&[0]), lit(&[1, 2])]),
            ];
            let d = digits(i, &[8, 12, 12]);
            let (u, v, l) = (inner[d[1] as usize].clone(), inner[d[2] as usize].clone(), lit(&[2]));
            let any = P::Any(vec![u.clone(), v.clone()]);
            return match d[0] {
                0 => P::All(vec![l, any]), 1 => P::All(vec![any, l]), 2 => P::All(vec![l, u, v]), 3 => P::Inf(0, bx(any)),
                4 => P::All(vec![l.clone(), P::Inf(0, bx(P::All(vec![u, v]))), l]), 5 => P::Rep(1, 4, bx(P::All(vec![u, v]))), 6 => P::All(vec![l.clone(), P::Rep(0, 3, bx(any)), l]), _ => P::Any(vec![P::All(vec![l.clone(), u]), P::All(vec![l, v])]),
            };
        }
        let i = i - z;
        if i < a {
            let items = Bank::items();
            let l: Vec<P> = string(8, i / 2).into_iter().map(|x| items[x as usize].clone()).collect();
            return if i % 2 == 0 { P::Any(l) } else { P::All(l) };
        }
        let i = i - a;
        if i < b {
            let inner = [
                lit(&[0]), lit(&[0, 1]), P::Any(vec![lit(&[0]), lit(&[0, 1])]), P::Range(0, 1), P::Rep(0, 2, bx(lit(&[0]))),
                P::Inf(0, bx(lit(&[0]))), P::Any(vec![P::Eps, lit(&[1])]), P::Rep(2, 4, bx(lit(&[1]))), P::Inf(2, bx(lit(&[0]))),
            ];
            let d = digits(i, &[9, self.top + 2, self.top + 1]);
            let x = bx(inner[d[0] as usize].clone());
            return if d[1] == self.top + 1 { P::Inf(d[2] as u32, x) } else { P::Rep(d[2] as u32, d[1] as u32, x) };
        }
        let i = i - b;
        if i < c {
            let one = string_count(self.words.0, self.words.1);
            return P::Any(seq(i, one, self.words.2).into_iter().map(|x| lit(&string(self.words.0, x as u64))).collect());
        }
        in_context(i - c, &self.cxs, self.depth)
    }
}

/// Four neighbouring symbols around every place where a narrower representation ends (powers of two, their negatives, and zero),
/// as far as the type has them
pub fn int_windows<T: TryFrom<i128> + Clone>() -> Vec<Vec<T>> {
    let mut at: Vec<i128> = vec![0];
    for k in [7, 8, 12, 15, 16, 24, 31, 32, 48, 52, 53, 62, 63, 64] { at.push(1i128 << k); at.push(-(1i128 << k)); }
    at.sort();
    // (the windows at the ends of the type are moved inwards)
    let fits = |x: i128| T::try_from(x).is_ok();
    let mut v: Vec<Vec<T>> = vec![];
    let mut last = None;
    for c in at {
        let Some(first) = (-3i128..=0).map(|d| c - 2 - d).chain((1..=2).map(|d| c - 2 - d)).find(|f| fits(*f) && fits(*f + 3) && *f <= c && *f + 3 >= c - 1) else { continue };
        if last == Some(first) { continue; }
        last = Some(first);
        v.push((0..4).map(|j| T::try_from(first + j).ok().unwrap()).collect());
    }
    v
}

pub fn char_windows() -> Vec<Vec<char>> {
    let mut v = vec![];
    for c in [2u32, 0x80, 0x100, 0x800, 0x1000, 0xfffe, 0x10000, 0x1fffe, 0x20000, 0x80000, 0x100000, 0x10fffe] { v.push((c - 2..c + 2).map(|x| char::from_u32(x).unwrap()).collect()); }
    v.push(vec!['\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}']);
    v
}

/// One family from the windows of every symbol type: `$f(name, windows)`
#[macro_export]
macro_rules! every_window {
    ($f:ident, $v:expr) => {
        $v.push($f("windows-u8", $crate::space::int_windows::<u8>())); $v.push($f("windows-i8", $crate::space::int_windows::<i8>()));
        $v.push($f("windows-u16", $crate::space::int_windows::<u16>())); $v.push($f("windows-i16", $crate::space::int_windows::<i16>()));
        $v.push($f("windows-u32", $crate::space::int_windows::<u32>())); $v.push($f("windows-i32", $crate::space::int_windows::<i32>()));
        $v.push($f("windows-u64", $crate::space::int_windows::<u64>())); $v.push($f("windows-i64", $crate::space::int_windows::<i64>()));
        $v.push($f("windows-usize", $crate::space::int_windows::<usize>())); $v.push($f("windows-isize", $crate::space::int_windows::<isize>()));
        $v.push($f("windows-char", $crate::space::char_windows()));
    };
}

/// The two symbols at each of those places, ascending
pub fn window_ends<S: Ord + Clone>(w: &[Vec<S>]) -> Vec<S> {
    let mut v: Vec<S> = w.iter().flat_map(|w| w[1..3].to_vec()).collect();
    v.extend(w.first().map(|x| x[0].clone()));
    v.extend(w.last().map(|x| x[3].clone()));
    v.sort();
    v.dedup();
    v
}
