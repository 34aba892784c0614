//! Records histories of EnumSets
use bit_set::BitSet;
use enum_like::EnumLike;
use enum_like_derive::EnumLike;
use enum_set2::EnumSet;
use like::heap::live;
use like::json::*;
use like::{quiet, watch};
use std::fmt::Debug;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Write};

/// N values; Debug differs from the number, Ord is reversed
#[derive(Copy, Clone, PartialEq, Eq, Hash)]
struct D<const N: usize>(usize);
impl<const N: usize> Debug for D<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if f.alternate() {
            f.debug_tuple("D").field(&self.0).finish()
        } else {
            write!(f, "v{}", self.0)
        }
    }
}
impl<const N: usize> PartialOrd for D<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for D<N> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
unsafe impl<const N: usize> EnumLike for D<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        conversion();
        self.0
    }
    fn from_discr(x: usize) -> Self {
        conversion();
        D(x)
    }
}

thread_local!(static CONV: std::cell::Cell<(i64, bool)> = const { std::cell::Cell::new((-1, false)) });
/// The conversions of D<N> panic after k more (never if negative)
fn arm(k: i64) {
    CONV.with(|c| c.set((k, false)))
}
/// Ends that; did one panic?
fn disarm() -> bool {
    CONV.with(|c| c.replace((-1, false)).1)
}
fn conversion() {
    CONV.with(|c| match c.get() {
        (0, _) => {
            c.set((-1, true));
            panic!("conversion")
        }
        (k, f) if k > 0 => c.set((k - 1, f)),
        _ => {}
    })
}

#[derive(Clone, Copy, Debug, EnumLike, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum De {
    A(bool, Option<bool>),
    B,
    C { x: [bool; 5] },
    E,
}

/// Records what is fed to a hasher
struct Feed(u64);
impl Hasher for Feed {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        }
        self.0 = self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(b.len() as u64);
    }
}

const SLOTS: usize = 4;

#[global_allocator]
static COUNTED: like::heap::Counted = like::heap::Counted;

#[derive(Clone, Debug, Default)]
struct Op {
    o: &'static str,
    i: usize,
    j: usize,
    a: Vec<usize>,
    q: Vec<(i64, i64)>,
    /// how many conversions succeed
    f: Option<i64>,
}

trait Env {
    fn pal(&self) -> usize;
    fn txt(&self, alt: bool) -> Vec<String>;
    fn exec(&mut self, op: &Op) -> String;
    /// did a conversion panic in the last operation?
    fn fired(&self) -> bool;
    /// capacity in bits and blocks in use of each slot
    fn mem(&self) -> Vec<(usize, usize)>;
    /// the discriminants of the palette
    fn ds(&self) -> Vec<usize>;
    /// members (of the palette) and length of each slot
    fn obs(&self) -> Option<(Vec<Vec<usize>>, Vec<(usize, bool)>)>;
    fn n(&self) -> usize;
    /// empty sets of the same kind
    fn fresh(&self) -> Box<dyn Env>;
}

struct W<T: EnumLike> {
    s: Vec<EnumSet<T>>,
    pal: Vec<T>,
    fired: bool,
}

fn list<X: Debug>(v: &[X]) -> String {
    format!("{:?}", v)
}

/// Discriminants of a type of n values: all of them if they are few, else many near those of the palette
fn around(n: usize, pal: &[usize]) -> Vec<usize> {
    if n <= 600 {
        return (0..n).collect();
    }
    let w = usize::BITS - (n - 1).leading_zeros();
    let mut v: Vec<usize> = vec![n - 1, n / 2];
    for k in 0..w {
        for &d in pal {
            v.extend([d ^ (1 << k), d.wrapping_add(1 << k), d.wrapping_sub(1 << k)].into_iter().filter(|&c| c < n));
        }
    }
    v
}

/// An iterator that panics after so many items
struct Bad<I>(I, usize);
impl<I: Iterator> Iterator for Bad<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.1 == 0 {
            panic!("iterator")
        }
        self.1 -= 1;
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

/// An iterator whose size hint is of a chosen kind
struct Odd<I>(I, usize);
impl<I: Iterator> Iterator for Odd<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => self.0.size_hint(),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            _ => (1, Some(1)),
        }
    }
}

impl<T: EnumLike + Debug + PartialEq + Ord + Hash + 'static> W<T> {
    fn ix(&self, v: T) -> i64 {
        self.pal.iter().position(|x| *x == v).map_or(-1, |k| k as i64)
    }
    fn script<I: Iterator<Item = T>>(&self, mut it: I, q: &[(i64, i64)]) -> String {
        let o = |x: Option<T>| x.map_or("[\"n\"]".to_string(), |v| format!("[\"s\",{}]", self.ix(v)));
        let mut out: Vec<String> = vec![];
        let cut = |x: usize| x.min(1_000_000_000);
        for (c, n) in q {
            let n = if *n < 0 { usize::MAX } else { *n as usize };
            match c {
                0 => out.push(o(it.next())),
                2 => out.push(o(it.nth(n))),
                4 => {
                    let (a, b) = it.size_hint();
                    out.push(format!("[\"h\",{},{}]", cut(a), b.map_or(-1, |x| cut(x) as i64)))
                }
                12 => {
                    let v: Vec<i64> = it.by_ref().take(n).map(|x| self.ix(x)).collect();
                    out.push(format!("[\"q\",{:?}]", v))
                }
                6 => {
                    out.push(format!("[\"l\",{}]", it.count()));
                    break;
                }
                7 => {
                    out.push(o(it.last()));
                    break;
                }
                8 => {
                    let v: Vec<i64> = it.map(|x| self.ix(x)).collect();
                    out.push(format!("[\"q\",{:?}]", v));
                    break;
                }
                10 => {
                    let v: Vec<i64> = it.skip(n).map(|x| self.ix(x)).collect();
                    out.push(format!("[\"q\",{:?}]", v));
                    break;
                }
                11 => {
                    let v: Vec<i64> = it.step_by(n + 1).map(|x| self.ix(x)).collect();
                    out.push(format!("[\"q\",{:?}]", v));
                    break;
                }
                13 => {
                    let v: Vec<i64> = it.fold(vec![], |mut v, x| {
                        v.push(self.ix(x));
                        v
                    });
                    out.push(format!("[\"q\",{:?}]", v));
                    break;
                }
                16 => out.push(it.position(|x| self.ix(x) == n as i64).map_or("[\"n\"]".into(), |k| format!("[\"l\",{}]", k))),
                19 => out.push(format!("[\"l\",{}]", it.any(|x| self.ix(x) == n as i64) as u8)),
                20 => out.push(format!("[\"l\",{}]", it.all(|x| self.ix(x) != n as i64) as u8)),
                21 => out.push(o(it.find(|x| self.ix(*x) == n as i64))),
                18 => {
                    let mut v: Vec<i64> = vec![];
                    it.for_each(|x| v.push(self.ix(x)));
                    out.push(format!("[\"q\",{:?}]", v));
                    break;
                }
                _ => unreachable!(),
            }
        }
        format!("[\"i\",[{}]]", out.join(","))
    }
    fn run(&mut self, op: &Op) -> String {
        let (i, j) = (op.i, op.j);
        let vals: Vec<T> = op.a.iter().map(|k| self.pal[*k]).collect();
        let b = |x: bool| format!("[\"b\",{}]", x as u8);
        let u = "[\"u\"]".to_string();
        match op.o {
            "new" => self.s[i] = EnumSet::new(),
            "default" => self.s[i] = Default::default(),
            "insert" => return b(self.s[i].insert(vals[0])),
            "remove" => return b(self.s[i].remove(vals[0])),
            "extend" => self.s[i].extend(Odd(vals.into_iter(), op.q[0].0 as usize)),
            "collect" => self.s[i] = Odd(vals.into_iter(), op.q[0].0 as usize).collect(),
            "extendbad" => self.s[i].extend(Odd(Bad(vals.into_iter(), op.q[0].1 as usize), op.q[0].0 as usize)),
            "collectbad" => self.s[i] = Odd(Bad(vals.into_iter(), op.q[0].1 as usize), op.q[0].0 as usize).collect(),
            "clear" => self.s[i].clear(),
            "shrink" => self.s[i].shrink_to_fit(),
            "unionw" | "interw" | "diffw" | "symw" => {
                let other = if i == j { self.s[i].clone() } else { std::mem::take(&mut self.s[j]) };
                let s = &mut self.s[i];
                match op.o {
                    "unionw" => s.union_with(&other),
                    "interw" => s.intersect_with(&other),
                    "diffw" => s.difference_with(&other),
                    _ => s.symmetric_difference_with(&other),
                }
                if i != j {
                    self.s[j] = other
                }
            }
            "clone" => self.s[j] = self.s[i].clone(),
            "clonefrom" => {
                let x = self.s[i].clone();
                self.s[j].clone_from(&x)
            }
            "tobits" => {
                let x = std::mem::take(&mut self.s[i]).into_bit_set();
                let v: Vec<i64> = x.iter().map(|d| self.pal.iter().position(|p| p.to_discr() == d).map_or(-1, |k| k as i64)).collect();
                self.s[i] = EnumSet::from_bit_set(x);
                return format!("[\"q\",{:?}]", v);
            }
            "refbits" => {
                let v: Vec<i64> = self.s[i].get_ref().iter().map(|d| self.pal.iter().position(|p| p.to_discr() == d).map_or(-1, |k| k as i64)).collect();
                return format!("[\"q\",{:?}]", v);
            }
            "frombits" => {
                let mut x = BitSet::with_capacity(op.q[0].0 as usize);
                for v in vals {
                    x.insert(v.to_discr());
                }
                self.s[i] = EnumSet::from_bit_set(x);
            }
            "has" => return b(self.s[i].contains(vals[0])),
            // values outside the palette: how many are said to be there (first before, then by their removal)
            "scan" => {
                let (mut there, mut removed, mut asked) = (0, 0, 0);
                let pal: Vec<usize> = self.pal.iter().map(|x| x.to_discr()).collect();
                for d in around(T::NUM_VARIANTS, &pal) {
                    if !pal.contains(&d) {
                        asked += 1;
                        there += self.s[i].contains(T::from_discr(d)) as i64;
                        removed += self.s[i].remove(T::from_discr(d)) as i64;
                    }
                }
                return format!("[\"q\",[{},{},{}]]", there, removed, asked);
            }
            "iter" => return self.script(self.s[i].iter(), &op.q),
            "into" => return self.script((&self.s[i]).into_iter(), &op.q),
            "union" => return self.script(self.s[i].union(&self.s[j]), &op.q),
            "inter" => return self.script(self.s[i].intersection(&self.s[j]), &op.q),
            "diff" => return self.script(self.s[i].difference(&self.s[j]), &op.q),
            "sym" => return self.script(self.s[i].symmetric_difference(&self.s[j]), &op.q),
            "sub" => return b(self.s[i].is_subset(&self.s[j])),
            "sup" => return b(self.s[i].is_superset(&self.s[j])),
            "dis" => return b(self.s[i].is_disjoint(&self.s[j])),
            "debug" => return format!("[\"t\",{},{}]", js_str(&format!("{:?}", self.s[i])), js_str(&format!("{:#?}", self.s[i]))),
            "order" => {
                let m = |f: &dyn Fn(&EnumSet<T>, &EnumSet<T>) -> i32| -> String {
                    let rows: Vec<Vec<i32>> = self.s.iter().map(|a| self.s.iter().map(|b| f(a, b)).collect()).collect();
                    list(&rows)
                };
                let h: Vec<u64> = self
                    .s
                    .iter()
                    .map(|s| {
                        let mut f = Feed(0xcbf29ce484222325);
                        s.hash(&mut f);
                        (f.finish() ^ (f.finish() >> 31)) & 0x3fff_ffff
                    })
                    .collect();
                return format!(
                    "[\"o\",{},{},{},{},{}]",
                    m(&|a, b| a.cmp(b) as i32),
                    m(&|a, b| a.partial_cmp(b).map_or(9, |x| x as i32)),
                    m(&|a, b| (a == b) as i32 + 2 * (a != b) as i32),
                    m(&|a, b| (a < b) as i32 + 2 * (a <= b) as i32 + 4 * (a > b) as i32 + 8 * (a >= b) as i32),
                    list(&h)
                );
            }
            _ => unreachable!(),
        }
        u
    }
}

impl<T: EnumLike + Debug + PartialEq + Ord + Hash + 'static> Env for W<T> {
    fn pal(&self) -> usize {
        self.pal.len()
    }
    fn n(&self) -> usize {
        T::NUM_VARIANTS
    }
    fn fresh(&self) -> Box<dyn Env> {
        Box::new(W::<T> { fired: false, s: (0..SLOTS).map(|_| EnumSet::from_bit_set(BitSet::new())).collect(), pal: self.pal.clone() })
    }
    fn txt(&self, alt: bool) -> Vec<String> {
        // the pretty form is that inside a list: every line is indented
        self.pal.iter().map(|v| if alt { format!("{:#?}", v).replace('\n', "\n    ") } else { format!("{:?}", v) }).collect()
    }
    fn exec(&mut self, op: &Op) -> String {
        if let Some(k) = op.f {
            arm(k)
        }
        let r = quiet(|| self.run(op));
        let fired = disarm();
        self.fired = fired;
        r.unwrap_or("[\"p\"]".to_string())
    }
    fn fired(&self) -> bool {
        self.fired
    }
    fn mem(&self) -> Vec<(usize, usize)> {
        self.s.iter().map(|s| (s.get_ref().capacity().min(1_000_000_000), s.get_ref().get_ref().storage().len())).collect()
    }
    fn ds(&self) -> Vec<usize> {
        self.pal.iter().map(|v| v.to_discr()).collect()
    }
    fn obs(&self) -> Option<(Vec<Vec<usize>>, Vec<(usize, bool)>)> {
        quiet(|| {
            (
                self.s.iter().map(|s| (0..self.pal.len()).filter(|k| s.contains(self.pal[*k])).collect()).collect(),
                self.s.iter().map(|s| (s.len(), s.is_empty())).collect(),
            )
        })
    }
}

fn make<T: EnumLike + Debug + PartialEq + Ord + Hash + 'static>(r: &mut Rng, size: usize) -> Box<dyn Env> {
    // a set of a huge type is as large as its largest member
    let n = T::NUM_VARIANTS.min(1 << 17);
    let mut ks: Vec<usize> = vec![];
    if n <= size {
        ks = (0..n).collect();
    } else {
        let cand = [0, n - 1, 31, 32, 33, 63, 64, 95, 96, 127, 128, 1, n / 2, n.saturating_sub(2), (n - 1) / 32 * 32, ((n - 1) / 32 * 32).saturating_sub(1)];
        let lo = r.below(n);
        while ks.len() < size {
            let c = match r.below(4) {
                0 => r.below(n),
                1 => (lo + r.below(40.max(size))) % n,
                _ => cand[r.below(cand.len())],
            };
            if c < n && !ks.contains(&c) {
                ks.push(c)
            }
        }
        ks.sort();
    }
    Box::new(W::<T> { fired: false, s: (0..SLOTS).map(|_| EnumSet::from_bit_set(BitSet::new())).collect(), pal: ks.into_iter().map(T::from_discr).collect() })
}

type Make = fn(&mut Rng, usize) -> Box<dyn Env>;
fn types() -> Vec<(&'static str, Make, usize)> {
    macro_rules! t { ($($t:ty),+ $(,)?) => { vec![$((stringify!($t), make::<$t> as Make, <$t as EnumLike>::NUM_VARIANTS)),+] } }
    t! {
        bool, D<5>, D<33>, D<64>, D<65>, D<100>, Option<bool>, D<32>, D<300>, De, D<1000>, (bool, [bool; 6]), D<70000>, D<31>, D<1>, Result<D<40>, Option<D<31>>>, D<128>, D<129>, D<{ usize::MAX }>, D<{ (1 << 63) + 1 }>
    }
}

fn script(r: &mut Rng) -> Vec<(i64, i64)> {
    let mut q = vec![];
    for _ in 0..r.below(7) {
        let n = r.below(4) as i64;
        q.push(match r.below(9) {
            0..=2 => (0, 0),
            3..=5 => (4, 0),
            6 => (2, n),
            7 => (12, n),
            // looks for a value
            _ => ([16, 19, 20, 21][r.below(4)], r.below(9) as i64),
        });
    }
    let n = r.below(4) as i64;
    q.push(match r.below(9) {
        0 => (6, 0),
        1 => (7, 0),
        2 => (10, n),
        3 => (11, n),
        4 => (13, 0),
        5 => (2, -1),
        6 => (18, 0),
        _ => (8, 0),
    });
    q
}

struct Rec<'a> {
    env: Box<dyn Env>,
    evs: Vec<String>,
    pend: &'a mut Option<File>,
    m: Vec<Vec<usize>>,
    dead: bool,
    mem: bool,
    heap: bool,
    ops: Vec<Op>,
}

impl<'a> Rec<'a> {
    fn ev(&mut self, op: Op) {
        if self.dead {
            return;
        }
        watch::tick();
        let q: Vec<String> = op.q.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
        let a = format!("\"o\":\"{}\",\"i\":{},\"j\":{},\"a\":{:?},\"q\":[{}]", op.o, op.i, op.j, op.a, q.join(","));
        if let Some(f) = &mut self.pend {
            writeln!(f, "P {{{}}}", a).unwrap();
            f.flush().unwrap();
        }
        let r = self.env.exec(&op);
        let a = if op.f.is_some() { format!("{},\"f\":{}", a, self.env.fired() as u8) } else { a };
        let (m, n) = match self.env.obs() {
            Some(x) => x,
            None => {
                self.dead = true;
                (vec![], vec![])
            }
        };
        let z: Vec<String> = n.iter().map(|(l, e)| format!("[{},{}]", l, *e as u8)).collect();
        // only when they changed
        let d: Vec<String> = (0..m.len()).filter(|k| m[*k] != self.m[*k]).map(|k| format!("[{},{:?}]", k, m[k])).collect();
        let c: Vec<String> = if self.mem { self.env.mem().iter().map(|(a, b)| format!("[{},{}]", a, b)).collect() } else { vec![] };
        let c = if self.mem { format!(",\"c\":[{}]", c.join(",")) } else { String::new() };
        let e = format!("{{{},\"r\":{},\"d\":[{}],\"z\":[{}]{}}}", a, r, d.join(","), z.join(","), c);
        if let Some(f) = &mut self.pend {
            writeln!(f, "E {}", e).unwrap();
            f.flush().unwrap();
        }
        if !self.dead {
            self.m = m;
        }
        self.evs.push(e);
        if self.heap {
            self.ops.push(op)
        }
    }
    /// Runs the history again: what all sets together hold after each operation, and what is left when they are dropped
    fn again(&mut self) {
        let end = "\"o\":\"end\",\"i\":0,\"j\":0,\"a\":[],\"q\":[]";
        if let Some(f) = &mut self.pend {
            writeln!(f, "P {{{}}}", end).unwrap();
            f.flush().unwrap();
        }
        let mut h = Vec::with_capacity(self.ops.len() + 1);
        let proto = self.env.fresh();
        self.env = self.env.fresh();
        let before = live();
        let mut env = proto.fresh();
        let base = live();
        for op in &self.ops {
            watch::tick();
            drop(env.exec(op));
            h.push(live() - base);
        }
        drop(env);
        h.push(live() - before);
        self.evs.push(format!("{{{},\"r\":[\"u\"],\"d\":[],\"z\":[]}}", end));
        for (e, n) in self.evs.iter_mut().zip(h) {
            e.pop();
            e.push_str(&format!(",\"hp\":{}}}", n.min(1 << 30)))
        }
    }
}

fn o(name: &'static str, i: usize, j: usize) -> Op {
    Op { o: name, i, j, ..Default::default() }
}

const BINARY: [&str; 4] = ["unionw", "interw", "diffw", "symw"];
const ITERS: [&str; 6] = ["iter", "into", "union", "inter", "diff", "sym"];

/// makes slot i hold exactly the members of `want`, by a history of some kind
fn build(rec: &mut Rec, r: &mut Rng, i: usize, want: &[usize]) {
    let p = rec.env.pal();
    let mut w = want.to_vec();
    for k in (1..w.len()).rev() {
        w.swap(k, r.below(k + 1));
    }
    let kind = if want.len() > 12 { 1 + r.below(5) } else { r.below(6) };
    match kind {
        0 => {
            rec.ev(o("new", i, i));
            for x in w {
                rec.ev(Op { a: vec![x], ..o("insert", i, i) });
            }
        }
        1 => rec.ev(Op { a: w, q: vec![(r.below(4) as i64, 0)], ..o("collect", i, i) }),
        2 => {
            // spare capacity: a larger element comes and goes
            let mut extra: Vec<usize> = (0..p).filter(|x| !want.contains(x)).collect();
            while p > 8 && extra.len() > 4 {
                let k = r.below(extra.len());
                extra.remove(k);
            }
            let mut all = w.clone();
            all.extend(extra.iter());
            rec.ev(Op { a: all, q: vec![(0, 0)], ..o("collect", i, i) });
            for x in extra {
                rec.ev(Op { a: vec![x], ..o("remove", i, i) });
            }
        }
        3 => {
            rec.ev(o("clear", i, i));
            rec.ev(Op { a: w, q: vec![(r.below(4) as i64, 0)], ..o("extend", i, i) });
        }
        4 => rec.ev(Op { a: w, q: vec![(r.below(200) as i64, 0)], ..o("frombits", i, i) }),
        _ => {
            rec.ev(o(if r.below(2) == 0 { "default" } else { "clear" }, i, i));
            rec.ev(Op { a: w, q: vec![(0, 0)], ..o("extend", i, i) });
            rec.ev(o("shrink", i, i));
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watch::watchdog(15);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(&args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(&args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(&args, "--count", "10").parse().unwrap();
    let profile = arg(&args, "--profile", "edit");
    let pending = arg(&args, "--pending", "");
    let tys = types();
    let mut out = BufWriter::new(File::create(arg(&args, "--out", "/dev/stdout")).unwrap());
    let mut pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut id = start;
    while id < count {
        let mut r = Rng::new(seed, id);
        // profile "pairs": every pair of subsets of a palette of five, by histories of all kinds
        let pairs = profile == "pairs";
        // profile "big": sets of many elements
        let big = profile == "big";
        let wide: Vec<usize> = (0..tys.len()).filter(|k| tys[*k].2 >= 100).collect();
        let t = if big { &tys[wide[(id % wide.len() as u64) as usize]] } else if pairs { &tys[(id / 1024 * 7 + id % 11) as usize % tys.len()] } else { &tys[(id % tys.len() as u64) as usize] };
        let size = if pairs { 5 } else if big { 60 + r.below(200) } else { 8 };
        let env = (t.1)(&mut r, size);
        let p = env.pal();
        let hd = format!(
            "\"h\":{{\"mod\":\"set\",\"ty\":{},\"id\":{},\"p\":{},\"ds\":{:?},\"N\":{},\"txt\":[{}],\"txta\":[{}]}}",
            js_str(t.0),
            id,
            p,
            env.ds(),
            env.n(),
            env.txt(false).iter().map(|x| js_str(x)).collect::<Vec<_>>().join(","),
            env.txt(true).iter().map(|x| js_str(x)).collect::<Vec<_>>().join(",")
        );
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", hd).unwrap();
        }
        let mut rec = Rec { env, evs: vec![], pend: &mut pend, m: vec![vec![]; SLOTS], dead: false, mem: profile == "mem", heap: profile == "heap", ops: vec![] };
        if profile == "mem" {
            rec.ev(o("new", 0, 0));
            rec.ev(o("default", 1, 1));
            rec.ev(Op { q: vec![(0, 0)], ..o("collect", 2, 2) });
        }
        let sub = |bits: usize| -> Vec<usize> { (0..p).filter(|k| bits >> k & 1 == 1).collect() };
        if pairs {
            let (a, b) = ((id % 32) as usize, (id / 32 % 32) as usize);
            build(&mut rec, &mut r, 0, &sub(a));
            build(&mut rec, &mut r, 1, &sub(b));
            build(&mut rec, &mut r, 2, &sub(a));
            for k in ["sub", "sup", "dis"] {
                rec.ev(o(k, 0, 1));
            }
            for k in ITERS {
                rec.ev(Op { q: vec![(8, 0)], ..o(k, 0, 1) });
                rec.ev(Op { q: script(&mut r), ..o(k, 0, 1) });
            }
            rec.ev(o("order", 0, 0));
            rec.ev(o("debug", 0, 0));
            for k in BINARY {
                rec.ev(o("clone", 0, 3));
                rec.ev(o(k, 3, 1));
            }
            rec.ev(o("order", 0, 0));
        } else if big {
            let toggle = |r: &mut Rng, w: &mut Vec<usize>| {
                let x = r.below(p);
                match w.iter().position(|y| *y == x) {
                    Some(k) => {
                        w.remove(k);
                    }
                    None => {
                        let k = w.partition_point(|y| *y < x);
                        w.insert(k, x)
                    }
                }
            };
            for i in 0..SLOTS {
                // runs of neighbours, or the set before with a difference
                let mut w: Vec<usize> = vec![];
                if i > 0 && r.below(3) > 0 {
                    w = rec.m[i - 1].clone();
                } else {
                    for _ in 0..1 + r.below(3) {
                        let (a, n) = (r.below(p), r.below(p));
                        w.extend(a..p.min(a + n));
                    }
                    w.sort();
                    w.dedup();
                }
                for _ in 0..r.below(3) {
                    toggle(&mut r, &mut w)
                }
                build(&mut rec, &mut r, i, &w);
            }
            for _ in 0..16 {
                let (i, j) = (r.below(SLOTS), r.below(SLOTS));
                let h = vec![(r.below(4) as i64, 0)];
                match r.below(12) {
                    0 => rec.ev(o("debug", i, i)),
                    1 => rec.ev(o("order", i, i)),
                    2 => rec.ev(o(["sub", "sup", "dis"][r.below(3)], i, j)),
                    3 => rec.ev(o(BINARY[r.below(4)], i, j)),
                    4 => rec.ev(Op { a: (0..r.below(30)).map(|_| r.below(p)).collect(), q: h, ..o("extend", i, i) }),
                    5 => rec.ev(Op { a: vec![r.below(p)], ..o(["insert", "remove", "has"][r.below(3)], i, i) }),
                    6 => rec.ev(o(["tobits", "refbits", "shrink", "clone", "clonefrom"][r.below(5)], i, j)),
                    7 => {
                        let mut w = rec.m[j].clone();
                        toggle(&mut r, &mut w);
                        build(&mut rec, &mut r, i, &w)
                    }
                    _ => {
                        let mut q = script(&mut r);
                        for c in q.iter_mut() {
                            if c.1 > 0 && r.below(2) == 0 {
                                c.1 = r.below(p + 2) as i64
                            }
                        }
                        rec.ev(Op { q, ..o(ITERS[r.below(6)], i, j) })
                    }
                }
            }
        } else {
            let small = p > 4 && r.below(2) == 0;
            while rec.evs.len() < 45 && !rec.dead {
                let (i, j) = (r.below(SLOTS), r.below(SLOTS));
                let x = if small { r.below(4) } else { r.below(p) };
                let some: Vec<usize> = (0..r.below(7)).map(|_| r.below(p)).collect();
                let h = vec![(r.below(4) as i64, 0)];
                let edits = match profile {
                    "edit" => 80,
                    "faults" => 90,
                    "mem" => 97,
                    "heap" => 85,
                    "iter" => 45,
                    _ => 50,
                };
                let query = r.below(100) >= edits;
                if (profile == "faults" || profile == "heap") && r.below(3) == 0 {
                    let hint = r.below(3) as i64;
                    let k = r.below(some.len() + 1) as i64;
                    match r.below(8) {
                        0..=2 => rec.ev(Op { a: some, q: vec![(hint, k)], ..o("extendbad", i, i) }),
                        3 => rec.ev(Op { a: some, q: vec![(hint, k)], ..o("collectbad", i, i) }),
                        4 => rec.ev(Op { a: some, q: h, f: Some(k), ..o("extend", i, i) }),
                        5 => rec.ev(Op { a: some, q: h, f: Some(k), ..o("collect", i, i) }),
                        6 => rec.ev(Op { a: vec![x], f: Some(0), ..o(["insert", "remove", "has"][r.below(3)], i, i) }),
                        _ => rec.ev(Op { q: vec![(8, 0)], f: Some(r.below(3) as i64), ..o(ITERS[r.below(6)], i, j) }),
                    }
                } else if !query {
                    match r.below(40) {
                        0..=9 => rec.ev(Op { a: vec![x], ..o("insert", i, i) }),
                        10..=16 => rec.ev(Op { a: vec![x], ..o("remove", i, i) }),
                        17..=18 => rec.ev(Op { a: some, q: h, ..o("extend", i, i) }),
                        19 => rec.ev(Op { a: some, q: h, ..o("collect", i, i) }),
                        20 if profile != "mem" => rec.ev(o("clear", i, i)),
                        21 => rec.ev(o("new", i, i)),
                        22..=27 => rec.ev(o(BINARY[r.below(4)], i, j)),
                        28..=29 => rec.ev(o("clone", i, j)),
                        30 => rec.ev(o("clonefrom", i, j)),
                        31 | 20 if profile == "mem" => rec.ev(o("shrink", i, i)),
                        31 => rec.ev(o("shrink", i, i)),
                        32 => rec.ev(o("tobits", i, i)),
                        33 => rec.ev(o("refbits", i, i)),
                        34 => rec.ev(Op { a: some, q: vec![(r.below(300) as i64, 0)], ..o("frombits", i, i) }),
                        35 => rec.ev(Op { a: vec![x], ..o("has", i, i) }),
                        36 if profile == "edit" => rec.ev(o("scan", i, i)),
                        _ => {
                            // the same members by another history
                            let w = rec.m[j].clone();
                            build(&mut rec, &mut r, i, &w)
                        }
                    }
                } else {
                    match profile {
                        "iter" | "edit" | "faults" | "mem" | "heap" => match r.below(10) {
                            0 => rec.ev(o("sub", i, j)),
                            1 => rec.ev(o("sup", i, j)),
                            2 => rec.ev(o("dis", i, j)),
                            _ => rec.ev(Op { q: script(&mut r), ..o(ITERS[r.below(6)], i, j) }),
                        },
                        _ => match r.below(4) {
                            0 => rec.ev(o("debug", i, i)),
                            _ => rec.ev(o("order", i, i)),
                        },
                    }
                }
            }
        }
        if rec.heap {
            rec.again()
        }
        writeln!(out, "{{{},\"e\":[{}]}}", hd, rec.evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}
