//! Records histories of `values()` iterators
use enum_like::{EnumLike, EnumValues};
use enum_like_derive::EnumLike;
use like::json::*;
use like::*;
use std::fs::File;
use std::io::{BufWriter, Write};

trait It {
    fn next(&mut self) -> Option<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u64>;
    fn dup(&self) -> Box<dyn It>;
    fn copy(&self) -> Box<dyn It>;
    fn take(&mut self, n: usize) -> Vec<u64>;
    fn skip(self: Box<Self>, n: usize, m: usize) -> Vec<u64>;
    fn step(self: Box<Self>, n: usize, m: usize) -> Vec<u64>;
    fn fold(self: Box<Self>) -> Vec<u64>;
    fn each(self: Box<Self>) -> Vec<u64>;
    fn position(&mut self, n: u64) -> Option<u64>;
    fn find(&mut self, n: u64) -> Option<u64>;
    fn any(&mut self, n: u64) -> usize;
    fn collect(self: Box<Self>) -> Vec<u64>;
}

struct W<T: EnumLike>(enum_like::Values<T>);
fn d<T: EnumLike>(x: T) -> u64 {
    x.to_discr() as u64
}
impl<T: EnumLike + 'static> It for W<T> {
    fn next(&mut self) -> Option<u64> {
        self.0.next().map(d)
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth(n).map(d)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<u64> {
        self.0.last().map(d)
    }
    fn dup(&self) -> Box<dyn It> {
        Box::new(W(Clone::clone(&self.0)))
    }
    fn copy(&self) -> Box<dyn It> {
        let c = self.0;
        Box::new(W(c))
    }
    fn take(&mut self, n: usize) -> Vec<u64> {
        self.0.by_ref().take(n).map(d).collect()
    }
    fn skip(self: Box<Self>, n: usize, m: usize) -> Vec<u64> {
        self.0.skip(n).take(m).map(d).collect()
    }
    fn step(self: Box<Self>, n: usize, m: usize) -> Vec<u64> {
        self.0.step_by(n + 1).take(m).map(d).collect()
    }
    fn fold(self: Box<Self>) -> Vec<u64> {
        self.0.fold(Vec::new(), |mut v, x| {
            v.push(d(x));
            v
        })
    }
    fn each(self: Box<Self>) -> Vec<u64> {
        let mut v = Vec::new();
        self.0.for_each(|x| v.push(d(x)));
        v
    }
    fn position(&mut self, n: u64) -> Option<u64> {
        self.0.position(|x| d(x) == n).map(|x| x as u64)
    }
    fn find(&mut self, n: u64) -> Option<u64> {
        self.0.find(|x| d(*x) == n).map(d)
    }
    fn any(&mut self, n: u64) -> usize {
        self.0.any(|x| d(x) == n) as usize
    }
    fn collect(self: Box<Self>) -> Vec<u64> {
        self.0.take(2000).map(d).collect::<Vec<_>>()
    }
}

#[derive(Clone, Copy, EnumLike)]
enum De {
    _A(bool, Option<bool>),
    _B,
    _C { x: La3 },
}
type La3 = La<3>;
#[derive(Clone, Copy, EnumLike)]
enum Never {}
#[derive(Clone, Copy, EnumLike)]
struct St(La3, La3, bool);

struct Ty {
    name: &'static str,
    n: u64,
    make: fn() -> Box<dyn It>,
}

fn types() -> Vec<Ty> {
    macro_rules! t { ($($t:ty = $n:expr),+ $(,)?) => { vec![$(Ty { name: stringify!($t), n: $n, make: || Box::new(W(<$t as EnumValues>::values())) }),+] } }
    t! {
        Lw<0> = 0, Lw<1> = 1, Lw<2> = 2, Lw<3> = 3, Lw<4> = 4, Lw<5> = 5, () = 1, bool = 2, Option<bool> = 3, De = 10, Never = 0, St = 18,
        Lw<7> = 7, Lw<17> = 17, Lw<255> = 255, Lw<256> = 256, Lw<257> = 257, Lw<300> = 300, [bool; 8] = 256, [La3; 0] = 1, (La3, bool) = 6,
        Lw<65535> = 65535, Lw<65536> = 65536, Lw<{ 1 << 31 }> = 1 << 31, Lw<{ (1 << 31) + 1 }> = (1 << 31) + 1,
        Lw<0xFFFF_FFFF> = 0xFFFF_FFFF, Lw<0x1_0000_0000> = 0x1_0000_0000, Lw<0x1_0000_0001> = 0x1_0000_0001, [bool; 32] = 1 << 32,
        Lw<{ (1 << 63) - 1 }> = (1 << 63) - 1, Lw<{ 1 << 63 }> = 1 << 63, Lw<{ (1 << 63) + 1 }> = (1 << 63) + 1,
        Lw<{ usize::MAX }> = u64::MAX, Lw<{ usize::MAX - 1 }> = u64::MAX - 1, ([bool; 32], [bool; 31]) = 1 << 63,
    }
}

fn list(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| limbs(*x)).collect::<Vec<_>>().join(","))
}
fn opt(x: Option<Option<u64>>) -> String {
    match x {
        None => "[\"p\"]".into(),
        Some(None) => "[\"n\"]".into(),
        Some(Some(v)) => format!("[\"s\",{}]", limbs(v)),
    }
}
fn seq(x: Option<Vec<u64>>) -> String {
    x.map_or("[\"p\"]".into(), |v| format!("[\"q\",{}]", list(&v)))
}
fn num(x: Option<usize>) -> String {
    x.map_or("[\"p\"]".into(), |v| format!("[\"l\",{}]", limbs(v as u64)))
}

const SLOTS: usize = 3;
struct Run {
    its: Vec<Option<Box<dyn It>>>,
    evs: Vec<String>,
    make: fn() -> Box<dyn It>,
}

impl Run {
    fn ev(&mut self, pend: &mut Option<File>, o: &str, i: usize, a: u64, b: u64) {
        watch::tick();
        let args = format!("\"o\":\"{}\",\"i\":{},\"a\":{},\"b\":{}", o, i, limbs(a), limbs(b));
        if let Some(f) = pend {
            writeln!(f, "P {{{}}}", args).unwrap();
            f.flush().unwrap();
        }
        let (j, n, m) = ((i + 1) % SLOTS, a as usize, b as usize);
        let its = &mut self.its;
        let r = match o {
            "new" => {
                let mk = self.make;
                let x = quiet(|| mk());
                let p = x.is_some();
                its[i] = x;
                if p { "[\"u\"]".into() } else { "[\"p\"]".into() }
            }
            "clone" | "copy" => {
                let x = its[i].as_ref().unwrap();
                let y = quiet(|| if o == "clone" { x.dup() } else { x.copy() });
                let p = y.is_some();
                its[j] = y;
                if p { "[\"u\"]".into() } else { "[\"p\"]".into() }
            }
            "next" => opt(quiet(|| its[i].as_mut().unwrap().next())),
            "nth" => opt(quiet(|| its[i].as_mut().unwrap().nth(n))),
            "len" => num(quiet(|| its[i].as_ref().unwrap().len())),
            "count" => {
                let x = its[i].take().unwrap();
                num(quiet(|| x.count()))
            }
            "last" => {
                let x = its[i].take().unwrap();
                opt(quiet(|| x.last()))
            }
            "take" => seq(quiet(|| its[i].as_mut().unwrap().take(n))),
            "skip" => {
                let x = its[i].take().unwrap();
                seq(quiet(|| x.skip(n, m)))
            }
            "step" => {
                let x = its[i].take().unwrap();
                seq(quiet(|| x.step(n, m)))
            }
            "fold" => {
                let x = its[i].take().unwrap();
                seq(quiet(|| x.fold()))
            }
            "each" => {
                let x = its[i].take().unwrap();
                seq(quiet(|| x.each()))
            }
            "position" => opt(quiet(|| its[i].as_mut().unwrap().position(a))),
            "find" => opt(quiet(|| its[i].as_mut().unwrap().find(a))),
            "any" => num(quiet(|| its[i].as_mut().unwrap().any(a))),
            "collect" => {
                let x = its[i].take().unwrap();
                seq(quiet(|| x.collect()))
            }
            _ => unreachable!(),
        };
        // the size hints of all live iterators
        let h: Vec<String> = self
            .its
            .iter()
            .map(|x| match x {
                None => "[]".into(),
                Some(x) => match quiet(|| x.hint()) {
                    None => "[\"p\"]".into(),
                    Some((lo, None)) => format!("[{}]", limbs(lo as u64)),
                    Some((lo, Some(hi))) => format!("[{},{}]", limbs(lo as u64), limbs(hi as u64)),
                },
            })
            .collect();
        let e = format!("{{{},\"r\":{},\"h\":[{}]}}", args, r, h.join(","));
        if let Some(f) = pend {
            writeln!(f, "E {}", e).unwrap();
            f.flush().unwrap();
        }
        self.evs.push(e);
    }
}

const SMALL: [(&str, u64); 8] = [("next", 0), ("nth", 0), ("nth", 1), ("nth", 2), ("nth", u64::MAX), ("take", 2), ("clone", 0), ("len", 0)];

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watch::watchdog(15);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(&args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(&args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(&args, "--count", "10").parse().unwrap();
    let pending = arg(&args, "--pending", "");
    let tys = types();
    let mut out = BufWriter::new(File::create(arg(&args, "--out", "/dev/stdout")).unwrap());
    let mut pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut id = start;
    // the first histories: every script of four calls on the six smallest types
    let small = 6 * 4096u64;
    let exhaustive: u64 = arg(&args, "--exhaustive", "0").parse().unwrap();
    while id < count {
        let all = id < small && exhaustive == 1;
        let t = if all { &tys[(id % 6) as usize] } else { &tys[(id % tys.len() as u64) as usize] };
        let hd = format!("\"h\":{{\"ty\":{},\"mod\":\"values\",\"n\":{},\"id\":{}}}", js_str(t.name), limbs(t.n), id);
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", hd).unwrap();
        }
        let mut r = Rng::new(seed, id);
        let mut run = Run { its: (0..SLOTS).map(|_| None).collect(), evs: vec![], make: t.make };
        run.ev(&mut pend, "new", 0, 0, 0);
        if all {
            let mut k = id / 6;
            let mut cur = 0;
            for _ in 0..4 {
                let (o, a) = SMALL[(k % 8) as usize];
                k /= 8;
                run.ev(&mut pend, o, cur, a, 0);
                if o == "clone" {
                    cur = (cur + 1) % SLOTS;
                }
            }
            run.ev(&mut pend, "next", cur, 0, 0);
            run.ev(&mut pend, if id % 2 == 0 { "last" } else { "count" }, cur, 0, 0);
        } else {
            while run.evs.len() < 24 {
                let i = r.below(SLOTS);
                if run.its[i].is_none() {
                    if r.below(4) == 0 {
                        run.ev(&mut pend, "new", i, 0, 0);
                    }
                    continue;
                }
                let n = t.n;
                let k = r.below(6) as u64;
                let left = quiet(|| run.its[i].as_ref().unwrap().hint().0 as u64).unwrap_or(0);
                let a = match r.below(14) {
                    0..=3 => k,
                    4 => n.wrapping_sub(k),
                    5 => n.wrapping_add(k),
                    6 => left.wrapping_sub(k),
                    7 => left.wrapping_sub(1),
                    8 => left,
                    9 => u64::MAX - k,
                    10 => u64::MAX,
                    11 => (1 << 63) - 1 + k,
                    12 => left / 2,
                    _ => (1u64 << (8 * r.below(8))) - 1 + k,
                };
                let few = left < 1500;
                match r.below(28) {
                    0..=6 => run.ev(&mut pend, "next", i, 0, 0),
                    7..=13 => run.ev(&mut pend, "nth", i, a, 0),
                    14..=15 => run.ev(&mut pend, "len", i, 0, 0),
                    16..=17 => run.ev(&mut pend, "clone", i, 0, 0),
                    18 => run.ev(&mut pend, "copy", i, 0, 0),
                    19 => run.ev(&mut pend, "count", i, 0, 0),
                    20 => run.ev(&mut pend, "last", i, 0, 0),
                    21 => run.ev(&mut pend, "take", i, k, 0),
                    22 => run.ev(&mut pend, "skip", i, a, k),
                    23 => run.ev(&mut pend, "step", i, if a == u64::MAX { a - 1 } else { a }, k),
                    24 if few => run.ev(&mut pend, "fold", i, 0, 0),
                    26 if few => run.ev(&mut pend, "each", i, 0, 0),
                    27 if few => {
                        // a value that is still to come, or any
                        let x = if r.below(3) > 0 { n.wrapping_sub(left).wrapping_add(r.below(left as usize + 1) as u64) } else { a };
                        run.ev(&mut pend, ["position", "find", "any"][r.below(3)], i, x, 0)
                    }
                    25 if few => run.ev(&mut pend, "collect", i, 0, 0),
                    _ => {}
                }
            }
        }
        writeln!(out, "{{{},\"e\":[{}]}}", hd, run.evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}
