//! Records histories of vectors and sets that several threads read at once and hand to each other.
use enum_like::{EnumLike, PackedU16, PackedU8, Values};
use enum_set2::EnumSet;
use like::json::*;
use like::{quiet, watch};
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Write};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct D<const N: usize>(usize);
impl<const N: usize> Debug for D<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "v{}", self.0)
    }
}
unsafe impl<const N: usize> EnumLike for D<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        D(x)
    }
}

/// Up to six numbers below n, ascending
fn palette(n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v = vec![0, n - 1];
    for _ in 0..40 {
        let x = match r.below(4) {
            0 => 1,
            1 => n / 2,
            2 => n - 2,
            _ => r.below(n),
        };
        if v.len() < 6 && !v.contains(&x) {
            v.push(x);
        }
    }
    v.sort();
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    L(Vec<i64>),
    T(String),
    /// a panic, of an operation that results in a text or not
    P(bool),
}
impl R {
    fn js(&self) -> String {
        match self {
            R::L(v) => format!("{:?}", v),
            R::T(t) => format!("[{}]", js_str(t)),
            R::P(true) => "[]".to_string(),
            R::P(false) => "[-99]".to_string(),
        }
    }
}

pub trait It: Send {
    fn step(&mut self, o: &str, a: usize) -> i64;
}
struct Map<I, const N: usize>(I, Arc<Vec<usize>>);
fn pos(p: &[usize], d: usize) -> i64 {
    p.iter().position(|x| *x == d).map_or(-1, |x| x as i64)
}
impl<const N: usize, I: Send + DoubleEndedIterator<Item = D<N>> + ExactSizeIterator> It for Map<I, N> {
    fn step(&mut self, o: &str, a: usize) -> i64 {
        let f = |x: Option<D<N>>| x.map_or(-3, |d| pos(&self.1, d.0));
        match o {
            "next" => f(self.0.next()),
            "back" => f(self.0.next_back()),
            "nth" => f(self.0.nth(a)),
            _ => self.0.len() as i64,
        }
    }
}
struct Fwd<I, const N: usize>(I, Arc<Vec<usize>>);
impl<const N: usize, I: Send + Iterator<Item = D<N>>> It for Fwd<I, N> {
    fn step(&mut self, o: &str, a: usize) -> i64 {
        let f = |x: Option<D<N>>| x.map_or(-3, |d| pos(&self.1, d.0));
        match o {
            "nth" => f(self.0.nth(a)),
            _ => f(self.0.next()),
        }
    }
}

pub trait Obj: Send + Sync {
    fn read(&self, other: &dyn Obj, o: &str, a: usize) -> R;
    fn write(&mut self, other: &dyn Obj, o: &str, i: usize, t: usize) -> i64;
    fn iter<'a>(&'a self, own: bool) -> Box<dyn It + 'a>;
    /// everything that can be seen of the storage
    fn seal(&self) -> String;
    fn any(&self) -> &dyn Any;
    fn len(&self) -> usize;
    fn copy(&self) -> Box<dyn Obj>;
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn sendable<T: Send + Sync>() {}

macro_rules! vecs {
    ($($m:ident $w:ident $make:ident;)+) => { $(
        struct $w<const N: usize>(enum_vec::$m::EnumVec<D<N>>, Arc<Vec<usize>>);
        impl<const N: usize> Obj for $w<N> {
            fn read(&self, other: &dyn Obj, o: &str, a: usize) -> R {
                let p = |d: D<N>| pos(&self.1, d.0);
                let v = &self.0;
                R::L(match o {
                    "get" => vec![v.get(a).map_or(-3, p)],
                    "raw" => vec![if a < v.len() { pos(&self.1, unsafe { v.get_raw_unchecked(a) }) } else { -3 }],
                    "len" => vec![v.len() as i64, v.is_empty() as i64],
                    "any" => vec![v.any(D(self.1[a % self.1.len()])) as i64],
                    "all" => vec![v.all(D(self.1[a % self.1.len()])) as i64],
                    "list" => v.to_vec().into_iter().map(p).collect(),
                    "walk" => v.iter().map(p).collect(),
                    "clone" => { let mut c = v.clone(); c.push(D(self.1[a % self.1.len()])); c.iter().map(p).collect() }
                    "eq" => { let w = &other.any().downcast_ref::<$w<N>>().unwrap().0; vec![(v == w) as i64, (v != w) as i64] }
                    "hash" => { let c: enum_vec::$m::EnumVec<D<N>> = v.iter().collect(); vec![(hash(v) == hash(&c)) as i64] }
                    "debug" => return R::T(format!("{:?}", v)),
                    _ => unreachable!(),
                })
            }
            fn write(&mut self, other: &dyn Obj, o: &str, i: usize, t: usize) -> i64 {
                let p = |d: D<N>| pos(&self.1, d.0);
                let x = D(self.1[t]);
                let v = &mut self.0;
                match o {
                    "push" => v.push(x),
                    "set" => v.set(i, x),
                    "ins" => v.insert(i, x),
                    "del" => return p(v.remove(i)),
                    "pop" => return v.pop().map_or(-3, p),
                    "cut" => v.truncate(i),
                    "fill" => v.resize(i, x),
                    "ext" => v.extend(other.any().downcast_ref::<$w<N>>().unwrap().0.iter()),
                    _ => unreachable!(),
                }
                -2
            }
            fn iter<'a>(&'a self, own: bool) -> Box<dyn It + 'a> {
                if own { Box::new(Map::<_, N>(self.0.clone().into_iter(), self.1.clone())) } else { Box::new(Map::<_, N>(self.0.iter(), self.1.clone())) }
            }
            fn seal(&self) -> String {
                let b: Vec<_> = self.0.storage().iter().collect();
                format!("{} {} {:x?}", self.0.len(), self.0.capacity(), b)
            }
            fn any(&self) -> &dyn Any { self }
            fn len(&self) -> usize { self.0.len() }
            fn copy(&self) -> Box<dyn Obj> { Box::new($w(self.0.clone(), self.1.clone())) }
        }
        fn $make<const N: usize>(pal: &[usize]) -> Box<dyn Obj> {
            sendable::<enum_vec::$m::EnumVec<D<N>>>();
            sendable::<enum_vec::$m::EnumVecIter<'static, D<N>>>();
            sendable::<enum_vec::$m::EnumVecIntoIter<D<N>>>();
            Box::new($w::<N>(Default::default(), Arc::new(pal.to_vec())))
        }
    )+ }
}
vecs! { vec_u8 V8 v8; vec_u16 V16 v16; vec_u32 V32 v32; vec_u64 V64 v64; vec_u128 V128 v128; smallvec_u32 VS vs; }

struct S<const N: usize>(EnumSet<D<N>>, Arc<Vec<usize>>);
impl<const N: usize> Obj for S<N> {
    fn read(&self, other: &dyn Obj, o: &str, a: usize) -> R {
        let p = |d: D<N>| pos(&self.1, d.0);
        let (v, w) = (&self.0, &other.any().downcast_ref::<S<N>>().unwrap().0);
        let x = D(self.1[a % self.1.len()]);
        R::L(match o {
            "has" => vec![v.contains(x) as i64],
            "len" => vec![v.len() as i64, v.is_empty() as i64],
            "list" => v.into_iter().map(p).collect(),
            "walk" => v.iter().map(p).collect(),
            "uni" => v.union(w).map(p).collect(),
            "int" => v.intersection(w).map(p).collect(),
            "dif" => v.difference(w).map(p).collect(),
            "sym" => v.symmetric_difference(w).map(p).collect(),
            "rel" => vec![v.is_subset(w) as i64, v.is_superset(w) as i64, v.is_disjoint(w) as i64],
            "bits" => v.get_ref().iter().map(|d| pos(&self.1, d)).collect(),
            "clone" => { let mut c = v.clone(); c.insert(x); c.iter().map(p).collect() }
            "eq" => vec![(v == w) as i64, (v != w) as i64],
            "hash" => { let c: EnumSet<D<N>> = v.iter().collect(); vec![(hash(v) == hash(&c)) as i64] }
            "debug" => return R::T(format!("{:?}", v)),
            _ => unreachable!(),
        })
    }
    fn write(&mut self, other: &dyn Obj, o: &str, _: usize, t: usize) -> i64 {
        let x = D(self.1[t]);
        let w = &other.any().downcast_ref::<S<N>>().unwrap().0;
        let v = &mut self.0;
        match o {
            "put" => return v.insert(x) as i64,
            "rm" => return v.remove(x) as i64,
            "clr" => v.clear(),
            "uniw" => v.union_with(w),
            "intw" => v.intersect_with(w),
            "difw" => v.difference_with(w),
            "symw" => v.symmetric_difference_with(w),
            _ => unreachable!(),
        }
        -2
    }
    fn iter<'a>(&'a self, _: bool) -> Box<dyn It + 'a> {
        Box::new(Fwd::<_, N>(self.0.iter(), self.1.clone()))
    }
    fn seal(&self) -> String {
        format!("{} {:x?}", self.0.get_ref().capacity(), self.0.get_ref().get_ref().storage())
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn copy(&self) -> Box<dyn Obj> {
        Box::new(S(self.0.clone(), self.1.clone()))
    }
}
fn set<const N: usize>(pal: &[usize]) -> Box<dyn Obj> {
    sendable::<EnumSet<D<N>>>();
    sendable::<enum_set2::Iter<'static, D<N>>>();
    sendable::<enum_set2::Union<'static, D<N>>>();
    sendable::<enum_set2::Intersection<'static, D<N>>>();
    sendable::<enum_set2::Difference<'static, D<N>>>();
    sendable::<enum_set2::SymmetricDifference<'static, D<N>>>();
    sendable::<Values<D<N>>>();
    sendable::<PackedU8<D<N>>>();
    sendable::<PackedU16<D<N>>>();
    Box::new(S::<N>(EnumSet::new(), Arc::new(pal.to_vec())))
}

type Make = fn(&[usize]) -> Box<dyn Obj>;
macro_rules! list {
    ($($f:ident: $($n:literal)+;)+) => { &[$($((stringify!($f), $n, $f::<{ $n as usize }> as Make),)+)+] }
}
static KINDS: &[(&str, u64, Make)] = list! {
    v8: 2 3 5 16 200 256;
    v16: 2 3 9 256 40000 65536;
    v32: 2 3 5 64 1000 65536 4000000000;
    v64: 2 3 100 70000 4294967296 1000000000000000000;
    v128: 2 6 1000 70000 4294967297 1000000000000000000;
    vs: 2 3 5 64 1000 65536;
    set: 2 5 33 64 300 40000;
};

/// One read: object, operation, argument
type Cmd = (usize, &'static str, usize);
enum Msg {
    Do(Cmd),
    Burst(Vec<Cmd>, usize, Arc<Barrier>),
    Give,
    Stop,
}
enum Rep<'a> {
    Res(R),
    Many(Vec<Vec<R>>),
    Iter(Option<Box<dyn It + 'a>>),
}

fn reader<'a>(objs: &'a [Box<dyn Obj>], rx: Receiver<(Msg, Option<Box<dyn It + 'a>>)>, tx: Sender<Rep<'a>>) {
    let mut it: Option<Box<dyn It + 'a>> = None;
    let one = |c: &Cmd| quiet(|| objs[c.0].read(&*objs[1 - c.0], c.1, c.2)).unwrap_or(R::P(c.1 == "debug"));
    while let Ok((m, got)) = rx.recv() {
        if got.is_some() {
            it = got;
        }
        let rep = match m {
            Msg::Stop => return,
            Msg::Give => Rep::Iter(it.take()),
            Msg::Do((c, o, a)) => match o {
                "open" | "own" => {
                    it = quiet(|| objs[c].iter(o == "own"));
                    Rep::Res(if it.is_some() { R::L(vec![]) } else { R::P(false) })
                }
                "next" | "back" | "nth" | "left" => {
                    let i = it.as_mut().unwrap();
                    Rep::Res(quiet(|| i.step(o, a)).map_or(R::P(false), |x| R::L(vec![x])))
                }
                _ => Rep::Res(one(&(c, o, a))),
            },
            Msg::Burst(cmds, times, bar) => {
                let mut out: Vec<Vec<R>> = cmds.iter().map(|_| vec![]).collect();
                bar.wait();
                for _ in 0..times {
                    for (k, c) in cmds.iter().enumerate() {
                        let r = one(c);
                        if !out[k].contains(&r) {
                            out[k].push(r);
                        }
                    }
                }
                Rep::Many(out)
            }
        };
        if tx.send(rep).is_err() {
            return;
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watch::watchdog(30);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(&args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(&args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(&args, "--count", "10").parse().unwrap();
    let times: usize = arg(&args, "--times", "60").parse().unwrap();
    let pending = arg(&args, "--pending", "");
    let mut out = BufWriter::new(File::create(arg(&args, "--out", "/dev/stdout")).unwrap());
    let mut pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut id = start;
    while id < count {
        let (kind, n, make) = KINDS[(id % KINDS.len() as u64) as usize];
        let is_set = kind == "set";
        let mut r = Rng::new(seed, id);
        let pal = palette(n as usize, &mut r);
        let np = pal.len();
        let threads = 2 + r.below(3);
        let hd = format!(
            "\"h\":{{\"mod\":\"{}\",\"ty\":\"{}\",\"id\":{},\"set\":{},\"thr\":{},\"txt\":[{}]}}",
            kind,
            n,
            id,
            is_set,
            threads,
            pal.iter().map(|d| js_str(&format!("{:?}", D::<2>(*d)))).collect::<Vec<_>>().join(",")
        );
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", hd).unwrap();
        }
        let mut evs: Vec<String> = vec![];
        let mut begin = |a: &str, r: &str, evs: &mut Vec<String>, pre: bool| {
            // announced before it is done, and again with its result
            if let Some(f) = &mut pend {
                if pre {
                    writeln!(f, "P {{{},\"r\":[]}}", a).unwrap();
                } else {
                    writeln!(f, "E {{{},\"r\":{}}}", a, r).unwrap();
                }
                f.flush().unwrap();
            }
            if !pre {
                evs.push(format!("{{{},\"r\":{}}}", a, r));
            }
        };
        let mut objs: Vec<Box<dyn Obj>> = vec![make(&pal), make(&pal)];
        let mut broken = false;
        let phases = 2 + r.below(3);
        for ph in 0..phases {
            // ---- changes, made by this thread or by another one
            let big = r.below(6) == 0;
            for _ in 0..3 + r.below(14) {
                if broken {
                    break;
                }
                watch::tick();
                let c = r.below(2);
                let t = r.below(np);
                let len = objs[c].len();
                let (o, i) = if is_set {
                    (["put", "put", "put", "put", "rm", "clr", "uniw", "intw", "difw", "symw"][r.below(10)], 0)
                } else if len == 0 {
                    (["push", "fill"][r.below(2)], r.below(if big { 900 } else { 70 }))
                } else {
                    match r.below(12) {
                        0..=2 => ("push", 0),
                        3..=4 => ("set", r.below(len)),
                        5 => ("ins", r.below(len + 1)),
                        6 => ("del", r.below(len)),
                        7 => ("pop", 0),
                        8 => ("cut", r.below(len + 1)),
                        9..=10 => ("fill", r.below(if big { 900 } else { 70 })),
                        _ if len + objs[1 - c].len() < 1000 => ("ext", 0),
                        _ => ("cut", 0),
                    }
                };
                let how = r.below(3);
                let a = format!("\"w\":{},\"c\":{},\"o\":\"{}\",\"i\":{},\"a\":{}", how, c + 1, o, i, t);
                begin(&a, "", &mut evs, true);
                let res = match how {
                    // here
                    0 => {
                        let (x, y) = objs.split_at_mut(1);
                        let (me, other) = if c == 0 { (&mut x[0], &y[0]) } else { (&mut y[0], &x[0]) };
                        quiet(|| me.write(&**other, o, i, t))
                    }
                    // lent to another thread
                    1 => {
                        let (x, y) = objs.split_at_mut(1);
                        let (me, other) = if c == 0 { (&mut x[0], &y[0]) } else { (&mut y[0], &x[0]) };
                        std::thread::scope(|s| s.spawn(move || quiet(|| me.write(&**other, o, i, t))).join().unwrap_or(None))
                    }
                    // given to another thread and back
                    _ => {
                        let mut me = objs.remove(c);
                        let other = objs[0].copy();
                        let h = std::thread::spawn(move || {
                            let x = quiet(|| me.write(&*other, o, i, t));
                            (me, x)
                        });
                        let (me, x) = h.join().unwrap();
                        objs.insert(c, me);
                        x
                    }
                };
                broken |= res.is_none();
                begin(&a, &res.map_or("[-99]".to_string(), |x| format!("[{}]", x)), &mut evs, false);
            }
            if broken {
                break;
            }
            let seal = format!("\"w\":9,\"c\":0,\"o\":\"seal\",\"i\":{},\"a\":0", ph);
            let before: Vec<String> = objs.iter().map(|o| o.seal()).collect();
            begin(&seal, &format!("[{},{}]", js_str(&before[0]), js_str(&before[1])), &mut evs, false);
            // ---- reads, by several threads
            std::thread::scope(|s| {
                let objs: &[Box<dyn Obj>] = &objs;
                let mut tx = vec![];
                let mut rx = vec![];
                for _ in 0..threads {
                    let (a, b) = channel();
                    let (c, d) = channel();
                    s.spawn(move || reader(objs, b, c));
                    tx.push(a);
                    rx.push(d);
                }
                let mut has_it = vec![false; threads];
                let mut turns = 15 + r.below(20);
                while turns > 0 && !broken {
                    watch::tick();
                    turns -= 1;
                    let t = r.below(threads);
                    let c = r.below(2);
                    let len = objs[c].len();
                    let pick = |r: &mut Rng| -> Cmd {
                        let c = r.below(2);
                        let len = objs[c].len();
                        let o = if is_set {
                            ["has", "has", "len", "list", "walk", "uni", "int", "dif", "sym", "rel", "bits", "clone", "eq", "hash", "debug"][r.below(15)]
                        } else {
                            ["get", "get", "raw", "len", "any", "any", "all", "all", "list", "walk", "clone", "eq", "hash", "debug"][r.below(14)]
                        };
                        let o = if o == "debug" && len > 40 { "eq" } else { o };
                        (c, o, r.below(len + 3))
                    };
                    let ev = |t: usize, c: usize, o: &str, a: usize| format!("\"w\":5,\"t\":{},\"c\":{},\"o\":\"{}\",\"i\":0,\"a\":{}", t + 1, c + 1, o, a);
                    match r.below(10) {
                        // everybody at once
                        0 if turns % 3 == 0 => {
                            let bar = Arc::new(Barrier::new(threads));
                            let cmds: Vec<Vec<Cmd>> = (0..threads).map(|_| (0..4 + r.below(5)).map(|_| pick(&mut r)).collect()).collect();
                            let n = if objs[0].len() + objs[1].len() > 200 { times / 6 + 1 } else { times };
                            let js = |f: &dyn Fn(usize, usize) -> String| {
                                cmds.iter()
                                    .enumerate()
                                    .map(|(t, v)| format!("[{}]", (0..v.len()).map(|k| format!("{{\"c\":{},\"o\":\"{}\",\"a\":{},\"r\":[{}]}}", v[k].0 + 1, v[k].1, v[k].2, f(t, k))).collect::<Vec<_>>().join(",")))
                                    .collect::<Vec<_>>()
                                    .join(",")
                            };
                            let a = "\"w\":6,\"c\":1,\"o\":\"burst\",\"i\":0,\"a\":0".to_string();
                            begin(&a, "", &mut evs, true);
                            for t in 0..threads {
                                tx[t].send((Msg::Burst(cmds[t].clone(), n, bar.clone()), None)).unwrap();
                            }
                            let got: Vec<Vec<Vec<R>>> = (0..threads)
                                .map(|t| match rx[t].recv().unwrap() {
                                    Rep::Many(x) => x,
                                    _ => unreachable!(),
                                })
                                .collect();
                            broken |= got.iter().flatten().flatten().any(|x| matches!(x, R::P(_)));
                            let res = js(&|t, k| got[t][k].iter().map(|x| x.js()).collect::<Vec<_>>().join(","));
                            begin(&a, &format!("[{}]", res), &mut evs, false);
                        }
                        // an iterator changes hands
                        1 if has_it[t] => {
                            let u = (t + 1 + r.below(threads - 1)) % threads;
                            let a = ev(t, c, "give", u + 1);
                            begin(&a, "", &mut evs, true);
                            tx[t].send((Msg::Give, None)).unwrap();
                            let it = match rx[t].recv().unwrap() {
                                Rep::Iter(x) => x,
                                _ => unreachable!(),
                            };
                            tx[u].send((Msg::Do((c, "len", 0)), it)).unwrap();
                            rx[u].recv().unwrap();
                            has_it[t] = false;
                            has_it[u] = true;
                            begin(&a, "[]", &mut evs, false);
                        }
                        k => {
                            let (c, o, a) = if k < 7 && !has_it[t] {
                                has_it[t] = true;
                                (c, ["open", "own"][r.below(2)], 0)
                            } else if k < 7 {
                                let o = if is_set { ["next", "next", "nth"][r.below(3)] } else { ["next", "next", "back", "back", "nth", "left"][r.below(6)] };
                                let o = if r.below(9) == 0 { "open" } else { o };
                                (c, o, if len > 60 { r.below(40) } else { r.below(4) })
                            } else {
                                pick(&mut r)
                            };
                            let a_ = ev(t, c, o, a);
                            begin(&a_, "", &mut evs, true);
                            tx[t].send((Msg::Do((c, o, a)), None)).unwrap();
                            let x = match rx[t].recv().unwrap() {
                                Rep::Res(x) => x,
                                _ => unreachable!(),
                            };
                            broken |= matches!(x, R::P(_));
                            begin(&a_, &x.js(), &mut evs, false);
                        }
                    }
                }
                for t in &tx {
                    let _ = t.send((Msg::Stop, None));
                }
            });
            if broken {
                break;
            }
            let after: Vec<String> = objs.iter().map(|o| o.seal()).collect();
            begin(&seal.replace("\"seal\"", "\"same\""), &format!("[{},{}]", js_str(&after[0]), js_str(&after[1])), &mut evs, false);
        }
        writeln!(out, "{{{},\"e\":[{}]}}", hd, evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}
