//! Records histories of vectors and sets whose bits number more than 2^32, to be judged by spec/GiantTrace.tla.
//! A position is a pair [p >> 20, p & 0xfffff]. The two values of an element are written 0 and 1.
use enum_like::EnumLike;
use enum_set2::EnumSet;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeSet;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

const SLOTS: usize = 2;

/// Who needs more memory than there is gives no answer: the recording ends there
struct Bounded;
unsafe impl GlobalAlloc for Bounded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        some(System.alloc(l), l.size())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        some(System.alloc_zeroed(l), l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        some(System.realloc(p, l, n), n)
    }
}
fn some(p: *mut u8, size: usize) -> *mut u8 {
    // what no machine has is not asked for in good faith
    if p.is_null() && size < 1 << 40 {
        std::process::exit(0)
    }
    p
}
#[global_allocator]
static ALLOC: Bounded = Bounded;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct D<const N: usize>(usize);
unsafe impl<const N: usize> EnumLike for D<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        D(x)
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

fn pos(p: usize) -> String {
    format!("[{},{}]", p >> 20, p & 0xfffff)
}

/// A position in a result
fn flat(p: usize) -> String {
    format!("{},{}", p >> 20, p & 0xfffff)
}

#[derive(Clone, Default)]
struct Op {
    o: &'static str,
    v: usize,
    w: usize,
    p: usize,
    q: usize,
    x: usize,
    l: Vec<usize>,
    /// calls of an iterator: 0 next, 1 next_back, 2 nth, 3 nth_back, 4 len, 5 last, 6 count
    s: Vec<(usize, usize)>,
}

impl Op {
    fn json(&self) -> String {
        let s: Vec<String> = self.s.iter().map(|(c, p)| format!("[{},{}]", c, pos(*p))).collect();
        format!(
            "\"o\":\"{}\",\"v\":{},\"w\":{},\"p\":{},\"q\":{},\"x\":{},\"l\":{:?},\"s\":[{}]",
            self.o,
            self.v + 1,
            self.w + 1,
            pos(self.p),
            pos(self.q),
            self.x,
            self.l,
            s.join(",")
        )
    }
}

/// What an operation did: result, then the number of elements and the probed ones of every slot
trait Vector {
    fn exec(&mut self, op: &Op) -> String;
    fn len(&self, v: usize) -> usize;
    fn state(&self, probes: &BTreeSet<usize>) -> String;
}

fn unit() -> String {
    "[]".into()
}

macro_rules! module {
    ($name:ident, $module:ident, $block:ty) => {
        struct $name<const N: usize> {
            s: [enum_vec::$module::EnumVec<D<N>>; SLOTS],
        }
        impl<const N: usize> $name<N> {
            fn new() -> Self {
                Self { s: [enum_vec::$module::EnumVec::new(), enum_vec::$module::EnumVec::new()] }
            }
            fn val(x: usize) -> D<N> {
                D(if N == 2 { x } else if x == 0 { N - 2 } else { 1 })
            }
            fn show(x: Option<D<N>>) -> String {
                format!("{}", Self::num(x))
            }
            fn num(x: Option<D<N>>) -> usize {
                match x {
                    None => 2,
                    Some(d) if d == Self::val(0) => 0,
                    Some(d) if d == Self::val(1) => 1,
                    Some(_) => 4,
                }
            }
            fn script<I: DoubleEndedIterator<Item = D<N>> + ExactSizeIterator>(mut it: I, s: &[(usize, usize)]) -> String {
                let mut r = vec![];
                for &(c, p) in s {
                    match c {
                        0 => r.push(Self::show(it.next())),
                        1 => r.push(Self::show(it.next_back())),
                        2 => r.push(Self::show(it.nth(p))),
                        3 => r.push(Self::show(it.nth_back(p))),
                        4 => r.push(flat(it.len())),
                        _ => {
                            r.push(flat(it.count()));
                            break;
                        }
                    }
                }
                format!("[{}]", r.join(","))
            }
        }
        impl<const N: usize> Vector for $name<N> {
            fn len(&self, v: usize) -> usize {
                self.s[v].len()
            }
            fn exec(&mut self, op: &Op) -> String {
                let (v, w, p, x) = (op.v, op.w, op.p, Self::val(op.x));
                let list: Vec<D<N>> = op.l.iter().map(|&x| Self::val(x)).collect();
                match op.o {
                    "from_elem" => self.s[v] = enum_vec::$module::EnumVec::from_elem(x, p),
                    "push" => self.s[v].push(x),
                    "pop" => return format!("[{}]", Self::show(self.s[v].pop())),
                    "get" => return format!("[{}]", Self::show(self.s[v].get(p))),
                    "set" => self.s[v].set(p, x),
                    "swap" => self.s[v].swap(p, op.q),
                    "swap_remove" => return format!("[{}]", Self::num(Some(self.s[v].swap_remove(p)))),
                    "insert" => self.s[v].insert(p, x),
                    "remove" => return format!("[{}]", Self::num(Some(self.s[v].remove(p)))),
                    "truncate" => self.s[v].truncate(p),
                    "resize" => self.s[v].resize(p, x),
                    "extend" => self.s[v].extend(list),
                    "append" => {
                        let (a, b) = self.s.split_at_mut(1);
                        if v == 0 {
                            a[0].append(&mut b[0])
                        } else {
                            b[0].append(&mut a[0])
                        }
                    }
                    "split_off" => self.s[w] = self.s[v].split_off(p),
                    "clone" => self.s[w] = self.s[v].clone(),
                    "reserve" => {
                        self.s[v].reserve(p);
                        return format!("[{}]", (self.s[v].capacity() >= self.s[v].len() + p) as u8);
                    }
                    "shrink" => self.s[v].shrink_to_fit(),
                    "graw" => {
                        let d = unsafe { self.s[v].get_raw_unchecked(p) };
                        return format!("[{}]", Self::num(Some(D(d))));
                    }
                    "sraw" => unsafe { self.s[v].set_raw_unchecked(p, x.to_discr()) },
                    "len" => unsafe { self.s[v].set_len(p) },
                    // a block that holds an x everywhere, where the one of the position p is
                    "block" => {
                        let bits = (N - 1).ilog2() as usize + 1;
                        let elems = <$block>::BITS as usize / bits;
                        let mut b: $block = 0;
                        for k in 0..elems {
                            b |= (x.to_discr() as $block) << (k * bits);
                        }
                        unsafe { self.s[v].storage_mut()[p / elems] = b };
                    }
                    // the elements of that block
                    "elems" => {
                        let bits = (N - 1).ilog2() as usize + 1;
                        let elems = <$block>::BITS as usize / bits;
                        let b = self.s[v].storage()[p / elems];
                        let l = self.s[v].len() - p;
                        let mask = (1 << bits) - 1;
                        let d: Vec<String> = (0..elems.min(l)).map(|k| format!("{}", Self::num(Some(D((b >> (k * bits)) as usize & mask))))).collect();
                        return format!("[{}]", d.join(","));
                    }
                    "retain" => self.s[v].retain(|e| *e == x),
                    "flip" => self.s[v].for_each(|e| *e = if *e == Self::val(0) { Self::val(1) } else { Self::val(0) }),
                    "again" => {
                        let t = self.s[v].iter().collect();
                        self.s[w] = t;
                    }
                    "extend_from" => {
                        let (a, b) = self.s.split_at_mut(1);
                        let (a, b) = if v == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
                        a.extend(b.iter());
                    }
                    "count" => return format!("[{}]", flat(self.s[v].iter().filter(|e| *e == x).count())),
                    "back" => return format!("[{}]", flat(self.s[v].iter().rev().fold(0, |n, e| n + (e == x) as usize))),
                    "any" => return format!("[{}]", self.s[v].any(x) as u8),
                    "all" => return format!("[{}]", self.s[v].all(x) as u8),
                    "eq" => return format!("[{}]", (self.s[0] == self.s[1]) as u8),
                    "iter" => return Self::script(self.s[v].iter(), &op.s),
                    "rev" => return Self::script(self.s[v].iter().rev(), &op.s),
                    "into" => {
                        let n = enum_vec::$module::EnumVec::new();
                        return Self::script(std::mem::replace(&mut self.s[v], n).into_iter(), &op.s);
                    }
                    _ => unreachable!(),
                }
                unit()
            }
            fn state(&self, probes: &BTreeSet<usize>) -> String {
                let mut out = vec![];
                for v in &self.s {
                    let bits = std::mem::size_of_val(&v.storage()[..]) * 8;
                    // room of the storage, in elements
                    let room = bits / (N - 1).ilog2().wrapping_add(1) as usize;
                    let pr: Vec<String> = probes.iter().map(|&p| format!("[{},{},{}]", p >> 20, p & 0xfffff, Self::num(v.get(p)))).collect();
                    out.push(format!(
                        "{{\"n\":{},\"m\":{},\"c\":{},\"g\":[{}]}}",
                        pos(v.len()),
                        pos(room),
                        pos(v.capacity()),
                        pr.join(",")
                    ));
                }
                out.join(",")
            }
        }
    };
}

module!(V8, vec_u8, u8);
module!(V16, vec_u16, u16);
module!(V32, vec_u32, u32);
module!(V64, vec_u64, u64);
module!(V128, vec_u128, u128);
module!(VS, smallvec_u32, u32);

/// Sets of values of a type of 2^33 + 1
type Big = D<{ (1 << 33) + 1 }>;
struct Sets {
    s: [EnumSet<Big>; SLOTS],
}
impl Vector for Sets {
    fn len(&self, v: usize) -> usize {
        self.s[v].len()
    }
    fn exec(&mut self, op: &Op) -> String {
        let (v, w, x) = (op.v, op.w, D(op.p));
        let b = |x: bool| format!("[{}]", x as u8);
        let list = |v: Vec<Big>| format!("[{}]", v.iter().map(|d| flat(d.0)).collect::<Vec<_>>().join(","));
        match op.o {
            "s_insert" => return b(self.s[v].insert(x)),
            "s_remove" => return b(self.s[v].remove(x)),
            "s_contains" => return b(self.s[v].contains(x)),
            "s_len" => return format!("[{}]", flat(self.s[v].len())),
            "s_clear" => self.s[v].clear(),
            "s_clone" => self.s[w] = self.s[v].clone(),
            "s_shrink" => self.s[v].shrink_to_fit(),
            "s_iter" => return list(self.s[v].iter().collect()),
            "s_union" => return list(self.s[v].union(&self.s[w]).collect()),
            "s_inter" => return list(self.s[v].intersection(&self.s[w]).collect()),
            "s_diff" => return list(self.s[v].difference(&self.s[w]).collect()),
            "s_symd" => return list(self.s[v].symmetric_difference(&self.s[w]).collect()),
            "s_union_with" => {
                let o = self.s[w].clone();
                self.s[v].union_with(&o)
            }
            "s_diff_with" => {
                let o = self.s[w].clone();
                self.s[v].difference_with(&o)
            }
            "s_inter_with" => {
                let o = self.s[w].clone();
                self.s[v].intersect_with(&o)
            }
            "s_subset" => return b(self.s[v].is_subset(&self.s[w])),
            "s_disjoint" => return b(self.s[v].is_disjoint(&self.s[w])),
            "s_eq" => return b(self.s[v] == self.s[w]),
            _ => unreachable!(),
        }
        unit()
    }
    fn state(&self, probes: &BTreeSet<usize>) -> String {
        let mut out = vec![];
        for v in &self.s {
            let pr: Vec<String> =
                probes.iter().filter(|&&p| p <= 1 << 33).map(|&p| format!("[{},{},{}]", p >> 20, p & 0xfffff, v.contains(D(p)) as u8)).collect();
            out.push(format!("{{\"n\":{},\"m\":[0,0],\"c\":[0,0],\"g\":[{}]}}", pos(v.len()), pr.join(",")));
        }
        out.join(",")
    }
}

fn make(k: usize) -> (Box<dyn Vector>, &'static str, usize) {
    // name of the module and bits of an element
    macro_rules! t {
        ($m:ident, $n:expr, $b:expr, $t:expr) => {
            (Box::new($m::<$n>::new()) as Box<dyn Vector>, $t, $b)
        };
    }
    match k {
        0 => t!(V8, 2, 1, "vec_u8"),
        1 => t!(V16, 16, 4, "vec_u16"),
        2 => t!(V32, 2, 1, "vec_u32"),
        3 => t!(V64, 256, 8, "vec_u64"),
        4 => t!(V128, 4, 2, "vec_u128"),
        5 => t!(VS, 2, 1, "smallvec_u32"),
        6 => t!(V8, 4, 2, "vec_u8"),
        7 => t!(V16, 2, 1, "vec_u16"),
        8 => t!(V32, 4, 2, "vec_u32"),
        9 => t!(V64, 2, 1, "vec_u64"),
        10 => t!(V128, 2, 1, "vec_u128"),
        11 => t!(VS, 16, 4, "smallvec_u32"),
        12 => t!(V8, 256, 8, "vec_u8"),
        13 => t!(V16, 256, 8, "vec_u16"),
        14 => t!(V32, 200, 8, "vec_u32"),
        15 => t!(V64, 256, 8, "vec_u64"),
        16 => t!(V128, 65536, 16, "vec_u128"),
        _ => t!(VS, 256, 8, "smallvec_u32"),
    }
}

/// Positions worth asking for in a vector of n elements of so many bits, n about 2^32 bits
fn interesting(r: &mut Rng, bits: usize, n: usize, seen: &BTreeSet<usize>) -> usize {
    let edge = (1usize << 32) / bits;
    let small = [0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 300, 65535, 65536, 1 << 24];
    let p = match r.below(8) {
        0 => r.pick(&small),
        1 => edge + r.below(4),
        2 => edge - 1 - r.below(3),
        3 => edge / 2 + r.below(3),
        4 => (edge + r.pick(&small)).min(n.saturating_sub(1)),
        5 => n.saturating_sub(1 + r.below(6)),
        6 => {
            let v: Vec<usize> = seen.iter().copied().collect();
            if v.is_empty() { 5 } else { r.pick(&v) }
        }
        _ => r.below(n.max(1)),
    };
    p.min(n.saturating_sub(1))
}

fn arg(args: &[String], name: &str, default: &str) -> String {
    args.iter().position(|a| a == name).map(|k| args[k + 1].clone()).unwrap_or(default.to_string())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(&args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(&args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(&args, "--count", "1").parse().unwrap();
    let profile = arg(&args, "--profile", "edit");
    let events: usize = arg(&args, "--events", "16").parse().unwrap();
    let pending = arg(&args, "--pending", "");
    let mut pend = (!pending.is_empty()).then(|| File::create(&pending).unwrap());
    let mut out = BufWriter::new(File::create(arg(&args, "--out", "/dev/stdout")).unwrap());
    // what takes long gives no answer either
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(120));
        std::process::exit(0)
    });
    let mut id = start;
    while id < count {
        let mut r = Rng(seed.wrapping_mul(0x1000_0001).wrapping_add(id * 7919));
        let set = profile == "set" || profile == "algebra";
        let (mut g, module, bits) = if set {
            (Box::new(Sets { s: [EnumSet::new(), EnumSet::new()] }) as Box<dyn Vector>, "set", 1)
        } else if profile == "sweep" {
            // few elements, so that each can be visited
            make(12 + (id % 6) as usize)
        } else {
            make((id % 12) as usize)
        };
        let head = format!("\"h\":{{\"seed\":{},\"id\":{},\"mod\":\"{}\",\"bits\":{}}}", seed, id, module, bits);
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", head).unwrap();
        }
        let edge = (1usize << 32) / bits;
        let block = match module.rsplit('u').next().and_then(|x| x.parse().ok()) {
            Some(b) => b,
            None => 1usize,
        };
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        // the values that either slot is made of where it is long
        let base = r.below(2);
        let mut evs: Vec<String> = vec![];
        let mut queue: Vec<Op> = vec![];
        if !set {
            let n = edge + 1 + r.below(70);
            let op = Op { o: "from_elem", p: n, x: base, ..Op::default() };
            queue.push(op);
            if profile == "eq" {
                // as long as the other one if its length is cut to 32 bits
                queue.push(Op { o: "from_elem", v: 1, p: n - edge, x: base, ..Op::default() });
                for v in [1, 0] {
                    queue.push(Op { o: "eq", v, w: 1 - v, ..Op::default() });
                }
            } else if profile != "edit" && profile != "bulk" {
                for _ in 0..3 {
                    let p = interesting(&mut r, bits, n, &seen);
                    seen.insert(p);
                    queue.push(Op { o: "set", p, x: 1 - base, ..Op::default() });
                }
            }
        }
        for k in 0.. {
            if k >= events && queue.is_empty() {
                break;
            }
            let op = if !queue.is_empty() {
                queue.remove(0)
            } else if set {
                let v = r.below(SLOTS);
                let p = match r.below(4) {
                    0 => r.pick(&[0, 5, 31, 32, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 32) + 32]),
                    1 => (1 << 32) + r.below(1 << 20),
                    2 => r.below(1 << 20),
                    _ => {
                        let v: Vec<usize> = seen.iter().copied().collect();
                        let p = if v.is_empty() { 0 } else { r.pick(&v) };
                        p ^ r.pick(&[0usize, 1 << 32])
                    }
                };
                let edits: &[&'static str] = &["s_insert", "s_insert", "s_remove", "s_remove", "s_contains", "s_len", "s_clear", "s_clone", "s_shrink", "s_iter"];
                let algebra: &[&'static str] = &[
                    "s_insert", "s_remove", "s_iter", "s_union", "s_inter", "s_diff", "s_symd", "s_union_with", "s_diff_with", "s_inter_with", "s_subset", "s_disjoint", "s_eq",
                ];
                let o = r.pick(if profile == "set" { edits } else { algebra });
                let o = if k < 6 { "s_insert" } else { o };
                seen.insert(p);
                Op { o, v, w: 1 - v, p, ..Op::default() }
            } else {
                // slot 0 is long; slot 1 may become so
                let v = if g.len(1) > 0 && r.below(3) == 0 { 1 } else { 0 };
                let n = g.len(v);
                let p = interesting(&mut r, bits, n, &seen);
                let q = interesting(&mut r, bits, n, &seen);
                let x = if r.below(3) == 0 { base } else { 1 - base };
                let ops: &[&'static str] = match profile.as_str() {
                    "edit" => &["push", "pop", "get", "set", "set", "set", "swap", "swap", "swap_remove", "insert", "remove", "truncate"],
                    "bulk" => &["resize", "resize", "extend", "append", "split_off", "clone", "set", "set"],
                    "query" => &["any", "all", "any", "all", "set"],
                    "eq" => &["eq", "eq", "set", "push", "pop"],
                    "iter" => &["iter", "iter", "iter", "rev", "set", "into"],
                    "raw" => &["graw", "graw", "sraw", "sraw", "len", "get", "set", "push"],
                    "blocks" => &["block", "block", "elems", "elems", "get", "set", "any", "pop"],
                    "indep" => &["clone", "split_off", "append", "set", "set", "push", "remove", "flip"],
                    "sweep" => &["retain", "flip", "again", "extend_from", "count", "back", "set", "set"],
                    "oob" => &["get", "set", "swap", "swap_remove", "insert", "remove", "split_off", "truncate"],
                    _ => &["push", "truncate", "reserve", "shrink", "resize", "set"],
                };
                let mut op = Op { o: r.pick(ops), v, w: 1 - v, p, q, x, ..Op::default() };
                match op.o {
                    "insert" | "split_off" if profile != "oob" => op.p = if r.below(4) == 0 { n } else { p },
                    "truncate" => op.p = if r.below(5) < 4 { n - r.below(3).min(n) } else { r.pick(&[0usize, edge / 2, edge, edge - 1, 7]) },
                    "resize" => op.p = (n.max(edge) + r.below(200)).saturating_sub(r.below(100)),
                    "reserve" => op.p = r.pick(&[0usize, 1, 100, 1 << 20]),
                    "extend" => op.l = (0..r.below(60)).map(|_| r.below(2)).collect(),
                    "append" if g.len(0) + g.len(1) > edge + edge / 2 => op.o = "push",
                    "into" if r.below(2) == 0 => op.o = "iter",
                    // fewer elements only
                    "len" => op.p = n - r.below(70).min(n),
                    "flip" if bits < 8 => op.o = "set",
                    "graw" | "sraw" if n == 0 => op.o = "push",
                    "block" | "elems" => {
                        let elems = block / bits;
                        op.p = p - p % elems;
                        op.q = elems;
                        // whole blocks only
                        if n < elems {
                            op = Op { o: "push", v, w: 1 - v, x, ..Op::default() };
                        } else if op.p + elems > n {
                            op.p -= if op.o == "block" { elems } else { 0 };
                        }
                    }
                    "retain" if r.below(3) > 0 => op.x = base,
                    "extend_from" if g.len(1 - v) > 1000 => op.o = "count",
                    _ => {}
                }
                // a longer vector than can be described by few exceptions
                if op.o == "resize" && op.p > n && op.p - n > 300 {
                    op.x = base;
                }
                if profile == "oob" && op.o != "truncate" {
                    let far = r.pick(&[n, n + 1, n + edge, (1 << 32) + n, (1 << 40) + 3, usize::MAX / bits, usize::MAX - 1, usize::MAX, 1 << 63, (1 << 35) + p, (1 << 32) | n]);
                    let far = if op.o == "insert" || op.o == "split_off" { far.saturating_add((far == n) as usize) } else { far };
                    // positions that TLC cannot hold are past everything: all are written as 2^50
                    op.p = far;
                    op.q = if r.below(2) == 0 { p } else { far };
                    if op.o == "swap" && r.below(2) == 0 {
                        std::mem::swap(&mut op.p, &mut op.q);
                    }
                }
                if ["iter", "rev", "into"].contains(&op.o) {
                    let m = 3 + r.below(5);
                    for _ in 0..m {
                        let c = r.below(6);
                        let q = match c {
                            3 => r.below(90),
                            _ if op.o == "rev" => r.below(90),
                            _ => interesting(&mut r, bits, n, &seen),
                        };
                        op.s.push((c.min(5), if c == 2 || c == 3 { q } else { 0 }));
                    }
                    if op.s[m - 1].0 == 5 && r.below(3) > 0 {
                        op.s.pop();
                    }
                }
                op
            };
            let shown = Op { p: op.p.min(1 << 50), q: op.q.min(1 << 50), ..op.clone() };
            if let Some(f) = &mut pend {
                writeln!(f, "P {{{}}}", shown.json()).unwrap();
                f.flush().unwrap();
            }
            let res = catch_unwind(AssertUnwindSafe(|| g.exec(&op))).unwrap_or("[3]".into());
            // where to look: what was touched, and where a position cut to 32 bits would end
            for p in [op.p, op.q] {
                for d in [p.wrapping_sub(1), p, p.wrapping_add(1)] {
                    if d < 1 << 40 && seen.len() < 60 {
                        seen.insert(d);
                    }
                }
            }
            let mut probes = BTreeSet::new();
            for &p in &seen {
                for q in [p, p % edge, p % (1 << 32), p + edge] {
                    probes.insert(q);
                }
            }
            for v in 0..SLOTS {
                let n = if set { 0 } else { g.len(v) };
                for d in 0..4 {
                    probes.extend([n + d, n.saturating_sub(d), n + edge + d, (n + d) % edge]);
                }
            }
            let st = catch_unwind(AssertUnwindSafe(|| g.state(&probes))).unwrap_or("".into());
            let e = format!("{{{},\"r\":{},\"st\":[{}]}}", shown.json(), res, st);
            if let Some(f) = &mut pend {
                writeln!(f, "E {}", e).unwrap();
                f.flush().unwrap();
            }
            evs.push(e);
        }
        writeln!(out, "{{{},\"e\":[{}]}}", head, evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}
