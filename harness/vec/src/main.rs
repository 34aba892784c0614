mod el;
mod exec;
mod gen;
mod slot;
mod walk;

use el::*;
use exec::*;
use gen::*;
use slot::*;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Ty {
    pub module: &'static str,
    pub block: usize,
    pub name: &'static str,
    pub n: usize,
    pub make: fn() -> Box<dyn Slot>,
    pub zero: usize,
}

macro_rules! types {
    ($($f:ident $m:literal $b:literal : $($t:ty),+ ;)+) => {
        vec![$($(Ty { module: $m, block: $b, name: stringify!($t), n: <$t as El>::N, make: $f::<$t>, zero: <$t as El>::ZERO },)+)+]
    };
}

const P32: usize = 1 << 32;
const P63: usize = 1 << 63;
type B3 = (bool, bool, bool);
type Oo = Option<Option<(bool, bool)>>;
type R34 = Result<[bool; 5], bool>;

fn types() -> Vec<Ty> {
    types! {
        new_u8 "vec_u8" 8: bool, Option<bool>, D<5>, Oo, B3, D<16>, D<17>, R34, D<100>, D<256>;
        new_u16 "vec_u16" 16: bool, Option<bool>, D<5>, B3, D<17>, R34, D<256>, D<300>, D<2048>, D<65536>;
        new_u32 "vec_u32" 32: bool, Option<bool>, D<5>, B3, D<17>, R34, D<100>, D<256>, D<2048>, D<70000>, D<P32>;
        new_u64 "vec_u64" 64: bool, Option<bool>, B3, D<17>, R34, D<256>, D<2048>, D<70000>, D<{ P32 + 1 }>, D<{ P63 + 1 }>;
        new_u128 "vec_u128" 128: bool, Option<bool>, B3, D<17>, R34, D<256>, D<70000>, D<{ P32 + 1 }>, D<{ P63 + 1 }>, D<{ usize::MAX }>;
        new_small "smallvec_u32" 32: bool, Option<bool>, B3, D<17>, R34, D<256>, D<2048>, D<P32>;
    }
}

fn all_widths() -> Vec<Ty> {
    types! {
        new_u8 "vec_u8" 8: D<{ 1 << 1 }>, D<{ 1 << 2 }>, D<{ 1 << 3 }>, D<{ 1 << 4 }>, D<{ 1 << 5 }>, D<{ 1 << 6 }>, D<{ 1 << 7 }>, D<{ 1 << 8 }>;
        new_u16 "vec_u16" 16: D<{ 1 << 1 }>, D<{ 1 << 2 }>, D<{ 1 << 3 }>, D<{ 1 << 4 }>, D<{ 1 << 5 }>, D<{ 1 << 6 }>, D<{ 1 << 7 }>, D<{ 1 << 8 }>, D<{ 1 << 9 }>, D<{ 1 << 10 }>, D<{ 1 << 11 }>, D<{ 1 << 12 }>, D<{ 1 << 13 }>, D<{ 1 << 14 }>, D<{ 1 << 15 }>, D<{ 1 << 16 }>;
        new_u32 "vec_u32" 32: D<{ 1 << 1 }>, D<{ 1 << 2 }>, D<{ 1 << 3 }>, D<{ 1 << 4 }>, D<{ 1 << 5 }>, D<{ 1 << 6 }>, D<{ 1 << 7 }>, D<{ 1 << 8 }>, D<{ 1 << 9 }>, D<{ 1 << 10 }>, D<{ 1 << 11 }>, D<{ 1 << 12 }>, D<{ 1 << 13 }>, D<{ 1 << 14 }>, D<{ 1 << 15 }>, D<{ 1 << 16 }>, D<{ 1 << 17 }>, D<{ 1 << 18 }>, D<{ 1 << 19 }>, D<{ 1 << 20 }>, D<{ 1 << 21 }>, D<{ 1 << 22 }>, D<{ 1 << 23 }>, D<{ 1 << 24 }>, D<{ 1 << 25 }>, D<{ 1 << 26 }>, D<{ 1 << 27 }>, D<{ 1 << 28 }>, D<{ 1 << 29 }>, D<{ 1 << 30 }>, D<{ 1 << 31 }>, D<{ 1 << 32 }>;
        new_u64 "vec_u64" 64: D<{ 1 << 1 }>, D<{ 1 << 2 }>, D<{ 1 << 3 }>, D<{ 1 << 4 }>, D<{ 1 << 5 }>, D<{ 1 << 6 }>, D<{ 1 << 7 }>, D<{ 1 << 8 }>, D<{ 1 << 9 }>, D<{ 1 << 10 }>, D<{ 1 << 11 }>, D<{ 1 << 12 }>, D<{ 1 << 13 }>, D<{ 1 << 14 }>, D<{ 1 << 15 }>, D<{ 1 << 16 }>, D<{ 1 << 17 }>, D<{ 1 << 18 }>, D<{ 1 << 19 }>, D<{ 1 << 20 }>, D<{ 1 << 21 }>, D<{ 1 << 22 }>, D<{ 1 << 23 }>, D<{ 1 << 24 }>, D<{ 1 << 25 }>, D<{ 1 << 26 }>, D<{ 1 << 27 }>, D<{ 1 << 28 }>, D<{ 1 << 29 }>, D<{ 1 << 30 }>, D<{ 1 << 31 }>, D<{ 1 << 32 }>, D<{ 1 << 33 }>, D<{ 1 << 34 }>, D<{ 1 << 35 }>, D<{ 1 << 36 }>, D<{ 1 << 37 }>, D<{ 1 << 38 }>, D<{ 1 << 39 }>, D<{ 1 << 40 }>, D<{ 1 << 41 }>, D<{ 1 << 42 }>, D<{ 1 << 43 }>, D<{ 1 << 44 }>, D<{ 1 << 45 }>, D<{ 1 << 46 }>, D<{ 1 << 47 }>, D<{ 1 << 48 }>, D<{ 1 << 49 }>, D<{ 1 << 50 }>, D<{ 1 << 51 }>, D<{ 1 << 52 }>, D<{ 1 << 53 }>, D<{ 1 << 54 }>, D<{ 1 << 55 }>, D<{ 1 << 56 }>, D<{ 1 << 57 }>, D<{ 1 << 58 }>, D<{ 1 << 59 }>, D<{ 1 << 60 }>, D<{ 1 << 61 }>, D<{ 1 << 62 }>, D<{ 1 << 63 }>;
        new_u128 "vec_u128" 128: D<{ 1 << 1 }>, D<{ 1 << 2 }>, D<{ 1 << 3 }>, D<{ 1 << 4 }>, D<{ 1 << 5 }>, D<{ 1 << 6 }>, D<{ 1 << 7 }>, D<{ 1 << 8 }>, D<{ 1 << 9 }>, D<{ 1 << 10 }>, D<{ 1 << 11 }>, D<{ 1 << 12 }>, D<{ 1 << 13 }>, D<{ 1 << 14 }>, D<{ 1 << 15 }>, D<{ 1 << 16 }>, D<{ 1 << 17 }>, D<{ 1 << 18 }>, D<{ 1 << 19 }>, D<{ 1 << 20 }>, D<{ 1 << 21 }>, D<{ 1 << 22 }>, D<{ 1 << 23 }>, D<{ 1 << 24 }>, D<{ 1 << 25 }>, D<{ 1 << 26 }>, D<{ 1 << 27 }>, D<{ 1 << 28 }>, D<{ 1 << 29 }>, D<{ 1 << 30 }>, D<{ 1 << 31 }>, D<{ 1 << 32 }>, D<{ 1 << 33 }>, D<{ 1 << 34 }>, D<{ 1 << 35 }>, D<{ 1 << 36 }>, D<{ 1 << 37 }>, D<{ 1 << 38 }>, D<{ 1 << 39 }>, D<{ 1 << 40 }>, D<{ 1 << 41 }>, D<{ 1 << 42 }>, D<{ 1 << 43 }>, D<{ 1 << 44 }>, D<{ 1 << 45 }>, D<{ 1 << 46 }>, D<{ 1 << 47 }>, D<{ 1 << 48 }>, D<{ 1 << 49 }>, D<{ 1 << 50 }>, D<{ 1 << 51 }>, D<{ 1 << 52 }>, D<{ 1 << 53 }>, D<{ 1 << 54 }>, D<{ 1 << 55 }>, D<{ 1 << 56 }>, D<{ 1 << 57 }>, D<{ 1 << 58 }>, D<{ 1 << 59 }>, D<{ 1 << 60 }>, D<{ 1 << 61 }>, D<{ 1 << 62 }>, D<{ 1 << 63 }>;
        new_small "smallvec_u32" 32: D<{ 1 << 1 }>, D<{ 1 << 2 }>, D<{ 1 << 3 }>, D<{ 1 << 4 }>, D<{ 1 << 5 }>, D<{ 1 << 6 }>, D<{ 1 << 7 }>, D<{ 1 << 8 }>, D<{ 1 << 9 }>, D<{ 1 << 10 }>, D<{ 1 << 11 }>, D<{ 1 << 12 }>, D<{ 1 << 13 }>, D<{ 1 << 14 }>, D<{ 1 << 15 }>, D<{ 1 << 16 }>, D<{ 1 << 17 }>, D<{ 1 << 18 }>, D<{ 1 << 19 }>, D<{ 1 << 20 }>, D<{ 1 << 21 }>, D<{ 1 << 22 }>, D<{ 1 << 23 }>, D<{ 1 << 24 }>, D<{ 1 << 25 }>, D<{ 1 << 26 }>, D<{ 1 << 27 }>, D<{ 1 << 28 }>, D<{ 1 << 29 }>, D<{ 1 << 30 }>, D<{ 1 << 31 }>, D<{ 1 << 32 }>;
    }
}

/// types whose conversions may panic
fn faulty() -> Vec<Ty> {
    types! {
        new_u8 "vec_u8" 8: F<2>, F<3>, F<16>, F<17>, F<256>;
        new_u16 "vec_u16" 16: F<2>, F<5>, F<17>, F<256>, F<65536>;
        new_u32 "vec_u32" 32: F<2>, F<5>, F<33>, F<256>, F<2048>, F<70000>, F<P32>;
        new_u64 "vec_u64" 64: F<2>, F<9>, F<300>, F<70000>, F<{ P63 + 1 }>;
        new_u128 "vec_u128" 128: F<3>, F<33>, F<2048>, F<{ P32 + 1 }>, F<{ P63 + 1 }>;
        new_small "smallvec_u32" 32: F<2>, F<5>, F<33>, F<256>, F<70000>, F<P32>;
    }
}

pub fn bits(n: usize) -> usize {
    let mut b = 0;
    while b < 64 && (b == 63 && n > 1 << 63 || b < 63 && n > 1 << b) {
        b += 1
    }
    b
}

thread_local!(static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
/// What this thread has allocated and not freed, in bytes
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
fn count(n: i64) {
    LIVE.with(|c| c.set(c.get() + n))
}

/// Refuses absurd allocations at once (exit code 77) instead of exhausting the
/// machine, keeps count, and fills memory that is not (or no longer) to be
/// read with garbage
struct Guard;
const FILL: usize = 1 << 20;
unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        check(l.size());
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64);
            std::ptr::write_bytes(p, 0xA6, l.size().min(FILL));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64));
        std::ptr::write_bytes(p, 0xD9, l.size().min(FILL));
        // not lost to the optimizer
        std::hint::black_box(p);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        check(l.size());
        let p = std::alloc::System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
fn check(n: usize) {
    if n > 256 << 20 {
        std::process::exit(77)
    }
}
#[global_allocator]
static GUARD: Guard = Guard;

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// aborts when an operation does not come back
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(300));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= secs {
                eprintln!("no progress");
                std::process::abort();
            }
        }
    });
}

pub fn header(ty: &Ty, proto: &dyn Slot, zero: usize, id: u64, seed: u64) -> String {
    let nk = 63 - ty.n.leading_zeros() as i64;
    let nd = (ty.n - (1usize << nk)).min(1);
    let p = proto.palette_size();
    let t = |alt| (0..p).map(|i| js_str(&proto.text(i, alt))).collect::<Vec<_>>().join(",");
    format!(
        "\"h\":{{\"mod\":\"{}\",\"ty\":{},\"B\":{},\"nk\":{},\"nd\":{},\"p\":{},\"z\":{},\"txt\":[{}],\"txta\":[{}],\"id\":{},\"seed\":{}}}",
        ty.module,
        js_str(ty.name),
        ty.block,
        nk,
        nd,
        p,
        zero,
        t(false),
        t(true),
        id,
        seed
    )
}

pub fn arg<'a>(args: &'a [String], name: &str, default: &'a str) -> &'a str {
    args.iter().position(|x| x == name).map(|i| args[i + 1].as_str()).unwrap_or(default)
}

/// The event that an operation logs
pub fn event_json(op: &Op, d: &Done, env: &mut Env, memory: bool) -> String {
    let ch = env.refresh();
    let delta: Vec<String> = ch.iter().map(|&i| env.change(i)).collect();
    let mem: Vec<String> = if memory { env.memory().iter().map(|m| js_list(m)).collect() } else { vec![] };
    format!(
        "{{{},\"r\":{},\"d\":[{}],\"m\":[{}],\"b\":[{},{}],\"t\":{}}}",
        op.json_args(),
        d.r,
        delta.join(","),
        mem.join(","),
        d.b.0,
        d.b.1,
        js_str(&d.t)
    )
}

/// shows the watchdog that operations come back
pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

/// How long the vectors of a history may become
#[derive(Clone, Copy, PartialEq)]
enum Size {
    /// a few storage blocks
    Blocks,
    /// up to some thousand elements
    Long,
    /// more than 65536 elements
    Huge,
}

impl Size {
    fn named(x: &str) -> Size {
        match x {
            "blocks" => Size::Blocks,
            "long" => Size::Long,
            "huge" => Size::Huge,
            _ => panic!("unknown size"),
        }
    }
    fn big(self) -> bool {
        self != Size::Blocks
    }
    fn draw(self, r: &mut Rng, epb: usize, ev: &mut usize) -> usize {
        match self {
            Size::Blocks => {
                let maxlen = match r.below(10) {
                    0..=4 => (2 * epb + 3).max(8),
                    5..=6 => 3 * epb + 4,
                    _ => {
                        *ev = *ev * 2 / 3;
                        6 * epb + 8
                    }
                };
                if maxlen > 300 {
                    *ev = *ev * 2 / 3
                }
                maxlen
            }
            Size::Long => {
                let n = r.pick(&[300, 600, 1100, 1100, 2100, 4200]);
                n + r.below(n / 4)
            }
            Size::Huge => 66_000 + r.below(4_000),
        }
    }
}

/// Other values than those of the palette the type comes with; 0 stays first
fn vary(n: usize, r: &mut Rng) -> Option<Vec<usize>> {
    if n < 7 || r.chance(40) {
        return None;
    }
    let mut v = vec![0];
    let k = bits(n);
    while v.len() < 6 {
        let last = v[r.below(v.len())];
        let c = match r.below(8) {
            0 => n - 1 - r.below(n.min(4)),
            1 => (1usize << r.below(k)).wrapping_sub(r.below(2)),
            2 => last ^ (1usize << r.below(k)),
            3 => last.wrapping_add(1),
            4 => last << r.below(k),
            5 => r.below(n.min(256)),
            _ => r.below(n),
        };
        if c < n && !v.contains(&c) {
            v.push(c)
        }
    }
    Some(v)
}

/// Records random histories: one JSON line per history
fn record(args: &[String]) {
    let profile = PROFILES.iter().find(|p| p.name == arg(args, "--profile", "edit")).expect("profile");
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(args, "--count", "10").parse().unwrap();
    let pending = arg(args, "--pending", "");
    let size = Size::named(arg(args, "--size", "blocks"));
    let events: usize = arg(args, "--events", "36").parse().unwrap();
    let conv = profile.name == "conv" || arg(args, "--conv", "") == "1";
    let (tys, wide) = (if conv { faulty() } else { types() }, all_widths());
    let mut out = BufWriter::new(File::create(arg(args, "--out", "/dev/stdout")).unwrap());
    let mut pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut id = start;
    while id < count {
        let mut r = Rng::new(seed, id);
        // two of three histories on the listed types, the third on D<2^k> of every width
        let ty = if conv {
            &tys[(id % tys.len() as u64) as usize]
        } else if id % 3 == 2 { &wide[(id / 3 % wide.len() as u64) as usize] } else { &tys[((id - id / 3) % tys.len() as u64) as usize] };
        let bits = bits(ty.n);
        let epb = ty.block / bits;
        let mut ev = events;
        let maxlen = if profile.name == "iterx" { 5 } else { size.draw(&mut r, epb, &mut ev) };
        let mut proto = (ty.make)();
        if let Some(ds) = vary(ty.n, &mut r) {
            proto.repal(&ds)
        }
        let mut env = Env::new(&*proto);
        let mut g = Gen { r, pr: profile, epb, bits, p: proto.palette_size(), maxlen, big: size.big(), queue: Default::default() };
        let hd = header(ty, &*proto, ty.zero, id, seed);
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", hd).unwrap();
        }
        let mut evs: Vec<String> = Vec::new();
        let mut ops: Vec<Op> = Vec::new();
        if profile.name == "iterx" {
            g.scripts(id, ev as u64 - 1)
        } else {
            g.setup()
        }
        while evs.len() < ev || (!g.queue.is_empty() && evs.len() < 4 * ev) {
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let mut op = {
                let s = &env.s;
                let caps: Vec<usize> = s.iter().map(|x| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.capacity())).unwrap_or(0)).collect();
                let o = g.next(&env.c, &|i| caps[i]);
                o
            };
            if env.c.iter().any(|c| c.len() > MAXLEN) {
                break;
            }
            if conv && g.r.chance(45) {
                let n = env.c[op.v].len() + op.q.len() + 2;
                op.f = Some((if g.r.chance(50) { g.r.below(3) } else { g.r.below(2 * n) } as i64, false))
            }
            if let Some(f) = &mut pend {
                writeln!(f, "P {{{}}}", op.json_args()).unwrap();
                f.flush().unwrap();
            }
            let d = env.exec(&op);
            op.f = op.f.map(|x| (x.0, d.f));
            let e = event_json(&op, &d, &mut env, profile.memory);
            if let Some(f) = &mut pend {
                writeln!(f, "E {}", e).unwrap();
                f.flush().unwrap();
            }
            evs.push(e);
            if profile.heap {
                ops.push(op)
            }
        }
        if profile.heap {
            let end = "\"o\":\"end\",\"v\":0,\"w\":0,\"a\":[],\"q\":[]";
            if let Some(f) = &mut pend {
                writeln!(f, "P {{{}}}", end).unwrap();
                f.flush().unwrap();
            }
            drop(env);
            evs.push(format!("{{{},\"r\":[\"u\"],\"d\":[],\"m\":[],\"b\":[0,0],\"t\":\"\"}}", end));
            let h = heap(&*proto, &ops);
            for (e, n) in evs.iter_mut().zip(h) {
                e.pop();
                e.push_str(&format!(",\"hp\":{}}}", n.min(1 << 30)))
            }
        }
        writeln!(out, "{{{},\"e\":[{}]}}", hd, evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}

/// Runs a history again: the memory that all vectors together hold after each operation, and what is left when they are dropped
fn heap(proto: &dyn Slot, ops: &[Op]) -> Vec<i64> {
    let mut h = Vec::with_capacity(ops.len() + 1);
    let before = live();
    let mut env = Env::new(proto);
    let base = live();
    for op in ops {
        tick();
        drop(env.exec(op));
        h.push(live() - base)
    }
    drop(env);
    h.push(live() - before);
    h
}

/// Types admitted by several storage modules
fn groups() -> Vec<Vec<Ty>> {
    macro_rules! g {
        ($($t:ty : $($f:ident $m:literal $b:literal),+ ;)+) => {
            vec![$(vec![$(Ty { module: $m, block: $b, name: stringify!($t), n: <$t as El>::N, make: $f::<$t>, zero: <$t as El>::ZERO }),+]),+]
        };
    }
    macro_rules! gg {
        (all: $($t:ty),+; u16: $($t16:ty),+; u32: $($t32:ty),+; u64: $($t64:ty),+;) => { g! {
            $($t: new_u8 "vec_u8" 8, new_u16 "vec_u16" 16, new_u32 "vec_u32" 32, new_u64 "vec_u64" 64, new_u128 "vec_u128" 128, new_small "smallvec_u32" 32;)+
            $($t16: new_u16 "vec_u16" 16, new_u32 "vec_u32" 32, new_u64 "vec_u64" 64, new_u128 "vec_u128" 128, new_small "smallvec_u32" 32;)+
            $($t32: new_u32 "vec_u32" 32, new_u64 "vec_u64" 64, new_u128 "vec_u128" 128, new_small "smallvec_u32" 32;)+
            $($t64: new_u64 "vec_u64" 64, new_u128 "vec_u128" 128;)+
        } };
    }
    gg! {
        all: bool, Option<bool>, B3, D<5>, D<16>, D<17>, R34, D<100>, D<256>;
        u16: D<300>, D<2048>, D<5000>, D<65536>;
        u32: D<70000>, D<{ 1 << 20 }>, D<P32>;
        u64: D<{ P32 + 1 }>, D<{ 1 << 43 }>, D<{ P63 + 1 }>, D<{ usize::MAX }>;
    }
}

/// Types whose blocks hold one to five elements, for the walks: (elements per block, type)
fn small_blocks() -> Vec<Ty> {
    types! {
        new_u8 "vec_u8" 8: D<256>, D<17>, R34, D<16>, D<5>, D<8>, D<4>, Option<bool>;
        new_u16 "vec_u16" 16: D<65536>, D<300>, D<256>, D<100>, D<17>, D<32>, D<16>, D<9>, D<8>, D<5>;
        new_u32 "vec_u32" 32: D<P32>, D<70000>, D<65536>, D<2048>, D<1024>, D<300>, D<256>, D<65>, D<64>, D<33>;
        new_u64 "vec_u64" 64: D<{ P63 + 1 }>, D<{ P32 + 1 }>, D<P32>, D<{ 1 << 22 }>, D<{ 1 << 21 }>, D<70000>, D<65536>, D<5000>, D<4096>, D<2049>;
        new_u128 "vec_u128" 128: D<{ P63 + 1 }>, D<{ 1 << 43 }>, D<{ 1 << 42 }>, D<{ P32 + 1 }>, D<P32>, D<{ 1 << 26 }>, D<{ 1 << 25 }>;
        new_small "smallvec_u32" 32: D<P32>, D<70000>, D<65536>, D<2048>, D<1024>, D<300>, D<256>, D<65>, D<64>, D<33>;
    }
}

/// the same with conversions that may panic
fn small_faulty() -> Vec<Ty> {
    types! {
        new_u8 "vec_u8" 8: F<256>, F<17>, F<16>, F<5>, F<8>, F<4>;
        new_u16 "vec_u16" 16: F<65536>, F<256>, F<100>, F<32>, F<17>, F<16>, F<9>;
        new_u32 "vec_u32" 32: F<P32>, F<70000>, F<65536>, F<2048>, F<300>, F<256>, F<65>;
        new_u64 "vec_u64" 64: F<{ P63 + 1 }>, F<P32>, F<{ 1 << 22 }>, F<{ 1 << 21 }>, F<65536>, F<4096>;
        new_u128 "vec_u128" 128: F<{ P63 + 1 }>, F<{ 1 << 43 }>, F<{ 1 << 42 }>, F<P32>, F<{ 1 << 25 }>;
        new_small "smallvec_u32" 32: F<P32>, F<70000>, F<65536>, F<2048>, F<300>, F<256>, F<65>;
    }
}

fn walked(args: &[String]) -> Vec<Ty> {
    if arg(args, "--conv", "") == "1" {
        small_faulty()
    } else {
        small_blocks()
    }
}

fn digest(t: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h ^ (h >> 33)) & 0x3fff_ffff
}

/// Runs the same history on every storage module that admits the type
fn lockstep(args: &[String]) {
    // histories of several kinds
    let profiles: Vec<&Profile> =
        arg(args, "--profile", "agree,edit,agree,bulk,eq,agree,query,iter").split(',').map(|n| PROFILES.iter().find(|p| p.name == n).expect("profile")).collect();
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(args, "--count", "10").parse().unwrap();
    let events: usize = arg(args, "--events", "30").parse().unwrap();
    let only: i64 = arg(args, "--only", "-1").parse().unwrap();
    let pending = arg(args, "--pending", "");
    let size = Size::named(arg(args, "--size", "blocks"));
    let gs = groups();
    let mut out = BufWriter::new(File::create(arg(args, "--out", "/dev/stdout")).unwrap());
    let mut pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut id = start;
    while id < count {
        let mut r = Rng::new(seed ^ 0x10c5, id);
        let grp = &gs[(id % gs.len() as u64) as usize];
        let profile = profiles[(id / gs.len() as u64) as usize % profiles.len()];
        let used: Vec<&Ty> = grp.iter().enumerate().filter(|(k, _)| only < 0 || only == *k as i64).map(|x| x.1).collect();
        // boundaries of any of the modules
        let near = &grp[r.below(grp.len())];
        let epb = near.block / bits(near.n);
        let mut ev = events;
        let maxlen = if profile.name == "iterx" { 5 } else { size.draw(&mut r, epb, &mut ev) };
        let mut protos: Vec<_> = used.iter().map(|t| (t.make)()).collect();
        if let Some(ds) = vary(grp[0].n, &mut r) {
            protos.iter_mut().for_each(|p| p.repal(&ds))
        }
        let mut envs: Vec<Env> = protos.iter().map(|p| Env::new(&**p)).collect();
        let mut g = Gen { r, pr: profile, epb, bits: 1, p: protos[0].palette_size(), maxlen, big: size.big(), queue: Default::default() };
        let hd = header(&grp[0], &*protos[0], grp[0].zero, id, seed);
        let mods: Vec<String> = grp.iter().map(|t| js_str(t.module)).collect();
        let hd = format!("{},\"mods\":[{}]}}", &hd[..hd.len() - 1], mods.join(","));
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", hd).unwrap();
        }
        let mut evs: Vec<String> = Vec::new();
        g.setup();
        while evs.len() < ev || (!g.queue.is_empty() && evs.len() < 4 * ev) {
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let op = g.next(&envs[0].c, &|_| 0);
            if envs[0].c.iter().any(|c| c.len() > MAXLEN) {
                break;
            }
            if let Some(f) = &mut pend {
                writeln!(f, "P {{{}}}", op.json_args()).unwrap();
                f.flush().unwrap();
            }
            let mut xs = Vec::new();
            let mut res = String::new();
            let mut delta = String::new();
            for (k, env) in envs.iter_mut().enumerate() {
                let d = env.exec(&op);
                let ch = env.refresh();
                let mut all = format!("{} {}", d.r, d.t);
                for i in 0..NSLOTS {
                    if ch.contains(&i) || i == op.v {
                        all.push_str(&format!("|{}:{}:{:?}:{}", i, js_list(&env.c[i]), env.s[i].hash(), env.s[i].is_empty()));
                    }
                }
                if k == 0 {
                    res = d.r.clone();
                    delta = ch.iter().map(|&i| env.change(i)).collect::<Vec<_>>().join(",");
                }
                xs.push(digest(&all).to_string());
            }
            let e = format!("{{{},\"r\":{},\"d\":[{}],\"x\":[{}]}}", op.json_args(), res, delta, xs.join(","));
            if let Some(f) = &mut pend {
                writeln!(f, "E {}", e).unwrap();
                f.flush().unwrap();
            }
            evs.push(e);
        }
        writeln!(out, "{{{},\"e\":[{}]}}", hd, evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    watchdog(20);
    match args.first().map(|s| s.as_str()) {
        Some("record") => record(&args),
        Some("lockstep") => lockstep(&args),
        Some("walk") => walk::walk(&args, walked(&args)),
        Some("walk-types") => {
            for t in walked(&args) {
                println!("{} {} {} {} {}", t.module, t.block / bits(t.n), (t.make)().palette_size(), t.zero, t.name)
            }
        }
        _ => {
            eprintln!("usage: vecdrv record ...");
            std::process::exit(3)
        }
    }
}
