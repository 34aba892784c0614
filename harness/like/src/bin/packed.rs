//! Records histories of packed wrappers
use enum_like::{EnumLike, PackedU16, PackedU8};
use enum_like_derive::EnumLike;
use like::json::*;
use like::*;
use std::collections::hash_map::DefaultHasher;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Write};

trait Bag {
    /// pack the value numbered x; its text, its number, and what is read back
    fn put(&mut self, x: usize) -> (String, u64, String);
    fn get(&self, i: usize) -> String;
    fn size(&self) -> usize;
    fn cmp(&self, i: usize, j: usize) -> String;
    fn dup(&mut self, i: usize) -> String;
    fn sorted(&self) -> Vec<usize>;
}

macro_rules! bag {
    ($b:ident, $p:ident) => {
        struct $b<T>(Vec<$p<T>>);
        impl<T: Txt + Ord + Hash + 'static> Bag for $b<T> {
            fn put(&mut self, x: usize) -> (String, u64, String) {
                let v = T::from_discr(x);
                let p = $p::new(v);
                self.0.push(p);
                (text(&v), (v.to_discr() as u64).min(1 << 30), text(&p.get()))
            }
            fn get(&self, i: usize) -> String {
                text(&self.0[i].get())
            }
            fn size(&self) -> usize {
                let n = self.0.len().max(1);
                // the size of one, and of an array of them
                if std::mem::size_of_val(&self.0[..]) == self.0.len() * std::mem::size_of::<$p<T>>() && n > 0 {
                    std::mem::size_of::<$p<T>>()
                } else {
                    0
                }
            }
            fn cmp(&self, i: usize, j: usize) -> String {
                let (a, b) = (&self.0[i], &self.0[j]);
                let h = |x: &$p<T>| {
                    let mut h = DefaultHasher::new();
                    x.hash(&mut h);
                    h.finish()
                };
                format!(
                    "[{},{},{},{},{},{},{},{},{}]",
                    a.cmp(b) as i8,
                    a.partial_cmp(b).map_or(9, |x| x as i8),
                    (a == b) as u8,
                    (a != b) as u8,
                    (a < b) as u8,
                    (a <= b) as u8,
                    (a > b) as u8,
                    (a >= b) as u8,
                    (h(a) == h(b)) as u8
                )
            }
            fn dup(&mut self, i: usize) -> String {
                let p = self.0[i];
                let q = p.clone();
                self.0.push(q);
                text(&q.get())
            }
            fn sorted(&self) -> Vec<usize> {
                let mut ix: Vec<usize> = (0..self.0.len()).collect();
                ix.sort_by_key(|i| self.0[*i]);
                ix
            }
        }
    };
}
bag!(B8, PackedU8);
bag!(B16, PackedU16);

type La3 = La<3>;
type Ld5 = Ld<5>;
#[derive(Clone, Copy, EnumLike, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum De {
    A(La3, Option<bool>),
    B,
    C { x: La3 },
    D,
}
impl Txt for De {
    fn parse(_: &mut P) -> Self {
        De::B
    }
    fn show(&self, o: &mut String) {
        match self {
            De::A(a, b) => {
                o.push_str("A");
                a.show(o);
                b.show(o);
            }
            De::B => o.push_str("B"),
            De::C { x } => {
                o.push_str("C");
                x.show(o);
            }
            De::D => o.push_str("D"),
        }
    }
}

struct Ty {
    name: &'static str,
    w: usize,
    n: usize,
    make: fn() -> Box<dyn Bag>,
}

fn types() -> Vec<Ty> {
    macro_rules! t { ($(u8: $($t8:ty = $n8:expr),+; u16: $($t16:ty = $n16:expr),+;)+) => { vec![
        $($(Ty { name: stringify!($t8), w: 8, n: $n8, make: || Box::new(B8::<$t8>(vec![])) },)+
        $(Ty { name: stringify!($t16), w: 16, n: $n16, make: || Box::new(B16::<$t16>(vec![])) },)+)+
    ] } }
    t! {
        u8: bool = 2, Ln<256> = 256, De = 14, Ln<255> = 255, Option<bool> = 3, [bool; 8] = 256, Option<Ln<255>> = 256, () = 1, (La<16>, Lb<16>) = 256,
            Ln<129> = 129, Ln<128> = 128, [La<4>; 4] = 256, Result<Ln<128>, [bool; 7]> = 256, (Ld5, La3) = 15, Ln<254> = 254, Ld<200> = 200, Lc<'static, 9> = 9;
        u16: bool = 2, Ln<256> = 256, Ln<257> = 257, Ln<65536> = 65536, Ln<65535> = 65535, De = 14, [bool; 16] = 65536, Ln<300> = 300, Option<Ln<65535>> = 65536,
            [La<16>; 4] = 65536, Ln<32769> = 32769, Ln<32768> = 32768, Result<Ln<255>, Ln<2>> = 257, Option<Ln<256>> = 257, (Ln<256>, Ln<256>) = 65536, Ln<511> = 511, Ln<512> = 512;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watch::watchdog(15);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(&args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(&args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(&args, "--count", "10").parse().unwrap();
    let pending = arg(&args, "--pending", "");
    let tys = types();
    let mut out = BufWriter::new(File::create(arg(&args, "--out", "/dev/stdout")).unwrap());
    let mut pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut id = start;
    while id < count {
        let t = &tys[(id % tys.len() as u64) as usize];
        let round = (id / tys.len() as u64) as usize;
        let hd = format!("\"h\":{{\"ty\":{},\"mod\":\"packed\",\"w\":{},\"n\":{},\"id\":{}}}", js_str(t.name), t.w, t.n, id);
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", hd).unwrap();
        }
        let mut r = Rng::new(seed, id);
        let mut bag = (t.make)();
        let mut evs: Vec<String> = Vec::new();
        let mut len = 0usize;
        // round k packs 32 consecutive values from a place that moves, then mixes
        let base = match round % 4 {
            0 => 32 * (round / 4),
            1 => t.n.saturating_sub(32 * (round / 4 + 1)),
            2 => (t.n / 2 + 32 * (round / 4)).saturating_sub(16),
            _ => r.below(t.n),
        };
        for k in 0..90usize {
            watch::tick();
            let near = |r: &mut Rng| if r.below(3) == 0 { r.below(t.n) } else { let c = [0, 1, t.n - 1, t.n / 2, t.n.min(256) - 1, 255 % t.n, 256 % t.n, 127 % t.n, 128 % t.n]; c[r.below(c.len())] };
            let (args, kind) = if k < 32 {
                (format!("\"o\":\"put\",\"x\":{}", (base + k) % t.n), 0)
            } else {
                match r.below(10) {
                    0..=2 => (format!("\"o\":\"put\",\"x\":{}", near(&mut r)), 0),
                    3 => ("\"o\":\"size\",\"x\":0".to_string(), 1),
                    4 => (format!("\"o\":\"dup\",\"x\":{}", r.below(len)), 2),
                    5 => (format!("\"o\":\"get\",\"x\":{}", r.below(len)), 3),
                    6 if k > 80 => ("\"o\":\"sort\",\"x\":0".to_string(), 5),
                    _ => (format!("\"o\":\"cmp\",\"x\":{},\"y\":{}", r.below(len), r.below(len)), 4),
                }
            };
            if let Some(f) = &mut pend {
                writeln!(f, "P {{{}}}", args).unwrap();
                f.flush().unwrap();
            }
            let pick = |name: &str| -> usize {
                let s = &args[args.find(&format!("\"{}\":", name)).unwrap() + name.len() + 3..];
                s.split(',').next().unwrap().parse().unwrap()
            };
            let x = pick("x");
            let res = quiet(|| match kind {
                0 => {
                    let (a, d, b) = bag.put(x);
                    format!("[{},{},{}]", js_str(&a), d, js_str(&b))
                }
                1 => format!("{}", bag.size()),
                2 => js_str(&bag.dup(x)),
                3 => js_str(&bag.get(x)),
                5 => format!("{:?}", bag.sorted()),
                _ => bag.cmp(x, pick("y")),
            });
            if kind == 0 || kind == 2 {
                len += 1;
            }
            let died = res.is_none();
            let e = format!("{{{},\"r\":{}}}", args, res.map_or("[\"p\"]".to_string(), |s| format!("[\"v\",{}]", s)));
            if let Some(f) = &mut pend {
                writeln!(f, "E {}", e).unwrap();
                f.flush().unwrap();
            }
            evs.push(e);
            if died {
                break;
            }
        }
        writeln!(out, "{{{},\"e\":[{}]}}", hd, evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}
