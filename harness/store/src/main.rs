//! Records histories of values stored in every container of the three crates
#![allow(non_camel_case_types, non_snake_case, dead_code, unused, non_local_definitions)]
use enum_like::{PackedU16, PackedU8};
use enum_set::EnumSet;
use like::json::*;
use like::*;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::rc::Rc;

extern crate enum_set2 as enum_set;

/// Values by their position in the palette; texts not in it are -1
pub struct Pal<T> {
    vals: Vec<T>,
    ix: HashMap<String, i64>,
}
impl<T: Txt> Pal<T> {
    fn new(texts: &[String]) -> Rc<Self> {
        let vals: Vec<T> = texts.iter().map(|t| value(t)).collect();
        let ix = texts.iter().enumerate().map(|(k, t)| (t.clone(), k as i64)).collect();
        Rc::new(Pal { vals, ix })
    }
    fn of(&self, v: &T) -> i64 {
        self.ix.get(&text(v)).copied().unwrap_or(-1)
    }
}

/// What a container holds: the values in order, and their raw numbers
pub type Read = (Vec<i64>, Vec<u64>);
pub trait Cont {
    fn name(&self) -> &'static str;
    fn epb(&self) -> usize {
        4
    }
    fn len(&self) -> usize;
    /// "push", "set", "ins", "del", "put", "rm"
    fn op(&mut self, o: &str, i: usize, t: usize) -> i64;
    fn read(&self) -> Read;
}

macro_rules! vecs {
    ($($w:ident $m:ident $b:literal;)+) => { $(
        pub struct $w<T: Txt>(enum_vec::$m::EnumVec<T>, Rc<Pal<T>>);
        impl<T: Txt + 'static> Cont for $w<T> {
            fn name(&self) -> &'static str { stringify!($m) }
            fn epb(&self) -> usize { let n = T::NUM_VARIANTS; $b / (64 - (n - 1).leading_zeros() as usize) }
            fn len(&self) -> usize { self.0.len() }
            fn op(&mut self, o: &str, i: usize, t: usize) -> i64 {
                let v = self.1.vals[t];
                match o {
                    "push" => { self.0.push(v); -2 }
                    "set" => { self.0.set(i, v); -2 }
                    "ins" => { self.0.insert(i, v); -2 }
                    "del" => self.1.of(&self.0.remove(i)),
                    "pop" => self.0.pop().map_or(-3, |v| self.1.of(&v)),
                    _ => unreachable!(),
                }
            }
            fn read(&self) -> Read {
                let n = self.0.len();
                (
                    (0..n).map(|i| self.0.get(i).map_or(-3, |v| self.1.of(&v))).collect(),
                    (0..n).map(|i| unsafe { self.0.get_raw_unchecked(i) } as u64).collect(),
                )
            }
        }
    )+ }
}
vecs! { V8 vec_u8 8; V16 vec_u16 16; V32 vec_u32 32; V64 vec_u64 64; V128 vec_u128 128; VS smallvec_u32 32; }

pub struct S<T: Txt>(EnumSet<T>, Rc<Pal<T>>);
impl<T: Txt + 'static> Cont for S<T> {
    fn name(&self) -> &'static str {
        "set"
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn op(&mut self, o: &str, _: usize, t: usize) -> i64 {
        let v = self.1.vals[t];
        match o {
            "put" => self.0.insert(v) as i64,
            "rm" => self.0.remove(v) as i64,
            "has" => self.0.contains(v) as i64,
            _ => unreachable!(),
        }
    }
    fn read(&self) -> Read {
        (self.0.iter().map(|v| self.1.of(&v)).collect(), self.0.get_ref().iter().map(|x| x as u64).collect())
    }
}

macro_rules! packs {
    ($($w:ident $p:ident;)+) => { $(
        pub struct $w<T: Txt>(Vec<$p<T>>, Rc<Pal<T>>);
        impl<T: Txt + 'static> Cont for $w<T> {
            fn name(&self) -> &'static str { stringify!($p) }
            fn len(&self) -> usize { self.0.len() }
            fn op(&mut self, o: &str, i: usize, t: usize) -> i64 {
                let v = self.1.vals[t];
                match o {
                    "push" => { self.0.push($p::new(v)); -2 }
                    "set" => { self.0[i] = $p::new(v); -2 }
                    "ins" => { self.0.insert(i, $p::new(v)); -2 }
                    "del" => self.1.of(&self.0.remove(i).get()),
                    "pop" => self.0.pop().map_or(-3, |v| self.1.of(&v.get())),
                    _ => unreachable!(),
                }
            }
            fn read(&self) -> Read {
                (self.0.iter().map(|p| self.1.of(&p.get())).collect(), vec![])
            }
        }
    )+ }
}
packs! { P8 PackedU8; P16 PackedU16; }

pub type Make = fn(&[String]) -> (Vec<Box<dyn Cont>>, Vec<u64>);
pub fn discrs<T: Txt>(texts: &[String]) -> Vec<u64> {
    texts.iter().map(|t| value::<T>(t).to_discr() as u64).collect()
}

include!(concat!(env!("LIKE_GEN"), "/types.rs"));

fn texts(dir: &str, idx: usize) -> Vec<String> {
    let s = std::fs::read_to_string(format!("{}/{}.tab", dir, idx)).expect("table");
    s.lines().skip(1).map(|x| x.split_once('\t').unwrap().1.to_string()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watch::watchdog(15);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let dir = arg(&args, "--dir", ".");
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    let start: u64 = arg(&args, "--start", "0").parse().unwrap();
    let stride: u64 = arg(&args, "--stride", "1").parse().unwrap();
    let count: u64 = arg(&args, "--count", "10").parse().unwrap();
    let pending = arg(&args, "--pending", "");
    let mut out = BufWriter::new(File::create(arg(&args, "--out", "/dev/stdout")).unwrap());
    let mut pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut id = start;
    while id < count {
        let (idx, make) = TYPES[(id % TYPES.len() as u64) as usize];
        let mut r = Rng::new(seed, id);
        let all = texts(dir, idx);
        // the palette: first, last and random values
        let mut pick: Vec<String> = vec![];
        while pick.len() < 14.min(all.len()) {
            let k = match pick.len() {
                0 => 0,
                1 => all.len() - 1,
                2 => 1,
                _ => r.below(all.len()),
            };
            if !pick.contains(&all[k]) {
                pick.push(all[k].clone());
            } else if all.iter().all(|t| pick.contains(t)) {
                break;
            } else if r.below(8) == 0 {
                pick.extend(all.iter().find(|t| !pick.contains(t)).cloned());
            }
        }
        let head = |dis: &[u64], conts: &[Box<dyn Cont>]| {
            format!(
                "\"h\":{{\"mod\":\"store\",\"ty\":{},\"id\":{},\"txt\":[{}],\"dis\":[{}],\"con\":[{}]}}",
                js_str(&format!("{}:{}", idx, NAMES[(id % TYPES.len() as u64) as usize])),
                id,
                pick.iter().map(|t| js_str(t)).collect::<Vec<_>>().join(","),
                dis.iter().map(|d| format!("\"{}\"", d)).collect::<Vec<_>>().join(","),
                conts.iter().map(|c| js_str(c.name())).collect::<Vec<_>>().join(",")
            )
        };
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", head(&[], &[])).unwrap();
            writeln!(f, "P {{\"o\":\"make\",\"c\":1,\"i\":0,\"t\":1}}").unwrap();
            f.flush().unwrap();
        }
        let made = quiet(|| make(&pick));
        if made.is_none() {
            writeln!(out, "{{{},\"e\":[{{\"o\":\"make\",\"c\":1,\"i\":0,\"t\":1,\"r\":[\"p\"]}}]}}", head(&[], &[])).unwrap();
            out.flush().unwrap();
            id += stride;
            continue;
        }
        let (mut conts, dis) = made.unwrap();
        let hd = head(&dis, &conts);
        if let Some(f) = &mut pend {
            writeln!(f, "H {{{}}}", hd).unwrap();
        }
        let mut evs: Vec<String> = vec![];
        let p = pick.len();
        // one container gets most of the operations
        let fav = r.below(conts.len());
        let mut broken = false;
        while evs.len() < 60 && !broken {
            watch::tick();
            let c = if r.below(3) < 2 { fav } else { r.below(conts.len()) };
            let t = r.below(p);
            let n = conts[c].len();
            let maxlen = (2 * conts[c].epb() + 2).max(6);
            let is_set = conts[c].name() == "set";
            let (o, i, rep) = if is_set {
                (["put", "put", "put", "rm", "rm", "has"][r.below(6)], 0, 1)
            } else if n == 0 {
                ("push", 0, 1 + r.below(maxlen))
            } else {
                match r.below(12) {
                    0..=2 => ("push", 0, 1),
                    3..=6 => ("set", r.below(n), 1),
                    7..=8 => ("ins", r.below(n + 1), 1),
                    9 => ("del", r.below(n), 1),
                    10 => ("pop", 0, 1),
                    _ if n < maxlen => ("push", 0, 1 + r.below(maxlen - n)),
                    _ => ("pop", 0, 1 + r.below(n)),
                }
            };
            if o == "push" && n + rep > 160 {
                continue;
            }
            for k in 0..rep {
                let t = (t + k * 5 + k / p) % p;
                let a = format!("\"o\":\"{}\",\"c\":{},\"i\":{},\"t\":{}", o, c + 1, i, t + 1);
                if let Some(f) = &mut pend {
                    writeln!(f, "P {{{}}}", a).unwrap();
                    f.flush().unwrap();
                }
                let x = quiet(|| conts[c].op(o, i, t));
                let last = k + 1 == rep;
                let rd = if x.is_some() && (last || k % 7 == 0) { Some(quiet(|| conts[c].read())) } else { None };
                let res = match (x, &rd) {
                    (None, _) | (_, Some(None)) => {
                        broken = true;
                        "[\"p\"]".to_string()
                    }
                    (Some(x), None) => format!("[\"v\",{}]", x),
                    (Some(x), Some(Some((v, raw)))) => format!(
                        "[\"c\",{},{:?},[{}]]",
                        x,
                        v,
                        raw.iter().map(|d| format!("\"{}\"", d)).collect::<Vec<_>>().join(",")
                    ),
                };
                let e = format!("{{{},\"r\":{}}}", a, res);
                if let Some(f) = &mut pend {
                    writeln!(f, "E {}", e).unwrap();
                    f.flush().unwrap();
                }
                evs.push(e);
                if broken {
                    break;
                }
            }
        }
        writeln!(out, "{{{},\"e\":[{}]}}", hd, evs.join(",")).unwrap();
        out.flush().unwrap();
        id += stride;
    }
}
