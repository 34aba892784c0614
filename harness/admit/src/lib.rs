//! What is done with a type that a storage admits, for every way in
#![allow(non_camel_case_types)]
pub use enum_like::{EnumLike, PackedU16, PackedU8};
pub use enum_like_derive::EnumLike;
pub use enum_vec;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

/// `N` variants, numbered by the field
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct D<const N: usize>(pub usize);
unsafe impl<const N: usize> EnumLike for D<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        D(x)
    }
}

/// One probe as the specification chose it
pub struct Job {
    pub lens: Vec<usize>,
    pub vals: Vec<u64>,
}

fn nums<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let v: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

/// Positions (from 1) in the palette; 0 for any other number
fn pos(vals: &[u64], x: u64) -> usize {
    vals.iter().position(|&v| v == x).map_or(0, |p| p + 1)
}

pub struct Out(pub Vec<String>);
impl Out {
    fn run(&mut self, entry: &str, n: usize, read: Vec<usize>, raw: Vec<usize>, blocks: usize, ans: Vec<usize>) {
        self.0.push(format!("{{\"entry\":\"{}\",\"n\":{},\"read\":{},\"raw\":{},\"blocks\":{},\"ans\":{}}}", entry, n, nums(read), nums(raw), blocks, nums(ans)));
    }
}

macro_rules! modules {
    ($($m:ident)+) => { $(
        pub mod $m {
            use super::*;
            use enum_vec::$m::EnumVec;
            pub fn run<T: EnumLike + Copy>(job: &Job, out: &mut Out) {
                let vals = &job.vals;
                let el = |i: usize| T::from_discr(vals[i % vals.len()] as usize);
                let look = |v: &EnumVec<T>| -> Vec<usize> { v.to_vec().into_iter().map(|x| pos(vals, x.to_discr() as u64)).collect() };
                let ans = |v: &EnumVec<T>| -> Vec<usize> {
                    vals.iter().map(|&x| { let x = T::from_discr(x as usize); v.any(x) as usize + 2 * v.all(x) as usize }).collect()
                };
                for (k, &n) in job.lens.iter().enumerate() {
                    let mut v = EnumVec::<T>::new();
                    for i in 0..n { v.push(el(i)); }
                    v.shrink_to_fit();
                    let raw = (0..v.len()).map(|i| pos(vals, unsafe { v.get_raw_unchecked(i) } as u64)).collect();
                    out.run("push", v.len(), look(&v), raw, v.storage().len(), ans(&v));
                    if k != 1 { continue; }
                    let all: Vec<T> = (0..n).map(el).collect();
                    let mut done = |e: &str, mut v: EnumVec<T>| { v.shrink_to_fit(); out.run(e, v.len(), look(&v), vec![], v.storage().len(), ans(&v)); };
                    let mut v = EnumVec::with_capacity(n);
                    for &x in &all { v.push(x); }
                    done("capacity", v);
                    done("collect", all.iter().cloned().collect());
                    done("slice", EnumVec::from_slice(&all));
                    done("vec", all.clone().into());
                    done("elem", EnumVec::from_elem(el(0), n));
                    let mut v = EnumVec::new();
                    v.resize(n, el(0));
                    done("resize", v);
                    let mut v = EnumVec::new();
                    for &x in all.iter().rev() { v.insert(0, x); }
                    done("insert", v);
                    let mut v = EnumVec::from_elem(el(0), n);
                    for (i, &x) in all.iter().enumerate() { v.set(i, x); }
                    done("set", v);
                }
            }
        }
    )+ }
}
modules! { vec_u8 vec_u16 vec_u32 vec_u64 vec_u128 smallvec_u32 }

macro_rules! packed {
    ($($m:ident $p:ident)+) => { $(
        pub mod $m {
            use super::*;
            pub fn run<T: EnumLike + Copy>(job: &Job, out: &mut Out) {
                let read = job.vals.iter().map(|&x| pos(&job.vals, $p::new(T::from_discr(x as usize)).get().to_discr() as u64)).collect();
                out.run("pack", job.vals.len(), read, vec![], std::mem::size_of::<$p<T>>(), vec![]);
            }
        }
    )+ }
}
packed! { packed_u8 PackedU8 packed_u16 PackedU16 }

/// Runs the probes: a line "id lens vals" each
pub fn main(probes: &[(usize, fn(&Job, &mut Out))]) {
    let args: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<u64> { s.split(',').map(|x| x.parse().unwrap()).collect() };
    let mut jobs = std::collections::HashMap::new();
    for l in BufReader::new(File::open(&args[1]).unwrap()).lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split(' ').collect();
        jobs.insert(w[0].parse::<usize>().unwrap(), Job { lens: list(w[1]).into_iter().map(|x| x as usize).collect(), vals: list(w[2]) });
    }
    let mut f = BufWriter::new(File::create(&args[2]).unwrap());
    for &(id, p) in probes {
        writeln!(f, "S {}", id).unwrap();
        f.flush().unwrap();
        let mut out = Out(vec![]);
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p(&jobs[&id], &mut out))).is_ok();
        writeln!(f, "R {{\"id\":{},\"ok\":{},\"runs\":[{}]}}", id, ok as usize, out.0.join(",")).unwrap();
    }
}
