//! One interface over the `EnumVec` of every storage module and element type.
use crate::el::El;
use std::any::Any;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// Data fed to a hasher, verbatim
#[derive(Default)]
pub struct Feed(pub Vec<u8>);
impl Hasher for Feed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

pub struct Pal<T>(pub Vec<T>);
impl<T: El> Pal<T> {
    pub fn val(&self, i: i64) -> T {
        self.0[i as usize]
    }
    pub fn vals(&self, q: &[i64]) -> Vec<T> {
        q.iter().map(|&i| self.val(i)).collect()
    }
    pub fn idx(&self, x: T) -> i64 {
        match self.0.iter().position(|y| *y == x) {
            Some(i) => i as i64,
            None => 900_000,
        }
    }
}

/// Logged in place of numbers too large for the specification's integers
pub const HUGE: i64 = 2_000_000_000;

/// What an iterator call returned
pub enum IR {
    None,
    Some(i64),
    Seq(Vec<i64>),
    Num(i64),
    Hint(i64, i64),
}

/// Panics when reached: "caller code" that fails
pub fn caller_panic() -> ! {
    std::panic::panic_any("caller")
}

/// An iterator whose size hint is as told and which may panic at its end
pub struct Odd<T> {
    pub items: std::vec::IntoIter<T>,
    pub hint: (usize, Option<usize>),
    pub panic_at_end: bool,
}
impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.items.next();
        if x.is_none() && self.panic_at_end {
            caller_panic()
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

pub trait Slot {
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn fresh(&self) -> Box<dyn Slot>;
    fn default_box(&self) -> Box<dyn Slot>;
    fn palette_size(&self) -> usize;
    /// uses only some values of the palette
    fn narrow(&mut self, idx: &[usize]);
    /// uses the values with these discriminants instead, if the type has the means
    fn repal(&mut self, ds: &[usize]);
    fn text(&self, i: usize, alt: bool) -> String;

    fn with_capacity(&self, n: usize) -> Box<dyn Slot>;
    fn from_elem(&self, x: i64, n: usize) -> Box<dyn Slot>;
    fn macro_rep(&self, x: i64, n: usize) -> Box<dyn Slot>;
    fn from_slice(&self, q: &[i64]) -> Box<dyn Slot>;
    fn from_vec(&self, q: &[i64]) -> Box<dyn Slot>;
    fn macro_list(&self, q: &[i64]) -> Box<dyn Slot>;
    fn collect(&self, q: &[i64], kind: i64) -> Box<dyn Slot>;
    fn clone_box(&self) -> Box<dyn Slot>;
    fn clone_from_slot(&mut self, o: &dyn Slot);

    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn capacity(&self) -> usize;
    fn storage_len(&self) -> usize;
    fn get(&self, i: usize) -> Option<i64>;
    fn set(&mut self, i: usize, x: i64);
    fn push(&mut self, x: i64);
    fn pop(&mut self) -> Option<i64>;
    fn insert(&mut self, i: usize, x: i64);
    fn remove(&mut self, i: usize) -> i64;
    fn swap(&mut self, i: usize, j: usize);
    fn swap_remove(&mut self, i: usize) -> i64;
    fn truncate(&mut self, n: usize);
    fn clear(&mut self);
    fn reserve(&mut self, n: usize);
    fn shrink(&mut self);
    fn extend(&mut self, q: &[i64], kind: i64);
    fn extend_odd(&mut self, q: &[i64], hint: (usize, Option<usize>), panics: bool);
    fn collect_odd(&self, q: &[i64], hint: (usize, Option<usize>), panics: bool) -> Box<dyn Slot>;
    fn extend_iter(&mut self, o: &dyn Slot);
    fn extend_into(&mut self, o: Box<dyn Slot>);
    fn resize(&mut self, n: usize, x: i64);
    fn append(&mut self, o: &mut dyn Slot);
    fn split_off(&mut self, at: usize) -> Box<dyn Slot>;
    /// keep the listed values; panic at the given call; log what was shown
    fn retain(&mut self, keep: &[i64], panic_at: usize, seen: &mut Vec<i64>);
    fn for_each(&mut self, rot: i64, panic_at: usize, seen: &mut Vec<i64>);
    fn to_vec(&self) -> Vec<i64>;
    fn into_vec(self: Box<Self>) -> Vec<i64>;
    fn q_any(&self, x: i64) -> bool;
    fn q_all(&self, x: i64) -> bool;
    /// any (all) of many values outside the palette: how many say yes, how many were asked
    fn q_scan(&self, all: bool) -> (i64, i64);
    fn eq(&self, o: &dyn Slot) -> bool;
    fn ne(&self, o: &dyn Slot) -> bool;
    fn hash(&self) -> Vec<u8>;
    fn debug(&self, alt: bool) -> String;
    fn iter_script(&self, kind: i64, q: &[(i64, i64)]) -> Vec<IR>;
    fn raw_get(&self, i: usize) -> i64;
    fn raw_set(&mut self, i: usize, x: i64);
    fn raw_push(&mut self, q: &[i64]);
    fn set_len(&mut self, n: usize);
    /// a storage block
    fn blk_get(&self, k: usize) -> u128;
    fn blk_set(&mut self, k: usize, x: u128);
    /// a vector with a copy of the storage of this one
    fn transplant(&self) -> Box<dyn Slot>;
    /// more storage blocks
    fn pad(&mut self, n: usize, x: u128);
}

/// Runs the calls of a script on an iterator
pub fn run_script<T: El, I>(pal: &Pal<T>, it: I, q: &[(i64, i64)]) -> Vec<IR>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    let mut out = Vec::new();
    let mut it = it;
    let o = |x: Option<T>| match x {
        None => IR::None,
        Some(x) => IR::Some(pal.idx(x)),
    };
    for (k, &(c, n)) in q.iter().enumerate() {
        let last = k + 1 == q.len();
        let n = crate::exec::us(n);
        match c {
            0 => out.push(o(it.next())),
            1 => out.push(o(it.next_back())),
            2 => out.push(o(it.nth(n))),
            3 => out.push(o(it.nth_back(n))),
            4 => {
                let (a, b) = it.size_hint();
                let cut = |x: usize| x.min(1_999_999_999) as i64;
                out.push(IR::Hint(cut(a), b.map(cut).unwrap_or(-1)))
            }
            5 => out.push(IR::Num(it.len().min(1_999_999_999) as i64)),
            12 => out.push(IR::Seq(it.by_ref().take(n).map(|x| pal.idx(x)).collect())),
            16 => out.push(it.position(|x| pal.idx(x) == n as i64).map_or(IR::None, |k| IR::Num(k as i64))),
            17 => out.push(it.rposition(|x| pal.idx(x) == n as i64).map_or(IR::None, |k| IR::Num(k as i64))),
            19 => out.push(IR::Num(it.any(|x| pal.idx(x) == n as i64) as i64)),
            20 => out.push(IR::Num(it.all(|x| pal.idx(x) != n as i64) as i64)),
            21 => out.push(o(it.find(|x| pal.idx(*x) == n as i64))),
            22 => out.push(o(it.rfind(|x| pal.idx(*x) == n as i64))),
            _ => {
                assert!(last, "consuming call inside a script");
                out.push(match c {
                    6 => IR::Num(it.count().min(1_999_999_999) as i64),
                    7 => o(it.last()),
                    8 => IR::Seq(it.map(|x| pal.idx(x)).collect()),
                    9 => IR::Seq(it.rev().map(|x| pal.idx(x)).collect()),
                    10 => IR::Seq(it.skip(n).map(|x| pal.idx(x)).collect()),
                    11 => IR::Seq(it.step_by(n + 1).map(|x| pal.idx(x)).collect()),
                    13 => IR::Seq(it.fold(Vec::new(), |mut v, x| {
                        v.push(pal.idx(x));
                        v
                    })),
                    18 => {
                        let mut v = Vec::new();
                        it.for_each(|x| v.push(pal.idx(x)));
                        IR::Seq(v)
                    }
                    15 => IR::Seq(it.rfold(Vec::new(), |mut v, x| {
                        v.push(pal.idx(x));
                        v
                    })),
                    _ => panic!("unknown call"),
                });
                return out;
            }
        }
    }
    out
}

pub struct W<V, T> {
    pub v: V,
    pub pal: Rc<Pal<T>>,
}

macro_rules! backend {
    ($f:ident, $m:ident) => {
        pub fn $f<T: El>() -> Box<dyn Slot> {
            Box::new(W::<enum_vec::$m::EnumVec<T>, T> {
                v: enum_vec::$m::EnumVec::new(),
                pal: Rc::new(Pal(T::pal())),
            })
        }
        const _: () = {
            use enum_vec::enum_vec;
            use enum_vec::$m::EnumVec;
            impl<T: El> W<EnumVec<T>, T> {
                fn mk(&self, v: EnumVec<T>) -> Box<dyn Slot> {
                    Box::new(W { v, pal: self.pal.clone() })
                }
            }
            fn down<T: El>(o: &dyn Slot) -> &EnumVec<T> {
                &o.any().downcast_ref::<W<EnumVec<T>, T>>().unwrap().v
            }
            impl<T: El> Slot for W<EnumVec<T>, T> {
                fn any(&self) -> &dyn Any {
                    self
                }
                fn any_mut(&mut self) -> &mut dyn Any {
                    self
                }
                fn fresh(&self) -> Box<dyn Slot> {
                    self.mk(EnumVec::new())
                }
                fn default_box(&self) -> Box<dyn Slot> {
                    self.mk(EnumVec::default())
                }
                fn palette_size(&self) -> usize {
                    self.pal.0.len()
                }
                fn repal(&mut self, ds: &[usize]) {
                    if let Some(v) = ds.iter().map(|&d| T::at(d)).collect::<Option<Vec<T>>>() {
                        self.pal = Rc::new(Pal(v))
                    }
                }
                fn narrow(&mut self, idx: &[usize]) {
                    self.pal = Rc::new(Pal(idx.iter().map(|&i| self.pal.0[i]).collect()))
                }
                fn text(&self, i: usize, alt: bool) -> String {
                    if alt {
                        format!("{:#?}", self.pal.0[i]).replace("\n", "\n    ")
                    } else {
                        format!("{:?}", self.pal.0[i])
                    }
                }
                fn with_capacity(&self, n: usize) -> Box<dyn Slot> {
                    self.mk(EnumVec::with_capacity(n))
                }
                fn from_elem(&self, x: i64, n: usize) -> Box<dyn Slot> {
                    self.mk(EnumVec::from_elem(self.pal.val(x), n))
                }
                fn macro_rep(&self, x: i64, n: usize) -> Box<dyn Slot> {
                    self.mk(enum_vec![self.pal.val(x); n])
                }
                fn from_slice(&self, q: &[i64]) -> Box<dyn Slot> {
                    self.mk(EnumVec::from_slice(&self.pal.vals(q)))
                }
                fn from_vec(&self, q: &[i64]) -> Box<dyn Slot> {
                    self.mk(self.pal.vals(q).into())
                }
                fn macro_list(&self, q: &[i64]) -> Box<dyn Slot> {
                    let q = self.pal.vals(q);
                    self.mk(match q.len() {
                        0 => enum_vec![],
                        1 => enum_vec![q[0]],
                        2 => enum_vec![q[0], q[1]],
                        3 => enum_vec![q[0], q[1], q[2],],
                        4 => enum_vec![q[0], q[1], q[2], q[3]],
                        5 => enum_vec![q[0], q[1], q[2], q[3], q[4],],
                        n => panic!("macro_list of {}", n),
                    })
                }
                fn collect(&self, q: &[i64], kind: i64) -> Box<dyn Slot> {
                    let q = self.pal.vals(q);
                    let n = q.len();
                    let exact = (n, Some(n));
                    self.mk(match kind {
                        0 => q.into_iter().collect(),
                        1 => Odd { items: q.into_iter(), hint: (0, Some(n)), panic_at_end: false }.collect(),
                        2 => Odd { items: q.into_iter(), hint: (0, None), panic_at_end: false }.collect(),
                        3 => Odd { items: q.into_iter(), hint: (n / 2, Some(n + 7)), panic_at_end: false }.collect(),
                        4 => Odd { items: q.into_iter(), hint: exact, panic_at_end: false }.collect(),
                        _ => q.iter().cloned().collect(),
                    })
                }
                fn clone_box(&self) -> Box<dyn Slot> {
                    self.mk(self.v.clone())
                }
                fn clone_from_slot(&mut self, o: &dyn Slot) {
                    self.v.clone_from(down::<T>(o))
                }
                fn len(&self) -> usize {
                    self.v.len()
                }
                fn is_empty(&self) -> bool {
                    self.v.is_empty()
                }
                fn capacity(&self) -> usize {
                    self.v.capacity()
                }
                fn storage_len(&self) -> usize {
                    self.v.storage().len()
                }
                fn get(&self, i: usize) -> Option<i64> {
                    self.v.get(i).map(|x| self.pal.idx(x))
                }
                fn set(&mut self, i: usize, x: i64) {
                    self.v.set(i, self.pal.val(x))
                }
                fn push(&mut self, x: i64) {
                    self.v.push(self.pal.val(x))
                }
                fn pop(&mut self) -> Option<i64> {
                    let x = self.v.pop();
                    x.map(|x| self.pal.idx(x))
                }
                fn insert(&mut self, i: usize, x: i64) {
                    self.v.insert(i, self.pal.val(x))
                }
                fn remove(&mut self, i: usize) -> i64 {
                    let x = self.v.remove(i);
                    self.pal.idx(x)
                }
                fn swap(&mut self, i: usize, j: usize) {
                    self.v.swap(i, j)
                }
                fn swap_remove(&mut self, i: usize) -> i64 {
                    let x = self.v.swap_remove(i);
                    self.pal.idx(x)
                }
                fn truncate(&mut self, n: usize) {
                    self.v.truncate(n)
                }
                fn clear(&mut self) {
                    self.v.clear()
                }
                fn reserve(&mut self, n: usize) {
                    self.v.reserve(n)
                }
                fn shrink(&mut self) {
                    self.v.shrink_to_fit()
                }
                fn extend(&mut self, q: &[i64], kind: i64) {
                    let q = self.pal.vals(q);
                    let n = q.len();
                    let mut odd = |q: Vec<T>, hint| self.v.extend(Odd { items: q.into_iter(), hint, panic_at_end: false });
                    match kind {
                        1 => odd(q, (0, Some(n))),
                        2 => odd(q, (0, None)),
                        3 => odd(q, (n / 2, Some(n + 7))),
                        4 => odd(q, (n, Some(n))),
                        5 => self.v.extend(q.iter().cloned()),
                        _ => self.v.extend(q),
                    }
                }
                fn extend_odd(&mut self, q: &[i64], hint: (usize, Option<usize>), panics: bool) {
                    let q = self.pal.vals(q);
                    self.v.extend(Odd { items: q.into_iter(), hint, panic_at_end: panics })
                }
                fn collect_odd(&self, q: &[i64], hint: (usize, Option<usize>), panics: bool) -> Box<dyn Slot> {
                    let q = self.pal.vals(q);
                    self.mk(Odd { items: q.into_iter(), hint, panic_at_end: panics }.collect())
                }
                fn extend_iter(&mut self, o: &dyn Slot) {
                    self.v.extend(down::<T>(o).iter())
                }
                fn extend_into(&mut self, mut o: Box<dyn Slot>) {
                    let w = o.any_mut().downcast_mut::<W<EnumVec<T>, T>>().unwrap();
                    let t = std::mem::replace(&mut w.v, EnumVec::new());
                    self.v.extend(t)
                }
                fn resize(&mut self, n: usize, x: i64) {
                    self.v.resize(n, self.pal.val(x))
                }
                fn append(&mut self, o: &mut dyn Slot) {
                    let w = o.any_mut().downcast_mut::<W<EnumVec<T>, T>>().unwrap();
                    self.v.append(&mut w.v)
                }
                fn split_off(&mut self, at: usize) -> Box<dyn Slot> {
                    let v = self.v.split_off(at);
                    self.mk(v)
                }
                fn retain(&mut self, keep: &[i64], panic_at: usize, seen: &mut Vec<i64>) {
                    let pal = self.pal.clone();
                    self.v.retain(|x| {
                        if seen.len() == panic_at {
                            caller_panic()
                        }
                        let i = pal.idx(*x);
                        seen.push(i);
                        keep.contains(&i)
                    })
                }
                fn for_each(&mut self, rot: i64, panic_at: usize, seen: &mut Vec<i64>) {
                    let pal = self.pal.clone();
                    let n = pal.0.len() as i64;
                    self.v.for_each(|x| {
                        if seen.len() == panic_at {
                            caller_panic()
                        }
                        let i = pal.idx(*x);
                        seen.push(i);
                        *x = pal.val((i + rot) % n);
                    })
                }
                fn to_vec(&self) -> Vec<i64> {
                    self.v.to_vec().into_iter().map(|x| self.pal.idx(x)).collect()
                }
                fn into_vec(self: Box<Self>) -> Vec<i64> {
                    let pal = self.pal.clone();
                    let t: Vec<T> = self.v.into();
                    t.into_iter().map(|x| pal.idx(x)).collect()
                }
                fn q_any(&self, x: i64) -> bool {
                    self.v.any(self.pal.val(x))
                }
                fn q_all(&self, x: i64) -> bool {
                    self.v.all(self.pal.val(x))
                }
                fn q_scan(&self, all: bool) -> (i64, i64) {
                    let (mut yes, mut asked) = (0, 0);
                    for d in crate::el::around(T::N, &self.pal.0, if self.v.len() > 4096 { 40 } else { 4096 }) {
                        if let Some(x) = T::at(d) {
                            if !self.pal.0.contains(&x) {
                                asked += 1;
                                yes += (if all { self.v.all(x) } else { self.v.any(x) }) as i64
                            }
                        }
                    }
                    (yes, asked)
                }
                fn eq(&self, o: &dyn Slot) -> bool {
                    self.v == *down::<T>(o)
                }
                fn ne(&self, o: &dyn Slot) -> bool {
                    self.v != *down::<T>(o)
                }
                fn hash(&self) -> Vec<u8> {
                    let mut h = Feed::default();
                    self.v.hash(&mut h);
                    h.0
                }
                fn debug(&self, alt: bool) -> String {
                    if alt {
                        format!("{:#?}", self.v)
                    } else {
                        format!("{:?}", self.v)
                    }
                }
                fn iter_script(&self, kind: i64, q: &[(i64, i64)]) -> Vec<IR> {
                    match kind {
                        0 => run_script(&self.pal, self.v.iter(), q),
                        1 => run_script(&self.pal, (&self.v).into_iter(), q),
                        _ => run_script(&self.pal, self.v.clone().into_iter(), q),
                    }
                }
                fn raw_get(&self, i: usize) -> i64 {
                    let d = unsafe { self.v.get_raw_unchecked(i) };
                    match self.pal.0.iter().position(|y| y.to_discr() == d) {
                        Some(i) => i as i64,
                        None => 900_001,
                    }
                }
                fn raw_set(&mut self, i: usize, x: i64) {
                    let d = self.pal.val(x).to_discr();
                    unsafe { self.v.set_raw_unchecked(i, d) }
                }
                fn raw_push(&mut self, q: &[i64]) {
                    let n = self.v.len();
                    self.v.reserve(q.len());
                    unsafe {
                        for (k, &x) in q.iter().enumerate() {
                            let d = self.pal.val(x).to_discr();
                            self.v.set_raw_unchecked(n + k, d);
                        }
                        self.v.set_len(n + q.len());
                    }
                }
                fn set_len(&mut self, n: usize) {
                    unsafe { self.v.set_len(n) }
                }
                fn blk_get(&self, k: usize) -> u128 {
                    self.v.storage()[k] as u128
                }
                fn blk_set(&mut self, k: usize, x: u128) {
                    unsafe { self.v.storage_mut()[k] = x as _ }
                }
                fn transplant(&self) -> Box<dyn Slot> {
                    let mut t = EnumVec::new();
                    unsafe {
                        *t.storage_mut() = self.v.storage().clone();
                        t.set_len(self.v.len());
                    }
                    self.mk(t)
                }
                fn pad(&mut self, n: usize, x: u128) {
                    let s = unsafe { self.v.storage_mut() };
                    for _ in 0..n {
                        s.push(x as _)
                    }
                }
            }
        };
    };
}

backend!(new_u8, vec_u8);
backend!(new_u16, vec_u16);
backend!(new_u32, vec_u32);
backend!(new_u64, vec_u64);
backend!(new_u128, vec_u128);
backend!(new_small, smallvec_u32);
