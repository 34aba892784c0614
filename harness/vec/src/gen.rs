//! Random histories, biased to block boundaries and to left-over bits.
use crate::exec::*;
use crate::exec::{HIGH, STEP};
use crate::slot::HUGE;
use std::collections::VecDeque;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, k: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ k.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

pub type Weights = &'static [(&'static str, u32)];

/// operations that make and unmake material for the others
const STIR: Weights = &[
    ("push", 4), ("pop", 3), ("set", 3), ("insert", 2), ("remove", 2), ("truncate", 4), ("clear", 1), ("resize", 5),
    ("from_elem", 5), ("from_slice", 2), ("collect", 1), ("extend", 4), ("clone", 2), ("append", 3), ("split_off", 3),
    ("retain", 2), ("for_each", 1), ("reserve", 2), ("shrink", 2), ("swap_remove", 2), ("with_capacity", 1),
];

const BLOCKSTIR: Weights = &[
    ("push", 4), ("pop", 3), ("get", 1), ("set", 3), ("insert", 2), ("remove", 2), ("truncate", 3), ("clear", 1), ("resize", 4),
    ("from_elem", 3), ("from_slice", 3), ("extend", 4), ("clone", 2), ("append", 3), ("split_off", 3), ("retain", 1), ("for_each", 1),
    ("reserve", 2), ("shrink", 2), ("swap_remove", 2), ("any", 1), ("all", 1), ("twin", 1), ("len", 1),
];

pub struct Profile {
    pub name: &'static str,
    pub focus: Weights,
    /// share of focus operations, percent
    pub share: usize,
    pub stir: Weights,
    /// how often a position argument is out of range, percent
    pub oob: usize,
    pub memory: bool,
    /// measures what is allocated
    pub heap: bool,
}

pub const PROFILES: &[Profile] = &[
    Profile {
        name: "edit",
        focus: &[
            ("push", 8), ("pop", 5), ("get", 1), ("set", 5), ("swap", 4), ("swap_remove", 5), ("insert", 14), ("remove", 14),
            ("truncate", 4), ("clear", 1), ("len", 1),
        ],
        share: 75,
        stir: STIR,
        oob: 0,
        memory: false,
        heap: false,
    },
    Profile {
        name: "bulk",
        focus: &[
            ("new", 1), ("default", 1), ("with_capacity", 1), ("from_elem", 6), ("macro_rep", 3), ("from_slice", 3), ("from_vec", 3), ("collect", 4),
            ("macro_list", 2), ("clone", 3), ("clone_from", 3), ("extend", 8), ("extend_iter", 3), ("extend_into", 3),
            ("resize", 10), ("append", 10), ("split_off", 10), ("retain", 8), ("for_each", 5), ("to_vec", 2), ("into_vec", 2), ("len", 1),
        ],
        share: 80,
        stir: STIR,
        oob: 0,
        memory: false,
        heap: false,
    },
    Profile { name: "query", focus: &[("any", 4), ("all", 4), ("nearly", 8), ("any_scan", 2), ("all_scan", 1)], share: 50, stir: STIR, oob: 0, memory: false, heap: false },
    Profile { name: "eq", focus: &[("eq", 3), ("dbg", 2), ("twin", 4)], share: 50, stir: STIR, oob: 0, memory: false, heap: false },
    Profile { name: "iterx", focus: &[("iter", 1)], share: 100, stir: STIR, oob: 0, memory: false, heap: false },
    Profile { name: "iter", focus: &[("iter", 1)], share: 65, stir: STIR, oob: 0, memory: false, heap: false },
    Profile {
        name: "oob",
        focus: &[
            ("get", 3), ("pop", 2), ("set", 4), ("insert", 4), ("remove", 4), ("swap", 5), ("swap_remove", 4), ("split_off", 4),
            ("truncate", 3), ("resize", 4),
        ],
        share: 65,
        stir: STIR,
        oob: 90,
        memory: false,
        heap: false,
    },
    Profile { name: "dens", focus: &[("shrink", 2), ("from_elem", 2), ("resize", 2), ("append", 1), ("reserve", 1), ("churn", 1), ("again", 2), ("extend_lie", 1), ("split_off", 1)], share: 50, stir: STIR, oob: 0, memory: true, heap: false },
    Profile {
        name: "cap",
        focus: &[
            ("reserve", 5), ("with_capacity", 4), ("shrink", 4), ("reserve_huge", 3), ("push", 3), ("fill", 4), ("split_off", 3), ("append", 3),
            ("clone", 2), ("use_all", 3), ("raw_push", 1), ("insert", 2), ("remove", 2), ("extend_into", 1),
        ],
        share: 60,
        stir: STIR,
        oob: 3,
        memory: true,
        heap: false,
    },
    Profile {
        name: "panic",
        focus: &[("retain_panic", 4), ("for_each_panic", 3), ("extend_panic", 4), ("extend_lie", 4), ("collect_panic", 1), ("collect_lie", 2)],
        share: 35,
        stir: STIR,
        oob: 0,
        memory: false,
        heap: false,
    },
    Profile {
        name: "indep",
        focus: &[
            ("clone", 5), ("clone_from", 2), ("append", 6), ("split_off", 6), ("extend_into", 2), ("extend_iter", 2), ("into_vec", 1),
            ("to_vec", 1), ("collect", 1),
        ],
        share: 45,
        stir: STIR,
        oob: 0,
        memory: false,
        heap: false,
    },
    Profile {
        name: "conv",
        focus: &[
            ("push", 6), ("pop", 3), ("get", 1), ("set", 3), ("swap", 1), ("swap_remove", 3), ("insert", 6), ("remove", 4), ("extend", 4),
            ("extend_iter", 2), ("extend_into", 1), ("resize", 5), ("retain", 4), ("for_each", 4), ("to_vec", 1), ("into_vec", 1), ("append", 2),
            ("split_off", 2), ("clone", 1), ("from_slice", 1), ("collect", 1), ("from_elem", 2), ("any", 1), ("all", 1), ("eq", 1), ("dbg", 1),
        ],
        share: 60,
        stir: STIR,
        oob: 0,
        memory: false,
        heap: false,
    },
    Profile {
        name: "heap",
        focus: &[
            ("new", 1), ("default", 1), ("with_capacity", 2), ("from_elem", 3), ("macro_rep", 2), ("from_vec", 2), ("collect", 3), ("clone", 4),
            ("clone_from", 4), ("extend_iter", 2), ("extend_into", 4), ("append", 6), ("split_off", 6), ("to_vec", 1), ("into_vec", 3),
            ("iter", 8), ("retain_panic", 3), ("for_each_panic", 2), ("extend_panic", 3), ("extend_lie", 2), ("collect_panic", 3), ("collect_lie", 1), ("reserve", 3), ("reserve_huge", 2),
            ("shrink", 4), ("clear", 2), ("again", 2), ("swap_remove", 1), ("remove", 1), ("insert", 1), ("dbg", 1), ("eq", 1), ("any", 1),
        ],
        share: 65,
        stir: STIR,
        oob: 12,
        memory: false,
        heap: true,
    },
    Profile { name: "raw", focus: &[("get_raw", 3), ("set_raw", 4), ("raw_push", 4), ("set_len", 3), ("get", 1)], share: 60, stir: STIR, oob: 0, memory: false, heap: false },
    Profile {
        name: "blocks",
        focus: &[("blk_copy", 6), ("blk_zero", 4), ("transplant", 3), ("pad", 3)],
        share: 45,
        stir: BLOCKSTIR,
        oob: 0,
        memory: false,
        heap: false,
    },
    Profile {
        name: "agree",
        focus: &[
            ("any", 2), ("all", 2), ("dbg", 2), ("eq", 2), ("twin", 2), ("iter", 2), ("insert", 4), ("remove", 4), ("swap", 2), ("swap_remove", 2),
            ("len", 1), ("to_vec", 1), ("get", 1), ("push", 2), ("macro_rep", 1), ("extend_iter", 1), ("hash", 2), ("for_each_panic", 1),
            ("extend_panic", 1), ("raw_push", 1), ("set_raw", 1),
        ],
        share: 55,
        stir: STIR,
        oob: 8,
        memory: false,
        heap: false,
    },
];

pub struct Gen<'a> {
    pub r: Rng,
    pub pr: &'a Profile,
    pub epb: usize,
    pub bits: usize,
    pub p: usize,
    pub maxlen: usize,
    /// vectors of many blocks
    pub big: bool,
    pub queue: VecDeque<Op>,
}

fn op(o: &'static str, v: usize, a: &[i64]) -> Op {
    Op { o, v, w: v, a: a.to_vec(), ..Default::default() }
}
fn opq(o: &'static str, v: usize, a: &[i64], q: Vec<i64>) -> Op {
    Op { o, v, w: v, a: a.to_vec(), q, ..Default::default() }
}

impl<'a> Gen<'a> {
    fn x(&mut self) -> i64 {
        self.r.below(self.p) as i64
    }
    /// a number of elements, often next to a block boundary
    fn amount(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let n = match self.r.below(if self.big { 14 } else { 10 }) {
            0 => self.r.below(3),
            10..=11 => (1usize << self.r.below(17)) * self.r.pick(&[1, 1, 1, 3]) + self.r.below(3) - 1,
            12..=13 => max - self.r.below(max.min(20)),
            1..=5 => {
                let k = self.r.below(max / self.epb + 2);
                (k * self.epb + self.r.below(3)).saturating_sub(1)
            }
            6 => 4 * self.epb + self.r.below(3),
            _ => self.r.below(max + 1),
        };
        if n > max {
            self.r.below(max + 1)
        } else {
            n
        }
    }
    /// a position below n
    fn pos(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let p = match self.r.below(if self.big { 13 } else { 10 }) {
            0 => 0,
            10..=11 => (1usize << self.r.below(17)) + self.r.below(3) - 1,
            12 => n - 1 - self.r.below(n.min(20)),
            1 => n - 1,
            2..=5 => {
                let k = self.r.below(n / self.epb + 2);
                (k * self.epb + self.r.below(3)).saturating_sub(1)
            }
            _ => self.r.below(n),
        };
        if p >= n {
            self.r.below(n)
        } else {
            p
        }
    }
    /// a position out of range for n elements
    fn far(&mut self, n: usize) -> i64 {
        match self.r.below(10) {
            0..=2 => n as i64,
            8 if n > 0 => self.wrapped(n),
            9 if n > 0 => {
                let p = self.pos(n) + (1 << self.r.pick(&[8, 8, 16, 16, 17, 20]));
                (if p < n { n } else { p }) as i64
            }
            3 => n as i64 + 1,
            4 => (n + self.r.below(self.epb + 1)) as i64,
            5 => (n + self.epb * (1 + self.r.below(3))) as i64,
            _ => HUGE + self.r.below(6) as i64,
        }
    }
    /// a position below n but for its high bits
    fn wrapped(&mut self, n: usize) -> i64 {
        HUGE + STEP * (1 + self.r.below(HIGH.len()) as i64) + self.pos(n) as i64
    }
    /// another position, often so that the two differ in one bit
    fn mate(&mut self, i: usize, n: usize) -> usize {
        let j = i ^ (1 << self.r.below(17));
        match self.r.below(10) {
            0 => i,
            1..=4 if j < n => j,
            5 => (i + self.epb) % n,
            _ => self.pos(n),
        }
    }
    pub fn seq(&mut self, n: usize) -> Vec<i64> {
        let x = self.x();
        let y = self.x();
        match self.r.below(5) {
            0 => vec![x; n],
            1 => {
                let mut v = vec![x; n];
                if n > 0 {
                    let k = self.pos(n);
                    v[k] = y;
                }
                v
            }
            2 => (0..n).map(|_| if self.r.chance(85) { x } else { self.r.below(self.p) as i64 }).collect(),
            _ => (0..n).map(|_| self.x()).collect(),
        }
    }
    fn subset(&mut self) -> Vec<i64> {
        let p = self.p;
        let mut v: Vec<i64> = (0..p as i64).filter(|_| self.r.chance(55)).collect();
        if self.r.chance(8) {
            v = (0..p as i64).collect();
        }
        if self.r.chance(4) {
            v.clear();
        }
        v
    }
    fn choose(&mut self, w: Weights) -> &'static str {
        let t: u32 = w.iter().map(|x| x.1).sum();
        let mut k = self.r.below(t as usize) as u32;
        for &(o, n) in w {
            if k < n {
                return o;
            }
            k -= n;
        }
        unreachable!()
    }
    fn script(&mut self, n: usize) -> Vec<(i64, i64)> {
        let mut q = Vec::new();
        let k = self.r.below(14);
        let mut left = n;
        for _ in 0..k {
            let c = self.r.pick(&[0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 12, 16]);
            if c == 16 {
                // looks for a value
                let c = 16 + self.r.pick(&[0, 0, 1, 1, 3, 4, 5, 6]);
                q.push((c, self.x()));
                continue;
            }
            let arg = match self.r.below(8) {
                0..=2 => self.r.below(3),
                3 => left,
                4 => left.saturating_sub(1),
                5 => left + 1,
                6 => self.r.below(left + 1),
                _ => {
                    let far = if n > 0 && self.r.chance(50) { self.wrapped(n) } else { HUGE };
                    q.push((if self.r.chance(50) { 4 } else { c }, if c == 12 { 3 } else { far }));
                    if c == 2 || c == 3 {
                        left = 0
                    }
                    continue;
                }
            };
            match c {
                0 | 1 => left = left.saturating_sub(1),
                2 | 3 => left = left.saturating_sub(arg + 1),
                12 => left = left.saturating_sub(arg),
                _ => {}
            }
            q.push((c, arg as i64));
        }
        if self.r.chance(70) {
            let c = self.r.pick(&[6, 7, 8, 9, 10, 11, 13, 15, 18]);
            let arg = if c == 11 { self.r.below(left / 2 + 2) } else { self.r.below(left + 3) };
            q.push((c, arg as i64));
        } else {
            q.push((4, 0));
            q.push((0, 0));
            q.push((1, 0));
            q.push((5, 0));
        }
        q
    }
    /// the ways to give slot w the contents q
    fn rebuild(&mut self, w: usize, q: Vec<i64>) {
        let n = q.len();
        let x = self.x();
        let junk = self.amount(self.maxlen);
        match self.r.below(if n > 1000 { 8 } else { 9 }) {
            0 => self.queue.push_back(opq("from_slice", w, &[], q)),
            1 => self.queue.push_back(opq("collect", w, &[1], q)),
            2 => {
                self.queue.push_back(op("from_elem", w, &[x, junk as i64]));
                self.queue.push_back(op("clear", w, &[]));
                self.queue.push_back(opq("extend", w, &[0], q));
            }
            3 => {
                let mut t = q.clone();
                t.extend(vec![x; 1 + self.r.below(2 * self.epb + 2)]);
                self.queue.push_back(opq("from_vec", w, &[], t));
                self.queue.push_back(op("truncate", w, &[n as i64]));
            }
            4 => {
                self.queue.push_back(op("with_capacity", w, &[junk as i64]));
                self.queue.push_back(opq("extend", w, &[2], q));
                self.queue.push_back(op("reserve", w, &[junk as i64]));
            }
            5 => {
                self.queue.push_back(op("from_elem", w, &[x, junk as i64]));
                self.queue.push_back(op("truncate", w, &[0]));
                for &y in &q[..n.min(40)] {
                    self.queue.push_back(op("push", w, &[y]));
                }
                if n > 40 {
                    self.queue.push_back(opq("extend", w, &[0], q[40..].to_vec()));
                }
            }
            6 => {
                let k = n.min(30);
                self.queue.push_back(opq("from_slice", w, &[], q[k..].to_vec()));
                for &y in q[..k].iter().rev() {
                    self.queue.push_back(op("insert", w, &[0, y]));
                }
            }
            7 => {
                self.queue.push_back(op("from_elem", w, &[x, junk as i64]));
                let mut o = op("retain", w, &[]);
                o.q = vec![];
                self.queue.push_back(o);
                self.queue.push_back(opq("extend", w, &[3], q));
                self.queue.push_back(op("shrink", w, &[]));
            }
            _ => {
                // all of one value, then set one by one where different
                let base = if n > 0 { q[n / 2] } else { x };
                self.queue.push_back(op("from_elem", w, &[base, (n + self.r.below(self.epb + 1)) as i64]));
                for (k, &y) in q.iter().enumerate() {
                    if y != base {
                        self.queue.push_back(op("set", w, &[k as i64, y]));
                    }
                }
                self.queue.push_back(op("truncate", w, &[n as i64]));
            }
        }
    }

    /// Histories id = 0, 1, ... go through all scripts of three calls on vectors of up to five elements, both kinds
    /// of iterators; every call is followed by len and size_hint
    pub fn scripts(&mut self, id: u64, per: u64) {
        let mut k = id * per;
        let n = (k / per % 6) as usize;
        let q = self.seq(n);
        self.queue.push_back(opq("from_slice", 0, &[], q));
        let mut calls: Vec<(i64, i64)> = vec![(0, 0), (1, 0), (2, HUGE), (3, HUGE), (12, 2)];
        for a in [0, 1, 2, 4, 5] {
            calls.push((2, a));
            calls.push((3, a));
        }
        let ends = [(8, 0), (9, 0), (6, 0), (7, 0), (10, 1), (10, 2), (11, 1), (13, 0), (15, 0), (0, 0), (1, 0), (16, 1), (17, 1), (18, 0), (21, 1), (22, 0)];
        k = id / 6 * per;
        for _ in 0..per {
            let mut it = Vec::new();
            let mut x = k;
            k += 1;
            let mut o = op("iter", 0, &[(x % 3) as i64]);
            x /= 3;
            for _ in 0..3 {
                let c = calls[(x % calls.len() as u64) as usize];
                x /= calls.len() as u64;
                it.extend([c, (5, 0), (4, 0)]);
            }
            it.push(ends[self.r.below(ends.len())]);
            o.it = it;
            self.queue.push_back(o);
        }
    }

    /// constructs the first vectors of a trace
    pub fn setup(&mut self) {
        let k = 1 + self.r.below(3);
        for v in 0..k {
            let n = if self.big && v == 0 { self.maxlen - self.r.below(self.maxlen / 8) } else { self.amount(self.maxlen) };
            let x = self.x();
            let q = self.seq(n);
            match self.r.below(8) {
                0..=1 => self.queue.push_back(op("from_elem", v, &[x, n as i64])),
                2 => self.queue.push_back(opq("from_slice", v, &[], q)),
                3 => self.queue.push_back(opq("collect", v, &[2], q)),
                4 => self.queue.push_back(opq("from_vec", v, &[], q)),
                5 => {
                    self.queue.push_back(op("with_capacity", v, &[n as i64]));
                    self.queue.push_back(opq("extend", v, &[0], q))
                }
                6 => self.rebuild(v, q),
                _ => {}
            }
            if self.r.chance(if self.big { 10 } else { 30 }) {
                let m = self.amount(n);
                self.queue.push_back(op("truncate", v, &[m as i64]));
            }
        }
    }

    pub fn next(&mut self, c: &[Vec<i64>], cap: &dyn Fn(usize) -> usize) -> Op {
        loop {
            if let Some(o) = self.queue.pop_front() {
                return o;
            }
            if let Some(o) = self.draw(c, cap) {
                return o;
            }
        }
    }

    fn draw(&mut self, c: &[Vec<i64>], cap: &dyn Fn(usize) -> usize) -> Option<Op> {
        let focus = self.r.chance(self.pr.share);
        let o = self.choose(if focus { self.pr.focus } else { self.pr.stir });
        let v = self.r.pick(&[0, 0, 0, 0, 1, 1, 2, 3]);
        let mut w = self.r.below(NSLOTS);
        while w == v {
            w = self.r.below(NSLOTS);
        }
        let n = c[v].len();
        let out = self.r.chance(self.pr.oob);
        let room = self.maxlen.saturating_sub(n);
        let x = self.x();
        Some(match o {
            "push" => {
                if room == 0 {
                    return None;
                }
                op(o, v, &[x])
            }
            "pop" => {
                if n == 0 && !out {
                    return None;
                }
                if out && n > 0 {
                    self.queue.push_back(op("clear", v, &[]));
                }
                self.queue.push_back(op(o, v, &[]));
                return None;
            }
            "get" | "remove" | "swap_remove" | "get_raw" => {
                if out {
                    op(o, v, &[self.far(n)])
                } else if n == 0 {
                    return None;
                } else {
                    op(o, v, &[self.pos(n) as i64])
                }
            }
            "set" | "set_raw" => {
                if out && o == "set" {
                    op(o, v, &[self.far(n), x])
                } else if n == 0 {
                    return None;
                } else {
                    op(o, v, &[self.pos(n) as i64, x])
                }
            }
            "insert" => {
                if out {
                    let mut i = self.far(n);
                    if i == n as i64 {
                        i += 1
                    }
                    op(o, v, &[i, x])
                } else if room == 0 {
                    return None;
                } else {
                    op(o, v, &[self.pos(n + 1) as i64, x])
                }
            }
            "swap" => {
                if out {
                    let f = self.far(n);
                    let g = if n > 0 && self.r.chance(70) { self.pos(n) as i64 } else { self.far(n) };
                    if self.r.chance(50) {
                        op(o, v, &[f, g])
                    } else {
                        op(o, v, &[g, f])
                    }
                } else if n == 0 {
                    return None;
                } else {
                    for _ in 0..if self.big { 6 } else { 1 } {
                        let i = self.pos(n);
                        let j = self.mate(i, n);
                        self.queue.push_back(op(o, v, &[i as i64, j as i64]));
                    }
                    return None;
                }
            }
            "truncate" => {
                if out || self.r.chance(5) {
                    op(o, v, &[self.far(n)])
                } else {
                    op(o, v, &[self.amount(n) as i64])
                }
            }
            "set_len" => op(o, v, &[self.amount(n) as i64]),
            "clear" | "len" | "new" | "default" | "shrink" | "to_vec" | "into_vec" => op(o, v, &[]),
            "with_capacity" => {
                let k = self.amount(self.maxlen);
                op(o, v, &[k as i64])
            }
            "reserve" => {
                let k = self.amount(self.maxlen + self.epb);
                op(o, v, &[k as i64])
            }
            "reserve_huge" => {
                if n == 0 {
                    return None;
                }
                let k = if self.bits >= 8 { self.r.below(4) } else { self.r.below(2) };
                op(o, v, &[k as i64])
            }
            // push until the capacity is reached
            "fill" => {
                let k = cap(v).saturating_sub(n).min(room + self.epb).min(3 * self.epb.min(20)) + 1;
                for _ in 0..k {
                    let x = self.x();
                    self.queue.push_back(op("push", v, &[x]));
                }
                return None;
            }
            // touch every vector
            "use_all" => {
                for s in 0..NSLOTS {
                    let m = c[s].len();
                    let x = self.x();
                    self.queue.push_back(op("push", s, &[x]));
                    let k = self.pos(m + 1) as i64;
                    self.queue.push_back(op("insert", s, &[k, x]));
                    let k = self.pos(m + 2) as i64;
                    self.queue.push_back(op("remove", s, &[k]));
                    self.queue.push_back(op("pop", s, &[]));
                }
                return None;
            }
            // grow and shrink again and again
            "churn" => {
                let a = self.amount(self.maxlen) as i64;
                let b = self.amount(self.maxlen) as i64;
                for _ in 0..6 {
                    self.queue.push_back(op("resize", v, &[a, x]));
                    self.queue.push_back(op("resize", v, &[b, x]));
                }
                return None;
            }
            "again" => {
                let k = self.r.below(10) as i64;
                if n > 2000 && k >= 6 {
                    return None;
                }
                op(o, v, &[k, 60 + self.r.below(240) as i64, x])
            }
            "from_elem" | "macro_rep" => {
                let k = self.amount(self.maxlen);
                op(o, v, &[x, k as i64])
            }
            "from_slice" | "from_vec" => {
                let k = self.amount(self.maxlen);
                let q = self.seq(k);
                opq(o, v, &[], q)
            }
            "macro_list" => {
                let k = self.r.below(6);
                let q = self.seq(k);
                opq(o, v, &[], q)
            }
            "collect" => {
                let k = self.amount(self.maxlen);
                let q = self.seq(k);
                let kind = self.r.below(6) as i64;
                opq(o, v, &[kind], q)
            }
            "extend" => {
                let k = self.amount(room);
                let q = self.seq(k);
                let kind = self.r.below(7) as i64;
                opq(o, v, &[kind], q)
            }
            "clone" | "clone_from" => Op { w, ..op(o, v, &[]) },
            "extend_iter" | "extend_into" | "append" => {
                if n + c[w].len() > self.maxlen + 2 * self.epb {
                    return None;
                }
                if o == "append" && self.r.chance(30) && n % self.epb != 0 {
                    // make the receiver end on a block boundary
                    self.queue.push_back(op("truncate", v, &[(n / self.epb * self.epb) as i64]));
                    self.queue.push_back(Op { w, ..op(o, v, &[]) });
                    return None;
                }
                Op { w, ..op(o, v, &[]) }
            }
            "resize" => {
                let k = if !out {
                    self.amount(self.maxlen)
                } else if self.r.chance(25) {
                    n
                } else {
                    n + self.amount(self.maxlen.saturating_sub(n))
                };
                op(o, v, &[k as i64, x])
            }
            "split_off" => {
                let i = if out {
                    let mut i = self.far(n);
                    if i == n as i64 {
                        i += 1
                    }
                    i
                } else {
                    self.pos(n + 1) as i64
                };
                Op { w, ..op(o, v, &[i]) }
            }
            "retain" => opq(o, v, &[], self.subset()),
            "for_each" => {
                let k = self.r.below(self.p) as i64;
                op(o, v, &[k])
            }
            "retain_panic" => {
                let k = if n == 0 { 0 } else { self.pos(n) };
                opq(o, v, &[k as i64], self.subset())
            }
            "for_each_panic" => {
                let k = if n == 0 { 0 } else { self.pos(n) };
                let rot = self.r.below(self.p) as i64;
                op(o, v, &[k as i64, rot])
            }
            "extend_panic" | "extend_lie" | "collect_panic" | "collect_lie" => {
                let k = self.amount(if o.starts_with('c') { self.maxlen } else { room });
                let q = self.seq(k);
                let lo = match self.r.below(6) {
                    0 => 0,
                    1 => k + 1 + self.r.below(2 * self.epb + 3),
                    2 => k + 1,
                    3 => k.saturating_sub(1),
                    4 => k + self.r.below(4 * self.epb + 200),
                    _ => self.r.below(k + 1),
                };
                let up = match self.r.below(4) {
                    0 => -1,
                    1 => lo as i64,
                    2 => self.r.below(k + 2) as i64,
                    _ => (lo + self.r.below(5)) as i64,
                };
                opq(o, v, &[lo as i64, up], q)
            }
            "raw_push" => {
                let k = self.amount(room);
                let q = self.seq(k);
                opq(o, v, &[], q)
            }
            "blk_copy" => {
                // all elements of the block that is written must come from elements
                let w = if self.r.chance(30) { v } else { w };
                let m = c[w].len();
                if n == 0 || m == 0 {
                    return None;
                }
                let k = self.pos(n) / self.epb;
                let need = (n - k * self.epb).min(self.epb);
                if m < need {
                    return None;
                }
                let j = self.r.below((m - need) / self.epb + 1);
                Op { w, ..op(o, v, &[k as i64, j as i64]) }
            }
            "blk_zero" => {
                if n == 0 {
                    return None;
                }
                op(o, v, &[(self.pos(n) / self.epb) as i64])
            }
            "transplant" => Op { w, ..op(o, v, &[]) },
            "pad" => {
                let k = self.r.below(4) as i64;
                let j = if n == 0 || self.r.chance(30) { -1 } else { (self.pos(n) / self.epb) as i64 };
                op(o, v, &[k, j])
            }
            "any_scan" | "all_scan" => op(o, v, &[]),
            "any" | "all" => {
                let q = (0..self.p as i64).collect();
                opq(o, v, &[], q)
            }
            // contents of one value except perhaps for one element, then ask
            "nearly" => {
                let k = self.amount(self.maxlen);
                let y = self.x();
                match self.r.below(4) {
                    0 => {
                        self.queue.push_back(op("from_elem", v, &[x, k as i64]));
                    }
                    1 => {
                        self.queue.push_back(op("from_elem", v, &[y, (k + self.r.below(2 * self.epb + 1)) as i64]));
                        self.queue.push_back(op("truncate", v, &[0]));
                        self.queue.push_back(opq("extend", v, &[0], vec![x; k]));
                    }
                    2 => {
                        self.queue.push_back(op("from_elem", v, &[x, k as i64]));
                        self.queue.push_back(opq("extend", v, &[0], vec![y; self.epb / 2 + 1]));
                        self.queue.push_back(op("truncate", v, &[k as i64]));
                    }
                    _ => {
                        self.queue.push_back(op("from_elem", v, &[x, k as i64 + 1]));
                        self.queue.push_back(op("pop", v, &[]));
                    }
                }
                if k > 0 && self.r.chance(60) {
                    let i = self.pos(k) as i64;
                    self.queue.push_back(op("set", v, &[i, y]));
                }
                let q: Vec<i64> = (0..self.p as i64).collect();
                self.queue.push_back(opq("any", v, &[], q.clone()));
                self.queue.push_back(opq("all", v, &[], q));
                return None;
            }
            "eq" => Op { w: if self.r.chance(10) { v } else { w }, ..op(o, v, &[]) },
            "hash" => op("hash", v, &[]),
            "dbg" => {
                let alt = (n < 40 && self.r.chance(40)) as i64;
                op(o, v, &[alt])
            }
            // the same contents by another route, perhaps with a difference
            "twin" => {
                let mut q = c[v].clone();
                if q.iter().any(|&y| y < 0 || y >= self.p as i64) {
                    return None;
                }
                match self.r.below(6) {
                    0 => q.push(x),
                    1 => {
                        q.pop();
                    }
                    2 if n > 0 => {
                        let i = self.pos(n);
                        q[i] = x
                    }
                    _ => {}
                }
                self.rebuild(w, q);
                self.queue.push_back(Op { w, ..op("eq", v, &[]) });
                if self.r.chance(30) {
                    self.queue.push_back(op("dbg", w, &[0]));
                }
                return None;
            }
            "iter" => {
                let mut o = op(o, v, &[self.r.below(3) as i64]);
                o.it = self.script(n);
                o
            }
            o => panic!("no generator for {}", o),
        })
    }
}
