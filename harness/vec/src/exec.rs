//! Operations, their execution on real vectors, and the events they log.
use crate::slot::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub o: &'static str,
    pub v: usize,
    pub w: usize,
    pub a: Vec<i64>,
    pub q: Vec<i64>,
    pub it: Vec<(i64, i64)>,
    /// how many conversions of the element type succeed, and whether there were more
    pub f: Option<(i64, bool)>,
}

pub const STEP: i64 = 1_000_000;
pub const HIGH: [u32; 5] = [32, 33, 48, 62, 63];
pub fn us(x: i64) -> usize {
    if x >= HUGE {
        // several ways to be absurdly large
        if x - HUGE >= STEP {
            // a small number that lost high bits would be
            return (1usize << HIGH[((x - HUGE) / STEP - 1) as usize]) + ((x - HUGE) % STEP) as usize;
        }
        match x - HUGE {
            0 => usize::MAX,
            1 => usize::MAX - 1,
            2 => 1 << 63,
            3 => (1 << 63) - 1,
            4 => usize::MAX / 2 + 100,
            _ => 1 << 40,
        }
    } else {
        x as usize
    }
}

pub fn js_list(q: &[i64]) -> String {
    let mut s = String::with_capacity(q.len() * 2 + 2);
    s.push('[');
    for (k, x) in q.iter().enumerate() {
        if k > 0 {
            s.push(',')
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn js_str(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            c if (c as u32) < 32 => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

impl Op {
    pub fn q_json(&self) -> String {
        if self.o == "iter" {
            let v: Vec<String> = self.it.iter().map(|&(c, n)| format!("[{},{}]", c, n)).collect();
            format!("[{}]", v.join(","))
        } else {
            js_list(&self.q)
        }
    }
    pub fn json_args(&self) -> String {
        let f = self.f.map_or(String::new(), |(k, y)| format!(",\"f\":[{},{}]", k, y as u8));
        format!("\"o\":\"{}\",\"v\":{},\"w\":{},\"a\":{},\"q\":{}{}", self.o, self.v, self.w, js_list(&self.a), self.q_json(), f)
    }
}

pub const NSLOTS: usize = 4;
/// longest vector that is still observed in full
pub const MAXLEN: usize = 150_000;

pub struct Env {
    pub s: Vec<Box<dyn Slot>>,
    /// contents as last observed
    pub c: Vec<Vec<i64>>,
    /// contents as observed before that
    pub old: Vec<Vec<i64>>,
}

/// runs of equal values
fn runs(q: &[i64]) -> Vec<(i64, usize)> {
    let mut out: Vec<(i64, usize)> = Vec::new();
    for &x in q {
        match out.last_mut() {
            Some((y, n)) if *y == x => *n += 1,
            _ => out.push((x, 1)),
        }
    }
    out
}

pub struct Done {
    pub r: String,
    pub t: String,
    pub b: (i64, i64),
    /// a conversion panicked
    pub f: bool,
}

fn cut(x: usize) -> i64 {
    if x >= HUGE as usize {
        HUGE
    } else {
        x as i64
    }
}

impl Env {
    pub fn new(proto: &dyn Slot) -> Env {
        Env { s: (0..NSLOTS).map(|_| proto.fresh()).collect(), c: vec![Vec::new(); NSLOTS], old: vec![Vec::new(); NSLOTS] }
    }

    /// Contents as the public interface shows them
    pub fn observe(&self, i: usize) -> Vec<i64> {
        let n = self.s[i].len();
        let cap = n.min(MAXLEN);
        let mut v = Vec::with_capacity(cap + 1);
        for k in 0..cap {
            let x = catch_unwind(AssertUnwindSafe(|| self.s[i].get(k)));
            v.push(match x {
                Ok(Some(x)) => x,
                Ok(None) => 900_002,
                Err(_) => 900_003,
            });
        }
        if cap < n {
            v.push(900_004);
        }
        v
    }

    /// Re-reads all slots; returns those that changed
    pub fn refresh(&mut self) -> Vec<usize> {
        let mut ch = Vec::new();
        for i in 0..NSLOTS {
            let c = self.observe(i);
            if c != self.c[i] {
                self.old[i] = std::mem::replace(&mut self.c[i], c);
                ch.push(i);
            }
        }
        ch
    }

    /// How the contents of slot i changed: [i, contents], or for long vectors
    /// [i, kept at the front, kept at the end, runs of what is between]
    pub fn change(&self, i: usize) -> String {
        let (a, b) = (&self.old[i], &self.c[i]);
        if b.len() <= 300 {
            return format!("[{},{}]", i, js_list(b));
        }
        let front = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        let room = a.len().min(b.len()) - front;
        let back = a.iter().rev().zip(b.iter().rev()).take(room).take_while(|(x, y)| x == y).count();
        let mid: Vec<String> = runs(&b[front..b.len() - back]).into_iter().map(|(x, n)| format!("[{},{}]", x, n)).collect();
        format!("[{},{},{},[{}]]", i, front, back, mid.join(","))
    }

    pub fn memory(&self) -> Vec<[i64; 4]> {
        (0..NSLOTS)
            .map(|i| [i as i64, cut(self.s[i].len()), cut(self.s[i].storage_len()), cut(self.s[i].capacity())])
            .collect()
    }

    fn take(&mut self, i: usize) -> Box<dyn Slot> {
        let f = self.s[i].fresh();
        std::mem::replace(&mut self.s[i], f)
    }

    pub fn exec(&mut self, op: &Op) -> Done {
        let b = (cut(self.s[op.v].len()), cut(self.s[op.v].capacity()));
        let mut t = String::new();
        if let Some((k, _)) = op.f {
            crate::el::arm(k)
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.run(op, &mut t)));
        let f = crate::el::disarm();
        let r = match r {
            Ok(r) => r,
            Err(_) => "[\"p\"]".to_string(),
        };
        Done { r, t, b, f }
    }

    fn run(&mut self, op: &Op, text: &mut String) -> String {
        let (v, w) = (op.v, op.w);
        let a = |k: usize| op.a[k];
        let n = |k: usize| us(op.a[k]);
        let u = || "[\"u\"]".to_string();
        let opt = |x: Option<i64>| match x {
            None => "[\"n\"]".to_string(),
            Some(x) => format!("[\"s\",{}]", x),
        };
        let val = |x: i64| format!("[\"v\",{}]", x);
        let seq = |tag: &str, q: &[i64]| format!("[\"{}\",{}]", tag, js_list(q));
        match op.o {
            "push" => self.s[v].push(a(0)),
            "pop" => return opt(self.s[v].pop()),
            "get" => return opt(self.s[v].get(n(0))),
            "set" => self.s[v].set(n(0), a(1)),
            "insert" => self.s[v].insert(n(0), a(1)),
            "remove" => return val(self.s[v].remove(n(0))),
            "swap" => self.s[v].swap(n(0), n(1)),
            "swap_remove" => return val(self.s[v].swap_remove(n(0))),
            "truncate" => self.s[v].truncate(n(0)),
            "clear" => self.s[v].clear(),
            "len" => return format!("[\"l\",{},{}]", cut(self.s[v].len()), self.s[v].is_empty() as i32),
            "new" => self.s[v] = self.s[v].fresh(),
            "default" => self.s[v] = self.s[v].default_box(),
            "with_capacity" => self.s[v] = self.s[v].with_capacity(n(0)),
            "from_elem" => self.s[v] = self.s[v].from_elem(a(0), n(1)),
            "macro_rep" => self.s[v] = self.s[v].macro_rep(a(0), n(1)),
            "from_slice" => self.s[v] = self.s[v].from_slice(&op.q),
            "from_vec" => self.s[v] = self.s[v].from_vec(&op.q),
            "macro_list" => self.s[v] = self.s[v].macro_list(&op.q),
            "collect" => self.s[v] = self.s[v].collect(&op.q, a(0)),
            "clone" => self.s[w] = self.s[v].clone_box(),
            "clone_from" => {
                let mut t = self.take(w);
                let r = catch_unwind(AssertUnwindSafe(|| t.clone_from_slot(&*self.s[v])));
                self.s[w] = t;
                if let Err(e) = r {
                    std::panic::resume_unwind(e)
                }
            }
            "extend" => self.s[v].extend(&op.q, a(0)),
            "extend_iter" => {
                let t = self.take(w);
                let r = catch_unwind(AssertUnwindSafe(|| self.s[v].extend_iter(&*t)));
                self.s[w] = t;
                if let Err(e) = r {
                    std::panic::resume_unwind(e)
                }
            }
            "extend_into" => {
                let t = self.take(w);
                self.s[v].extend_into(t)
            }
            "resize" => self.s[v].resize(n(0), a(1)),
            "append" => {
                let mut t = self.take(w);
                let r = catch_unwind(AssertUnwindSafe(|| self.s[v].append(&mut *t)));
                self.s[w] = t;
                if let Err(e) = r {
                    std::panic::resume_unwind(e)
                }
            }
            "split_off" => {
                let t = self.s[v].split_off(n(0));
                self.s[w] = t;
            }
            "retain" => {
                let mut seen = Vec::new();
                self.s[v].retain(&op.q, usize::MAX, &mut seen);
                return seq("c", &seen);
            }
            "for_each" => {
                let mut seen = Vec::new();
                self.s[v].for_each(a(0), usize::MAX, &mut seen);
                return seq("c", &seen);
            }
            "retain_panic" => self.s[v].retain(&op.q, n(0), &mut Vec::new()),
            "for_each_panic" => self.s[v].for_each(a(1), n(0), &mut Vec::new()),
            "extend_panic" => {
                // a[0] = claimed lower bound, a[1] = claimed upper bound or -1
                let up = if a(1) < 0 { None } else { Some(n(1)) };
                self.s[v].extend_odd(&op.q, (n(0), up), true)
            }
            "extend_lie" => {
                let up = if a(1) < 0 { None } else { Some(n(1)) };
                self.s[v].extend_odd(&op.q, (n(0), up), false)
            }
            "collect_panic" | "collect_lie" => {
                let up = if a(1) < 0 { None } else { Some(n(1)) };
                self.s[v] = self.s[v].collect_odd(&op.q, (n(0), up), op.o == "collect_panic")
            }
            "to_vec" => return seq("q", &self.s[v].to_vec()),
            "into_vec" => {
                let t = self.take(v);
                return seq("q", &t.into_vec());
            }
            "reserve" => self.s[v].reserve(n(0)),
            "reserve_huge" => {
                let l = self.s[v].len();
                self.s[v].reserve(match a(0) {
                    0 => usize::MAX,
                    1 => usize::MAX - l + 1,
                    2 => usize::MAX - l,
                    _ => usize::MAX / 2 + 1,
                })
            }
            "shrink" => self.s[v].shrink(),
            // the same small operation many times; leaves the contents as they were
            "again" => {
                for _ in 0..n(1) {
                    let l = self.s[v].len();
                    match a(0) {
                        0 => self.s[v].reserve(0),
                        1 => self.s[v].extend(&[], 0),
                        2 => {
                            self.s[v].push(a(2));
                            self.s[v].pop();
                        }
                        3 => {
                            let mut t = self.s[v].fresh();
                            self.s[v].append(&mut *t)
                        }
                        4 => self.s[v].resize(l, a(2)),
                        5 => {
                            self.s[v].extend(&[a(2)], 0);
                            self.s[v].truncate(l)
                        }
                        6 => {
                            self.s[v].insert(l / 2, a(2));
                            self.s[v].remove(l / 2);
                        }
                        7 => {
                            self.s[v].resize(l + 3, a(2));
                            self.s[v].resize(l, a(2))
                        }
                        8 => {
                            let mut t = self.s[v].split_off(l);
                            self.s[v].append(&mut *t)
                        }
                        _ => {
                            let t = self.s[v].clone_box();
                            self.s[v] = t
                        }
                    }
                }
            }
            "get_raw" => return val(self.s[v].raw_get(n(0))),
            "set_raw" => self.s[v].raw_set(n(0), a(1)),
            "raw_push" => self.s[v].raw_push(&op.q),
            "set_len" => self.s[v].set_len(n(0)),
            // v.storage_mut()[a] = w.storage()[b]
            "blk_copy" => {
                let x = self.s[w].blk_get(n(1));
                self.s[v].blk_set(n(0), x)
            }
            "blk_zero" => self.s[v].blk_set(n(0), 0),
            "transplant" => self.s[w] = self.s[v].transplant(),
            // more blocks: zero, or copies of one that is there
            "pad" => {
                let x = if a(1) < 0 { 0 } else { self.s[v].blk_get(n(1)) };
                self.s[v].pad(n(0), x)
            }
            "any" => {
                let q: Vec<i64> = op.q.iter().map(|&x| self.s[v].q_any(x) as i64).collect();
                return seq("q", &q);
            }
            "all" => {
                let q: Vec<i64> = op.q.iter().map(|&x| self.s[v].q_all(x) as i64).collect();
                return seq("q", &q);
            }
            "any_scan" | "all_scan" => {
                let (yes, asked) = self.s[v].q_scan(op.o == "all_scan");
                return format!("[\"q\",[{},{}]]", yes, asked);
            }
            "eq" => {
                let (x, y) = (&*self.s[v], &*self.s[w]);
                return format!(
                    "[\"e\",{},{},{},{}]",
                    x.eq(y) as i32,
                    y.eq(x) as i32,
                    x.ne(y) as i32,
                    (x.hash() == y.hash()) as i32
                );
            }
            "hash" => {
                let h: Vec<i64> = self.s[v].hash().iter().map(|&b| b as i64).collect();
                return seq("q", &h);
            }
            "dbg" => *text = self.s[v].debug(a(0) == 1),
            "iter" => {
                let res = self.s[v].iter_script(a(0), &op.it);
                let v: Vec<String> = res
                    .into_iter()
                    .map(|x| match x {
                        IR::None => "[\"n\"]".to_string(),
                        IR::Some(x) => format!("[\"s\",{}]", x),
                        IR::Seq(q) => seq("q", &q),
                        IR::Num(x) => format!("[\"l\",{}]", x),
                        IR::Hint(a, b) => format!("[\"h\",{},{}]", a, b),
                    })
                    .collect();
                return format!("[\"i\",[{}]]", v.join(","));
            }
            o => {
                eprintln!("unknown operation {}", o);
                std::process::exit(3)
            }
        }
        u()
    }
}
