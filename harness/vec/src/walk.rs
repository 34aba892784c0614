//! Takes every transition of a graph that TLC wrote for VecImpl on a real vector.
//!
//! A transition whose outcome is not the one of the graph becomes a recorded history (as do some of the others);
//! VecTrace decides about recorded histories.
use crate::exec::*;
use crate::gen::Rng;

use crate::{arg, event_json, header, Ty};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Seek, Write};

/// JSON, as far as it occurs
#[derive(Clone, Debug)]
enum J {
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    fn parse(b: &[u8], i: &mut usize) -> J {
        let ws = |i: &mut usize| {
            while b[*i] == b' ' {
                *i += 1
            }
        };
        ws(i);
        match b[*i] {
            b'[' => {
                *i += 1;
                let mut v = Vec::new();
                loop {
                    ws(i);
                    if b[*i] == b']' {
                        *i += 1;
                        return J::A(v);
                    }
                    if b[*i] == b',' {
                        *i += 1
                    }
                    ws(i);
                    if b[*i] == b']' {
                        continue;
                    }
                    v.push(J::parse(b, i));
                }
            }
            b'{' => {
                *i += 1;
                let mut v = Vec::new();
                loop {
                    ws(i);
                    match b[*i] {
                        b'}' => {
                            *i += 1;
                            return J::O(v);
                        }
                        b',' => *i += 1,
                        _ => {
                            let k = match J::parse(b, i) {
                                J::S(k) => k,
                                _ => panic!("key"),
                            };
                            ws(i);
                            assert!(b[*i] == b':');
                            *i += 1;
                            v.push((k, J::parse(b, i)));
                        }
                    }
                }
            }
            b'"' => {
                let s = *i + 1;
                *i = s;
                while b[*i] != b'"' {
                    *i += 1
                }
                *i += 1;
                J::S(String::from_utf8_lossy(&b[s..*i - 1]).into_owned())
            }
            _ => {
                let s = *i;
                while b[*i] == b'-' || b[*i].is_ascii_digit() {
                    *i += 1
                }
                assert!(s < *i, "JSON at {}", s);
                J::N(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
            }
        }
    }
    fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => &v.iter().find(|x| x.0 == k).unwrap().1,
            _ => panic!("not an object"),
        }
    }
    fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("not an array"),
        }
    }
    fn num(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("not a number"),
        }
    }
    fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string"),
        }
    }
    fn nums(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.num()).collect()
    }
    fn text(&self) -> String {
        match self {
            J::N(n) => n.to_string(),
            J::S(s) => js_str(s),
            J::A(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            J::O(_) => panic!("object"),
        }
    }
}

struct Tr {
    o: &'static str,
    a: Vec<i64>,
    q: Vec<i64>,
    p: Vec<i64>,
    j: Vec<i64>,
    main: bool,
    r: String,
    c: Vec<i64>,
    oc: Vec<i64>,
    next: usize,
    blocks: i64,
}
struct Node {
    c: Vec<i64>,
    t: Vec<Tr>,
    /// how to get here: (state, transition)
    from: Option<(usize, usize)>,
}
const NOWHERE: usize = usize::MAX;

fn load(path: &str) -> Vec<Node> {
    let mut names: HashMap<String, &'static str> = HashMap::new();
    let mut raw = Vec::new();
    let mut keys = HashMap::new();
    for line in BufReader::new(File::open(path).unwrap()).lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let j = J::parse(line.as_bytes(), &mut 0);
        keys.insert(j.get("key").str().to_string(), raw.len());
        raw.push(j);
    }
    let mut nodes: Vec<Node> = raw
        .iter()
        .map(|j| Node {
            c: j.get("c").nums(),
            from: None,
            t: j.get("t")
                .arr()
                .iter()
                .map(|t| {
                    let t = t.arr();
                    let o = t[0].str();
                    let o = *names.entry(o.to_string()).or_insert_with(|| Box::leak(o.to_string().into_boxed_str()));
                    Tr {
                        o,
                        a: t[1].nums(),
                        q: t[2].nums(),
                        p: t[3].nums(),
                        j: t[4].nums(),
                        main: t[5].num() == 1,
                        r: t[6].text(),
                        c: t[7].nums(),
                        oc: t[8].nums(),
                        next: keys.get(t[9].str()).cloned().unwrap_or(NOWHERE),
                        blocks: t[10].num(),
                    }
                })
                .collect(),
        })
        .collect();
    // shortest ways from the empty vector
    let root = keys["n0"];
    nodes.swap(0, root);
    for n in nodes.iter_mut() {
        for t in n.t.iter_mut() {
            t.next = match t.next {
                x if x == root => 0,
                0 => root,
                x => x,
            }
        }
    }
    let mut seen = vec![false; nodes.len()];
    seen[0] = true;
    let mut order = vec![0];
    let mut k = 0;
    while k < order.len() {
        let s = order[k];
        k += 1;
        for i in 0..nodes[s].t.len() {
            let n = nodes[s].t[i].next;
            if n != NOWHERE && !seen[n] {
                seen[n] = true;
                nodes[n].from = Some((s, i));
                order.push(n);
            }
        }
    }
    nodes
}

/// The operations that one transition stands for
fn expand(t: &Tr, main: usize) -> Vec<Op> {
    let other = 1 - main;
    let mut v = Vec::new();
    if matches!(t.o, "append" | "extend_iter" | "eq") {
        let mut q = t.p.clone();
        q.extend(&t.j);
        v.push(Op { o: "from_slice", v: other, w: main, q, ..Op::default() });
        v.push(Op { o: "truncate", v: other, w: main, a: vec![t.p.len() as i64], ..Op::default() });
    }
    let other = if t.o == "blk_copy" { main } else { other };
    v.push(Op { o: t.o, v: main, w: other, a: t.a.clone(), q: t.q.clone(), it: vec![], f: None });
    v
}

/// Caller code that fails, twice, each time followed by uses of the vector
fn faulty(rng: &mut Rng, v: usize, c: &[i64], p: usize, epb: usize) -> Vec<Op> {
    let x = |rng: &mut Rng| rng.below(p) as i64;
    let mut out = Vec::new();
    let mk = |o: &'static str, a: Vec<i64>, q: Vec<i64>| Op { o, v, w: v, a, q, it: vec![], f: None };
    for _ in 0..2 {
        let k = rng.below(c.len() + 2) as i64;
        let q: Vec<i64> = (0..rng.below(epb + 3)).map(|_| x(rng)).collect();
        let n = q.len() as i64;
        let lo = *[0, n, n + 1, n - 1, n + epb as i64, n + 5 * epb as i64].get(rng.below(6)).unwrap();
        let lo = lo.max(0);
        let up = if rng.chance(50) { -1 } else { lo + rng.below(2) as i64 };
        out.push(match rng.below(6) {
            0 | 1 => {
                let keep = (0..p as i64).filter(|_| rng.chance(60)).collect();
                mk("retain_panic", vec![k], keep)
            }
            2 => mk("for_each_panic", vec![k, x(rng)], vec![]),
            3 | 4 => mk("extend_panic", vec![lo, up], q),
            _ => mk("extend_lie", vec![lo, up], q),
        });
        out.push(mk("len", vec![], vec![]));
        let y = x(rng);
        out.push(mk("push", vec![y], vec![]));
        out.push(mk("get", vec![0], vec![]));
        out.push(mk("insert", vec![0, y], vec![]));
        out.push(mk("extend", vec![0], vec![y; epb + 1]));
        out.push(mk("pop", vec![], vec![]));
    }
    out
}

/// Uses of a vector after a conversion failed
fn afterwards(rng: &mut Rng, v: usize, c: usize, p: usize, epb: usize) -> Vec<Op> {
    let x = rng.below(p) as i64;
    let mk = |o: &'static str, a: Vec<i64>, q: Vec<i64>| Op { o, v, w: v, a, q, ..Op::default() };
    let mut out = vec![mk("len", vec![], vec![])];
    for _ in 0..3 {
        out.push(match rng.below(6) {
            0 => mk("push", vec![x], vec![]),
            1 => mk("pop", vec![], vec![]),
            2 => mk("insert", vec![rng.below(c + 1) as i64, x], vec![]),
            3 => mk("extend", vec![0], vec![x; epb + 1]),
            4 => mk("resize", vec![(c + rng.below(epb + 1)) as i64, x], vec![]),
            _ => mk("remove", vec![rng.below(c + 1) as i64], vec![]),
        });
    }
    out
}

struct Walker<'a> {
    ty: &'a Ty,
    pal: &'a [usize],
    head: String,
    out: BufWriter<File>,
    pend: Option<File>,
    emitted: u64,
}

impl<'a> Walker<'a> {
    fn fresh(&self) -> Env {
        let mut p = (self.ty.make)();
        p.narrow(self.pal);
        Env::new(&*p)
    }
    /// Runs a path again and records it
    fn emit(&mut self, path: &[Op]) {
        let mut env = self.fresh();
        let mut evs = Vec::new();
        for op in path {
            let d = env.exec(op);
            let mut op = op.clone();
            op.f = op.f.map(|x| (x.0, d.f));
            evs.push(event_json(&op, &d, &mut env, true));
        }
        writeln!(self.out, "{{{},\"e\":[{}]}}", self.head, evs.join(",")).unwrap();
        self.emitted += 1;
    }
    fn run(&mut self, env: &mut Env, op: &Op) -> Done {
        crate::tick();
        if let Some(f) = &mut self.pend {
            writeln!(f, "P {{{}}}", op.json_args()).unwrap();
        }
        let d = env.exec(op);
        if self.pend.is_some() {
            let e = event_json(op, &d, env, true);
            writeln!(self.pend.as_mut().unwrap(), "E {}", e).unwrap();
        }
        d
    }
    /// starts the notes about the operation that may kill the process anew
    fn reset(&mut self) {
        if let Some(f) = &mut self.pend {
            f.set_len(0).unwrap();
            f.rewind().unwrap();
            writeln!(f, "H {{{}}}", self.head).unwrap();
        }
    }
}

pub fn walk(args: &[String], tys: Vec<Ty>) {
    let k: usize = arg(args, "--type", "0").parse().unwrap();
    let pal: Vec<usize> = arg(args, "--pal", "0,1").split(',').map(|x| x.parse().unwrap()).collect();
    let ops: Vec<&str> = arg(args, "--ops", "").split(',').collect();
    let from: u64 = arg(args, "--from", "0").parse().unwrap();
    let seed: u64 = arg(args, "--seed", "1").parse().unwrap();
    let steps: u64 = arg(args, "--steps", "0").parse().unwrap();
    let every: u64 = arg(args, "--every", "1000").parse().unwrap();
    let pending = arg(args, "--pending", "");
    let faults: u64 = arg(args, "--faults", "0").parse().unwrap();
    // the caller code that fails is the element type's conversions
    let conv = arg(args, "--conv", "") == "1";
    // only positions at or past the end
    let edge = arg(args, "--edge", "") == "1";
    let ty = &tys[k];
    let nodes = load(arg(args, "--graph", "graph.ndjson"));
    let mut proto = (ty.make)();
    proto.narrow(&pal);
    let epb = ty.block / crate::bits(ty.n);
    let want = |t: &Tr, n: usize| if t.o == "reserve" { n + t.a[0] as usize } else { n };
    let zero = pal.iter().position(|&x| x == ty.zero).unwrap_or(900_000);
    let head = header(ty, &*proto, zero, k as u64, seed);
    let out = BufWriter::new(File::options().append(true).create(true).open(arg(args, "--out", "/dev/stdout")).unwrap());
    let pend = if pending.is_empty() { None } else { Some(File::create(pending).unwrap()) };
    let mut w = Walker { ty, pal: &pal, head, out, pend, emitted: 0 };
    let (mut id, mut done, mut bad, mut unreached, mut agree) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut progress = File::create(format!("{}.at", arg(args, "--out", "/dev/stdout"))).unwrap();
    let report = |id: u64, f: &mut File| {
        f.rewind().unwrap();
        writeln!(f, "{:20}", id).unwrap();
    };
    for s in 0..nodes.len() {
        // the way
        let mut way = Vec::new();
        let mut at = s;
        while let Some((p, i)) = nodes[at].from {
            way.push(&nodes[p].t[i]);
            at = p;
        }
        way.reverse();
        let mut path = Vec::new();
        let mut main = 0;
        for t in &way {
            path.extend(expand(t, main));
            if t.main {
                main = 1 - main
            }
        }
        if faults > 0 {
            let mut rng = Rng::new(seed, (s * 1000 + k) as u64);
            id += 1;
            if id <= from || rng.below(nodes.len()) as u64 >= faults {
                continue;
            }
            report(id, &mut progress);
            if conv {
                let ts: Vec<&Tr> = nodes[s].t.iter().filter(|t| ops.contains(&t.o)).collect();
                if ts.is_empty() {
                    continue;
                }
                let t = ts[rng.below(ts.len())];
                let n = nodes[s].c.len();
                let k = if rng.chance(60) { rng.below(3) } else { rng.below(2 * n + 4) };
                path.extend(expand(t, main));
                path.last_mut().unwrap().f = Some((k as i64, false));
                path.extend(afterwards(&mut rng, main, n, pal.len(), epb));
            } else {
                path.extend(faulty(&mut rng, main, &nodes[s].c, pal.len(), epb));
            }
            w.reset();
            let mut env = w.fresh();
            for op in &path {
                w.run(&mut env, op);
            }
            w.emit(&path);
            done += 1;
            continue;
        }
        let mut lost = false;
        for t in &nodes[s].t {
            id += 1;
            let inside = t.o == "pop" && !nodes[s].c.is_empty() || t.o != "pop" && t.a.iter().all(|&i| i < nodes[s].c.len() as i64);
            if !ops.contains(&t.o) || id <= from || lost || edge && inside {
                continue;
            }
            report(id, &mut progress);
            w.reset();
            let mut env = w.fresh();
            for op in &path {
                w.run(&mut env, op);
            }
            let mine = env.observe(main);
            if mine != nodes[s].c {
                // an operation on the way misbehaved: that is reported where it is the last one
                unreached += 1;
                lost = true;
                continue;
            }
            let last = expand(t, main);
            let mut r = String::new();
            for op in &last {
                r = w.run(&mut env, op).r;
            }
            let (m, o) = if t.main { (1 - main, main) } else { (main, 1 - main) };
            let binary = matches!(t.o, "append" | "extend_iter" | "split_off" | "clone" | "eq" | "transplant") && t.r != "[\"p\"]";
            let mut ok = env.observe(m) == t.c && (!binary || env.observe(o) == t.oc) && r == t.r;
            for k in 0..2 {
                // memory: worth a look
                let need = env.s[k].len().div_ceil(epb);
                ok &= env.s[k].storage_len() >= need && env.s[k].capacity() >= env.s[k].len();
                ok &= env.s[k].storage_len() <= need.max(want(t, env.s[k].len()).div_ceil(epb)) * 4 + 64;
            }
            if t.o == "shrink" {
                ok &= env.s[m].storage_len() == env.s[m].len().div_ceil(epb)
            }
            if t.o == "reserve" {
                ok &= env.s[m].capacity() >= want(t, env.s[m].len())
            }
            done += 1;
            if ok && env.s[m].storage_len() as i64 == t.blocks {
                agree += 1
            }
            if !ok || done % every == 1 {
                bad += !ok as u64;
                let mut p = path.clone();
                p.extend(last);
                w.emit(&p);
            }
            if bad >= 20 {
                break;
            }
        }
        if bad >= 20 {
            break;
        }
    }
    // random walks: longer histories through the same graph
    let mut rng = Rng::new(seed, 77 + k as u64);
    let mut n = 0;
    let mut wid = 1u64 << 40;
    while n < steps && bad < 20 {
        wid += 1;
        let skip = wid <= from;
        if !skip {
            report(wid, &mut progress);
            w.reset();
        }
        let mut env = w.fresh();
        let (mut s, mut main) = (0usize, 0usize);
        let mut hist: Vec<Op> = Vec::new();
        for _ in 0..40 {
            n += 1;
            let t = &nodes[s].t[rng.below(nodes[s].t.len())];
            if t.next == NOWHERE {
                continue;
            }
            let es = expand(t, main);
            if skip {
                s = t.next;
                continue;
            }
            let mut r = String::new();
            for op in &es {
                r = w.run(&mut env, op).r;
            }
            hist.extend(es);
            if t.main {
                main = 1 - main
            }
            s = t.next;
            let same = env.observe(main) == nodes[s].c;
            if !same || r != t.r {
                if ops.contains(&t.o) {
                    bad += 1;
                    w.emit(&hist);
                }
                if !same {
                    break;
                }
            }
        }
    }
    w.out.flush().unwrap();
    println!(
        "{{\"done\":{},\"bad\":{},\"unreached\":{},\"agree\":{},\"steps\":{},\"emitted\":{}}}",
        done, bad, unreached, agree, n, w.emitted
    );
}
