//! Replays the tables of the specification on the real code.
#![allow(non_camel_case_types, non_snake_case, dead_code, unused, non_local_definitions)]
use like::*;
use std::fs::File;
use std::io::{BufWriter, Write};

include!(concat!(env!("LIKE_GEN"), "/types.rs"));

fn read(dir: &str, idx: usize) -> Table {
    let s = std::fs::read_to_string(format!("{}/{}.tab", dir, idx)).expect("table");
    let mut l = s.lines();
    let h: Vec<u64> = l.next().unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
    let rows = l
        .map(|x| {
            let (n, t) = x.split_once('\t').unwrap();
            (t.to_string(), n.parse().unwrap())
        })
        .collect();
    Table { idx, card: h[0], complete: h[1] == 1, is_enum: h[2] == 1, rows }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    watch::watchdog(20);
    let dir = json::arg(&args, "--dir", ".");
    let start: usize = json::arg(&args, "--start", "0").parse().unwrap();
    let mut out = BufWriter::new(File::create(json::arg(&args, "--out", "/dev/stdout")).unwrap());
    for (k, (idx, run)) in TYPES.iter().enumerate() {
        if k < start {
            continue;
        }
        writeln!(out, "S {}", k).unwrap();
        out.flush().unwrap();
        watch::tick();
        let t = read(dir, *idx);
        let r = run(&t);
        let e: Vec<String> = r.errors.iter().map(|(k, s)| format!("[{},{}]", json::js_str(k), json::js_str(s))).collect();
        writeln!(out, "R {{\"idx\":{},\"rows\":{},\"calls\":{},\"errors\":[{}]}}", idx, t.rows.len(), r.calls, e.join(",")).unwrap();
    }
}
