#![allow(non_snake_case, unused)]
mod core;
mod geo;
mod col;
#[cfg(any(feature = "C23", feature = "C24", feature = "C01"))]
mod calls;
use crate::core::*;
use std::collections::HashSet;

macro_rules! props { ($($f:literal $m:ident),*) => {
    $( #[cfg(feature = $f)] mod $m; )*
    fn dispatch(m: &mut Mon) {
        $( #[cfg(feature = $f)] { m.prop = $f.into(); $m::run(m); } )*
    }
} }
include!("props.rs");

fn main() {
    let mut seed = 1u64;
    let mut scale = 1.0;
    let mut only = None;
    let mut only_case = None;
    let mut verbose = false;
    let mut trace = None;
    let mut watchdog = 0;
    let mut compare = None;
    let mut shard = (0u64, 1u64);
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--seed" => seed = a.next().unwrap().parse().unwrap(),
            "--scale" => scale = a.next().unwrap().parse().unwrap(),
            "--only" => only = a.next(),
            "--case" => only_case = Some(a.next().unwrap().parse().unwrap()),
            "--trace" => trace = Some(std::io::BufWriter::new(std::fs::File::create(a.next().unwrap()).unwrap())),
            "--compare" => compare = Some(std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(a.next().unwrap()).unwrap())),
            "--shard" => { let v = a.next().unwrap(); let (i, n) = v.split_once('/').unwrap(); shard = (i.parse().unwrap(), n.parse().unwrap()); }
            "--watchdog" => watchdog = a.next().unwrap().parse().unwrap(),
            "-v" => verbose = true,
            o => panic!("unknown option {}", o),
        }
    }
    #[cfg(not(miri))]
    install_crash_handler();
    std::panic::set_hook(Box::new(|_| {}));
    let mut m = Mon {
        prop: String::new(), seed, scale, only, only_case,
        stats: Default::default(), viols: vec![], samples: vec![], known: HashSet::new(), trace, watchdog, compare, desync: false, shard,
    };
    dispatch(&mut m);
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
    let mut out = String::from("{\"functions\":{");
    let mut first = true;
    for (k, s) in &m.stats {
        if !first { out.push(','); }
        first = false;
        out += &format!("\"{}\":[{},{},{},{},{:e},{},{}]", k, s.evals, s.checks, s.skipped, s.distinct.len(), s.max_ratio, s.max_case, s.viol);
    }
    out += "},\"samples\":[";
    let step = (m.samples.len() / 6).max(1);
    out += &m.samples.iter().step_by(step).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    out += "],\"violations\":[";
    out += &m.viols.iter().map(|v| format!("{{\"func\":\"{}\",\"case\":{},\"msg\":\"{}\",\"input\":[{}]}}",
        v.func, v.case, esc(&v.msg), v.input.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    out += &format!("],\"desync\":{}}}", m.desync);
    if verbose {
        for (k, s) in &m.stats {
            println!("{:40} evals {:8} checks {:9} skip {:6} distinct {:7} maxratio {:.3} @{} viol {}", k, s.evals, s.checks, s.skipped, s.distinct.len(), s.max_ratio, s.max_case, s.viol);
        }
        for v in &m.viols { println!("VIOL {} case {} {}\n      in {:08x?}", v.func, v.case, v.msg, v.input); }
    } else {
        println!("RESULT {}", out);
    }
}
