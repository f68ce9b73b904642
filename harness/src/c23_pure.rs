//! C23: the result of a call depends on its arguments only.
use crate::calls::*;
use crate::core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

type F = fn(&mut G) -> Vec<u32>;

/// one call: arguments from `r`, optional replacement of one component, `salt` = previous content of out parameters
fn call(f: F, r: &Rng, over: &[(usize, u32)], salt: u64) -> (Vec<u32>, Vec<u32>) {
    let mut st = FnStat::default();
    let mut c = Case::bare(r.clone(), &mut st);
    let mut vals = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut g = G::new(&mut c);
        g.over = over.to_vec();
        g.out = Rng::new(salt);
        let o = f(&mut g);
        vals = g.vals;
        o
    }));
    match res {
        Ok(o) => (o, vals),
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if s.starts_with("argument changed") { return (vec![0xBAD0_0001], vec![]); }
            (vec![0xDEAD, fnv(&s) as u32], vec![])
        }
    }
}
#[inline(never)]
fn dirty_stack(w: u64) -> u64 {
    let mut a = [0u64; 1024];
    for (i, x) in a.iter_mut().enumerate() { *x = w.wrapping_mul(i as u64 | 1); }
    bb(&mut a);
    a[(w % 1024) as usize]
}
fn mxcsr() -> u32 { let mut x = 0u32; unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack)); } x & 0xFFC0 }
fn x87cw() -> u16 { let mut x = 0u16; unsafe { std::arch::asm!("fnstcw [{}]", in(reg) &mut x, options(nostack)); } x }

fn set_mxcsr(x: u32) { unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &x, options(nostack)); } }

pub fn run(m: &mut Mon) {
    // the environment of the process, before any call into the crate
    let env0 = mxcsr();
    let long = m.scale >= 1.0 && !cfg!(debug_assertions);
    let all: Vec<(&str, bool, F)> = CALLS.iter().chain(EXTRA).copied().collect();
    let hist: Vec<F> = all.iter().map(|e| e.2).collect();
    for (e, &(name, _, f)) in all.iter().enumerate() {
        m.run(name, 60, |c| {
            let r = c.r.clone();
            set_mxcsr(env0);
            let env = (mxcsr(), x87cw());
            let (r0, vals) = call(f, &r, &[], 1);
            for w in &r0 { c.log(*w); }
            let now = (mxcsr(), x87cw());
            c.check(env == now, || format!("floating-point control state changed from {:x?} to {:x?}", env, now));
            c.check(r0 != [0xBAD0_0001], || "modifies an argument passed by shared reference".into());
            bb(dirty_stack(c.r.u64()));
            let (r1, _) = call(f, &r, &[], 1);
            c.check(r0 == r1, || format!("repeating the call gives {:08x?} after {:08x?}", r1, r0));
            if c.case == 0 {
                // a long uniform history: the same call many thousand times
                let k = if long { 70000 } else { 200 };
                for i in 0..k {
                    let (ri, _) = call(f, &r, &[], 1);
                    if ri != r0 { c.check(false, || format!("repetition {} gives {:08x?} after {:08x?}", i, ri, r0)); break; }
                }
            }
            // neighbouring calls: a few argument words changed, so that any key a hidden memory could use collides
            let mut m0 = vec![];
            let mut mu = vec![];
            for k in 0..4 {
                mu = neighbour(c, k, &vals);
                m0 = call(f, &r, &mu, 1).0;
                let (r2, _) = call(f, &r, &[], 2 + c.r.u64() % 1000);
                c.check(r0 == r2 || partial(name, &r0), || format!("depends on the previous content of its out parameters or on the previous call: {:08x?} then {:08x?}", r0, r2));
            }
            // sister functions on the same arguments
            for _ in 0..3 { let j = (e + all.len() + c.r.below(13) as usize - 6) % all.len(); bb(call(all[j].2, &r, &[], 3)); }
            { let g = hist[c.r.below(hist.len() as u32) as usize]; bb(call(g, &r, &[], 3)); }
            let (r2, _) = call(f, &r, &[], 1);
            c.check(r0 == r2, || format!("depends on the call history: {:08x?} then {:08x?}", r0, r2));
            // unrelated history
            for _ in 0..4 { let g = hist[c.r.below(hist.len() as u32) as usize]; let q = Rng::new(c.r.u64()); bb(call(g, &q, &[], 3)); }
            bb(dirty_stack(!c.r.u64()));
            let (m1, _) = call(f, &r, &mu, 1);
            c.check(m0 == m1, || format!("depends on the call history: {:08x?} then {:08x?}", m0, m1));
            let (r3, _) = call(f, &r, &[], 1);
            c.check(r0 == r3, || format!("depends on the call history: {:08x?} then {:08x?}", r0, r3));
        });
    }
    // the same calls from eight threads at once, each in its own order, against the single-threaded record
    let per = ((12.0 * m.scale) as u64).max(2);
    let seed = m.seed;
    let mut exp = vec![];
    for (e, &(name, _, f)) in all.iter().enumerate() {
        for k in 0..per {
            let r = Rng::new(fnv(name) ^ seed.wrapping_mul(77) ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15));
            exp.push((e, r.clone(), call(f, &r, &[], 1).0));
        }
    }
    let all = &all;
    let exp = &exp;
    m.run_n("all functions from 8 threads", 1, |c| {
        let bad = std::sync::Mutex::new(Vec::<String>::new());
        let start = std::sync::Barrier::new(8);
        let mut seeds = vec![];
        for _ in 0..8 { seeds.push(c.r.u64()); }
        std::thread::scope(|s| {
            for t in 0..8usize {
                let (bad, start, seed) = (&bad, &start, seeds[t]);
                s.spawn(move || {
                    let mut order: Vec<usize> = (0..exp.len()).collect();
                    let mut r = Rng::new(seed);
                    // even threads walk in lock step over the same functions, odd threads in random order
                    if t % 2 == 1 { for i in (1..order.len()).rev() { let j = r.below(i as u32 + 1) as usize; order.swap(i, j); } }
                    start.wait();
                    for i in order {
                        let (e, q, want) = &exp[i];
                        let got = call(all[*e].2, q, &[], 1).0;
                        if got != *want {
                            let mut b = bad.lock().unwrap();
                            if b.len() < 4 { b.push(format!("{}: {:08x?} in thread {}, {:08x?} single-threaded", all[*e].0, got, t, want)); }
                        }
                    }
                });
            }
        });
        c.nchecks += exp.len() as u64 * 8;
        let b = bad.into_inner().unwrap();
        c.check(b.is_empty(), || b.join("; "));
    });
}
/// argument words to replace: a random one; low bits; the sign; two swapped; all signs; all scaled; one copied over another
fn neighbour(c: &mut Case, k: u32, v: &[u32]) -> Vec<(usize, u32)> {
    let n = v.len() as u32;
    if n == 0 { return vec![]; }
    let i = c.r.below(n) as usize;
    let j = c.r.below(n) as usize;
    match if k == 0 { 0 } else { 1 + c.r.below(8) } {
        0 => vec![(i, c.any_bits())],
        1 => vec![(i, v[i] ^ 1 << c.r.below(20))],
        2 => vec![(i, v[i] ^ 0x8000_0000)],
        3 => vec![(i, v[j]), (j, v[i])],
        4 => v.iter().map(|x| x ^ 0x8000_0000).enumerate().collect(),
        5 => v.iter().map(|x| (f32::from_bits(*x) * 2.0).to_bits()).enumerate().collect(),
        6 => vec![(i, v[i].wrapping_add(4)), (j, v[j].wrapping_sub(4))],
        7 => { let p = (i / 4 * 4..(i / 4 * 4 + 4).min(v.len())).collect::<Vec<_>>(); p.into_iter().map(|q| (q, v[q] ^ 0x8000_0000)).collect() }
        _ => { let s = c.r.below(n) as usize; (0..v.len()).map(|q| (q, v[(q + s) % v.len()])).collect() }
    }
}
/// a failed decomposition leaves its outputs as they were; the (NaN sized) box of no points keeps its center
fn partial(name: &str, r: &[u32]) -> bool {
    name == "XMMatrixDecompose" && r[0] == 0 || name == "BoundingOrientedBox::CreateFromPoints" && r.len() == 10 && f32::from_bits(r[3]).is_nan()
}
