//! Monitor core: seeded hostile input generation, the per-lane oracle verdicts,
//! observation counters and the violation log.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use directx_math::*;
pub use std::hint::black_box as bb;

pub type V4 = [f32; 4];
pub type D4 = [f64; 4];
pub type M4 = [[f32; 4]; 4];
pub type D44 = [[f64; 4]; 4];

pub const EPS: f64 = 1.1920928955078125e-7; // 2^-23
pub const TINY: f64 = 1.401298464324817e-45; // smallest subnormal f32

// ---- representation: XMVECTOR/XMMATRIX are plain 16/64 byte values; the harness
// never goes through the accessors of the crate to look at them.
#[inline(always)]
pub fn xv(a: V4) -> XMVECTOR {
    unsafe { std::mem::transmute::<[f32; 4], XMVECTOR>(bb(a)) }
}
#[inline(always)]
pub fn xu(a: [u32; 4]) -> XMVECTOR {
    unsafe { std::mem::transmute::<[u32; 4], XMVECTOR>(bb(a)) }
}
#[inline(always)]
pub fn vf(v: XMVECTOR) -> V4 {
    unsafe { std::mem::transmute::<XMVECTOR, [f32; 4]>(bb(v)) }
}
#[inline(always)]
pub fn vu(v: XMVECTOR) -> [u32; 4] {
    unsafe { std::mem::transmute::<XMVECTOR, [u32; 4]>(bb(v)) }
}
#[inline(always)]
pub fn xm(a: M4) -> XMMATRIX {
    unsafe { std::mem::transmute::<[[f32; 4]; 4], XMMATRIX>(bb(a)) }
}
#[inline(always)]
pub fn mf(m: XMMATRIX) -> M4 {
    unsafe { std::mem::transmute::<XMMATRIX, [[f32; 4]; 4]>(bb(m)) }
}
pub fn d4(a: V4) -> D4 {
    [a[0] as f64, a[1] as f64, a[2] as f64, a[3] as f64]
}
pub fn d44(m: M4) -> D44 {
    [d4(m[0]), d4(m[1]), d4(m[2]), d4(m[3])]
}
pub fn f4(a: D4) -> V4 {
    [a[0] as f32, a[1] as f32, a[2] as f32, a[3] as f32]
}
pub fn b4(a: V4) -> [u32; 4] {
    [a[0].to_bits(), a[1].to_bits(), a[2].to_bits(), a[3].to_bits()]
}

// ---- PRNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x9E3779B97F4A7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.u32() as u64 * n as u64) >> 32) as u32
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u32) as usize]
    }
    pub fn gauss(&mut self) -> f64 {
        let u = (self.unit() + 1e-300).ln();
        (-2.0 * u).sqrt() * (2.0 * std::f64::consts::PI * self.unit()).cos()
    }
    pub fn coin(&mut self) -> bool {
        self.u32() & 1 == 1
    }
    pub fn sign(&mut self) -> f64 {
        if self.u32() & 1 == 0 { 1.0 } else { -1.0 }
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub const SPECIALS: &[u32] = &[
    0x00000000, 0x80000000, // +-0
    0x3F800000, 0xBF800000, // +-1
    0x7F800000, 0xFF800000, // +-inf
    0x7FC00000, 0xFFC00000, 0x7FC12345, // qNaN
    0x7F800001, 0xFF923456, // sNaN
    0x00000001, 0x80000001, 0x007FFFFF, 0x807FFFFF, // subnormal
    0x00800000, 0x80800000, // min normal
    0x7F7FFFFF, 0xFF7FFFFF, // max
    0x3F000000, 0xBF000000, 0x3EFFFFFF, 0x3F000001, // 0.5 and neighbours
    0x3FC00000, 0xBFC00000, 0x40200000, 0xC0200000, // 1.5 2.5
    0x3F7FFFFF, 0x3F800001, 0x34000000, // around 1, epsilon
    0x4AFFFFFE, 0x4AFFFFFF, 0x4B000000, 0x4B000001, 0xCB000000, 0xCAFFFFFF, 0x4A800001, 0x4B800000, // 2^22..2^24
    0x4EFFFFFF, 0x4F000000, 0xCF000000, 0x4F7FFFFF, 0x4F800000, // 2^31, 2^32
    0x40490FDB, 0xC0490FDB, 0x3FC90FDB, 0x40C90FDB, // pi, pi/2, 2pi
    0x5F000000, 0xDF000000, 0x1F800000, 0x7E800000, 0x00400000,
    0xFFFFFFFF, 0x7FFFFFFF, 0x0000FFFF, 0x3F800000, 0x00000000,
];

#[derive(Clone, Debug)]
pub struct Violation {
    pub func: String,
    pub case: u64,
    pub msg: String,
    pub input: Vec<u32>,
}

#[derive(Default)]
pub struct FnStat {
    pub evals: u64,      // cases executed
    pub checks: u64,     // oracle verdicts with content
    pub skipped: u64,    // cases outside the stated precondition
    pub distinct: HashSet<u64>,
    pub max_ratio: f64,  // |err| / tolerance
    pub max_case: u64,
    pub viol: u64,
}

pub struct Mon {
    pub prop: String,
    pub seed: u64,
    pub scale: f64,
    pub only: Option<String>,
    pub only_case: Option<u64>,
    pub stats: BTreeMap<String, FnStat>,
    pub viols: Vec<Violation>,
    pub samples: Vec<String>,
    pub known: HashSet<String>,
    pub watchdog: u32,
    pub desync: bool,
    /// only functions whose name hashes to this shard
    pub shard: (u64, u64),
    pub compare: Option<std::io::BufReader<std::fs::File>>,
    pub trace: Option<std::io::BufWriter<std::fs::File>>,
}

pub struct Case<'a> {
    pub r: Rng,
    pub input: Vec<u32>,
    pub st: &'a mut FnStat,
    pub case: u64,
    pub errs: Vec<String>,
    pub skip: bool,
    pub nchecks: u64,
    pub outlog: Option<Vec<u8>>,
    /// vectors generated earlier in this case, by kind
    pub vecs: Vec<(u64, V4)>,
    /// scalars generated earlier in this case
    pub scal: Vec<f32>,
}

impl Mon {
    /// run `n` (scaled) cases of one monitored function
    pub fn run(&mut self, func: &str, n: u64, f: impl Fn(&mut Case)) {
        if let Some(o) = &self.only {
            if o != func {
                return;
            }
        }
        let n = ((n as f64 * self.scale) as u64).max(1);
        self.run_n(func, n, f)
    }
    /// exhaustive sweeps: not scaled
    pub fn run_n(&mut self, func: &str, n: u64, f: impl Fn(&mut Case)) {
        if let Some(o) = &self.only {
            if o != func {
                return;
            }
        }
        if self.shard.1 > 1 && (fnv(func) >> 17) % self.shard.1 != self.shard.0 {
            return;
        }
        #[cfg(any(miri, asan))]
        println!("FN {}", func);
        unsafe {
            set_current(func);
        }
        let mut st = self.stats.remove(func).unwrap_or_default();
        let (lo, hi) = match self.only_case {
            Some(c) => (c, c + 1),
            None => (0, n),
        };
        let base = fnv(func) ^ self.seed.wrapping_mul(0x2545F4914F6CDD1D);
        let mut first_sample = None;
        for case in lo..hi {
            unsafe {
                CUR_CASE = case;
                // no case takes more than milliseconds: a call that does not come back is a hang
                if case % 256 == 0 && self.watchdog > 0 {
                    arm(self.watchdog);
                }
            }
            let mut c = Case {
                r: Rng::new(base.wrapping_add(case.wrapping_mul(0xD1342543DE82EF95))),
                input: Vec::with_capacity(16),
                st: &mut st,
                case,
                errs: Vec::new(),
                skip: false,
                nchecks: 0,
                vecs: Vec::new(), scal: Vec::new(), outlog: if self.trace.is_some() || self.compare.is_some() { Some(Vec::new()) } else { None },
            };
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
            let Case { input, errs, skip, nchecks, outlog, .. } = c;
            let mut errs = errs;
            if let Err(e) = res {
                let m = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "?".into()
                };
                errs.push(format!("panicked: {}", m));
            }
            let mut nchecks = nchecks;
            if let Some(mut o) = outlog {
                // the verdict of the oracle is part of the record, so that the checker also sees outcomes that are
                // not traced as numbers; panics in all builds alike are not a difference
                let verdict = if skip { 2u32 } else { !errs.is_empty() as u32 };
                o.extend_from_slice(&verdict.to_le_bytes());
                o.extend_from_slice(&(-1f32).to_le_bytes());
                let why = errs.join("; ");
                errs.clear();
                if let Some(w) = self.trace.as_mut() {
                    use std::io::Write;
                    // record: fn hash u64, case u64, len u32, payload
                    w.write_all(&fnv(func).to_le_bytes()).unwrap();
                    w.write_all(&case.to_le_bytes()).unwrap();
                    w.write_all(&(o.len() as u32).to_le_bytes()).unwrap();
                    w.write_all(&o).unwrap();
                } else if let Some(r) = self.compare.as_mut() {
                    match next_record(r, fnv(func), case) {
                        None => { self.desync = true; }
                        Some(p) => {
                            nchecks = (o.len() / 8) as u64;
                            if let Some(e) = diff_records(&p, &o) { errs.push(format!("differs from the reference build: {} {}", e, why)); }
                        }
                    }
                }
            }
            st.evals += 1;
            if skip && errs.is_empty() {
                st.skipped += 1;
                continue;
            }
            st.checks += nchecks;
            if nchecks > 0 && st.distinct.len() < 2_000_000 {
                let mut h = 0xcbf29ce484222325u64;
                for w in &input {
                    h = (h ^ *w as u64).wrapping_mul(0x100000001b3);
                    h ^= h >> 29;
                }
                st.distinct.insert(h);
            }
            if first_sample.is_none() && nchecks > 0 {
                first_sample = Some(format!("{}#{} in={:08x?} checks={}", func, case, input, nchecks));
            }
            if !errs.is_empty() {
                st.viol += 1;
                if st.viol <= 3 {
                    self.viols.push(Violation {
                        func: func.to_string(),
                        case,
                        msg: errs.iter().take(4).cloned().collect::<Vec<_>>().join("; "),
                        input: input.clone(),
                    });
                }
                if st.viol >= 2000 && self.compare.is_none() {
                    break;
                }
            }
        }
        if let Some(s) = first_sample {
            if self.samples.len() < 400 {
                self.samples.push(s);
            }
        }
        self.stats.insert(func.to_string(), st);
    }
}

/// the reference record of (func, case); None when the streams do not correspond
fn next_record(r: &mut impl std::io::Read, f: u64, case: u64) -> Option<Vec<u8>> {
    let mut h = [0u8; 20];
    r.read_exact(&mut h).ok()?;
    let n = u32::from_le_bytes(h[16..20].try_into().unwrap()) as usize;
    let mut p = vec![0u8; n];
    r.read_exact(&mut p).ok()?;
    if u64::from_le_bytes(h[0..8].try_into().unwrap()) != f || u64::from_le_bytes(h[8..16].try_into().unwrap()) != case { return None; }
    Some(p)
}
fn diff_records(a: &[u8], b: &[u8]) -> Option<String> {
    let w = |x: &[u8], i: usize| u32::from_le_bytes(x[i * 4..i * 4 + 4].try_into().unwrap());
    if a.len() != b.len() { return Some(format!("{} observations instead of {}", b.len() / 8, a.len() / 8)); }
    let n = a.len() / 8;
    for k in 0..n {
        let (x, y) = (w(a, 2 * k), w(b, 2 * k));
        let (t, u) = (f32::from_bits(w(a, 2 * k + 1)), f32::from_bits(w(b, 2 * k + 1)));
        if x == y { continue; }
        if k == n - 1 { return Some(format!("oracle verdict {} instead of {} (0 accepted, 1 rejected, 2 out of contract)", y, x)); }
        let (fx, fy) = (f32::from_bits(x), f32::from_bits(y));
        let ok = if t < 0.0 || u < 0.0 { false }
            else if fx.is_nan() && fy.is_nan() { true }
            else if t == 0.0 && u == 0.0 { fx == fy } // a zero of either sign
            else {
                let tol = t as f64 + u as f64 + 2.0 * TINY;
                fx == fy || (fx as f64 - fy as f64).abs() <= tol || tol.is_nan() || tol.is_infinite()
                    || (fx.is_infinite() && fy.abs() > 1e38 || fy.is_infinite() && fx.abs() > 1e38)
            };
        if !ok { return Some(format!("observation {}: {:e} ({:08x}) instead of {:e} ({:08x}), allowed difference {:e}+{:e}", k, fy, y, fx, x, t, u)); }
    }
    None
}
impl<'a> Case<'a> {
    pub fn bare(r: Rng, st: &'a mut FnStat) -> Case<'a> {
        Case { r, input: Vec::with_capacity(16), st, case: 0, errs: Vec::new(), skip: false, nchecks: 0, outlog: None, vecs: Vec::new(), scal: Vec::new() }
    }
    // ---------------- generation
    pub fn log(&mut self, w: u32) {
        self.input.push(w);
    }
    fn rec(&mut self, x: f32) -> f32 {
        self.input.push(x.to_bits());
        x
    }
    /// arbitrary bit pattern, weighted to special values and to values seen earlier in this case
    pub fn any_bits(&mut self) -> u32 {
        let k = self.r.below(100);
        if k < 18 && !self.input.is_empty() {
            let i = self.r.below(self.input.len() as u32) as usize;
            let b = self.input[i];
            return match self.r.below(8) {
                0 => b.wrapping_add(1),
                1 => b.wrapping_sub(1),
                2 => b ^ 0x80000000,
                _ => b,
            };
        }
        if k < 45 {
            return self.r.pick(SPECIALS);
        }
        if k < 60 {
            return self.r.u32();
        }
        self.moderate_raw().to_bits()
    }
    pub fn any(&mut self) -> f32 {
        let b = self.any_bits();
        self.input.push(b);
        f32::from_bits(b)
    }
    /// arbitrary, but quiet (no signalling NaN)
    pub fn anyq(&mut self) -> f32 {
        let mut b = self.any_bits();
        if (b & 0x7FFFFFFF) > 0x7F800000 {
            b |= 0x00400000;
        }
        self.input.push(b);
        f32::from_bits(b)
    }
    /// arbitrary finite
    pub fn fin(&mut self) -> f32 {
        loop {
            let b = self.any_bits();
            let f = f32::from_bits(b);
            if f.is_finite() {
                return self.rec(f);
            }
        }
    }
    /// content for lanes that must be ignored
    pub fn junk(&mut self) -> f32 {
        let b = match self.r.below(4) {
            0 => 0x7FC00000,
            1 => self.r.pick(&[0x7F800000u32, 0xFF800000, 0x7F7FFFFF, 0xFFFFFFFF, 0x7F800001]),
            2 => self.r.u32(),
            _ => self.moderate_raw().to_bits(),
        };
        self.input.push(b);
        f32::from_bits(b)
    }
    fn moderate_raw(&mut self) -> f32 {
        match self.r.below(10) {
            0 => (self.r.below(17) as f32) - 8.0,
            1 => (self.r.below(65) as f32 - 32.0) * 0.25,
            2 => {
                let e = self.r.range(-10.0, 10.0);
                (self.r.sign() * e.exp2()) as f32
            }
            3 => self.r.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 2.0]),
            4 | 5 => self.r.range(-1.0, 1.0) as f32,
            _ => self.r.range(-10.0, 10.0) as f32,
        }
    }
    /// moderate magnitude, finite, includes zeros, small integers and ties
    pub fn md(&mut self) -> f32 {
        let mut x = self.moderate_raw();
        if let Some(y) = self.again_s(|_| true) { x = y; }
        self.scal.push(x);
        self.rec(x)
    }
    /// now and then an earlier scalar of the same case, possibly negated
    fn again_s(&mut self, ok: impl Fn(f32) -> bool) -> Option<f32> {
        if self.scal.is_empty() || !self.r.chance(1, 30) { return None; }
        let k = self.r.below(self.scal.len() as u32) as usize;
        let y = if self.r.chance(1, 4) { -self.scal[k] } else { self.scal[k] };
        if ok(y) { Some(y) } else { None }
    }
    /// uniform; now and then an end point, a landmark inside the range or an earlier value
    pub fn uni(&mut self, a: f64, b: f64) -> f32 {
        let mut x = self.r.range(a, b) as f32;
        let inside = |v: f32| (v as f64) >= a && (v as f64) <= b;
        if self.r.chance(1, 16) {
            let p = std::f32::consts::PI;
            let k = self.r.pick(&[0.0f32, 1.0, 2.0, 0.5, 0.25, p, p * 0.5, p * 0.25, p * 2.0, -1.0, -2.0]);
            let y = match self.r.below(4) { 0 => k, 1 => -k, 2 => if self.r.coin() { a as f32 } else { b as f32 }, _ => x.round() };
            if inside(y) { x = y; }
        } else if let Some(y) = self.again_s(|v| inside(v)) { x = y; }
        self.scal.push(x);
        self.rec(x)
    }
    /// log-uniform magnitude
    pub fn logu(&mut self, e0: f64, e1: f64) -> f32 {
        let x = (self.r.range(e0, e1).exp2() * self.r.sign()) as f32;
        self.rec(x)
    }
    pub fn idx(&mut self, n: u32) -> u32 {
        let x = self.r.below(n);
        self.input.push(x);
        x
    }
    pub fn coin(&mut self) -> bool {
        self.idx(2) == 1
    }
    pub fn any4(&mut self) -> V4 {
        [self.any(), self.any(), self.any(), self.any()]
    }
    pub fn anyq4(&mut self) -> V4 {
        [self.anyq(), self.anyq(), self.anyq(), self.anyq()]
    }
    pub fn fin4(&mut self) -> V4 {
        [self.fin(), self.fin(), self.fin(), self.fin()]
    }
    pub fn md4(&mut self) -> V4 {
        self.mdn(4)
    }
    /// an earlier vector of the same kind in this case, sometimes negated (equal and opposite operands)
    fn again(&mut self, kind: u64, n: usize) -> Option<V4> {
        if !self.r.chance(1, 20) { return None; }
        let old: Vec<V4> = self.vecs.iter().filter(|x| x.0 == kind).map(|x| x.1).collect();
        if old.is_empty() { return None; }
        let mut a = self.r.pick(&old);
        if self.r.chance(1, 3) { for x in a.iter_mut() { *x = -*x; } }
        for i in 0..4 { a[i] = if i < n { self.rec(a[i]) } else { self.junk() }; }
        Some(a)
    }
    fn keep(&mut self, kind: u64, a: V4) -> V4 { self.vecs.push((kind, a)); a }
    /// n moderate lanes, the rest junk
    pub fn mdn(&mut self, n: usize) -> V4 {
        if let Some(a) = self.again(n as u64, n) { return a; }
        let mut a = [0.0; 4];
        if self.r.chance(1, 50) { // exactly zero
            for i in 0..4 { a[i] = if i < n { let z = if self.r.chance(1, 3) { -0.0 } else { 0.0 }; self.rec(z) } else { self.junk() }; }
            return self.keep(n as u64, a);
        }
        // now and then far from unit scale (a power of two, so ties and small integers keep their shape)
        let k = if self.r.chance(1, 25) { (self.r.below(49) as f32 - 24.0).exp2() } else { 1.0 };
        for i in 0..4 {
            a[i] = if i < n { let x = self.moderate_raw() * k; self.rec(x) } else { self.junk() };
        }
        self.keep(n as u64, a)
    }
    /// n lanes with common random scale 2^[e0,e1], the rest junk
    pub fn scn(&mut self, n: usize, e0: f64, e1: f64) -> V4 {
        let kind = (e0.to_bits() ^ e1.to_bits().rotate_left(17)) << 3 | n as u64;
        if let Some(a) = self.again(kind, n) { return a; }
        let s = self.r.range(e0, e1).exp2();
        let mut a = [0.0; 4];
        for i in 0..4 {
            a[i] = if i < n {
                let x = if self.r.chance(1, 12) { 0.0 } else { (self.r.range(-1.0, 1.0) * s) as f32 };
                self.rec(x)
            } else {
                self.junk()
            };
        }
        self.keep(kind, a)
    }
    pub fn anyn(&mut self, n: usize) -> V4 {
        let mut a = [0.0; 4];
        for i in 0..4 {
            a[i] = if i < n { self.any() } else { self.junk() };
        }
        a
    }
    /// unit vector in n dims (rounded to f32), rest junk; axis aligned sometimes
    pub fn unitn(&mut self, n: usize) -> V4 {
        let kind = 64 + n as u64;
        if let Some(a) = self.again(kind, n) { return a; }
        let mut d = [0.0f64; 4];
        if self.r.chance(1, 5) {
            let i = self.r.below(n as u32) as usize;
            d[i] = self.r.sign();
        } else {
            // some components exactly zero, or all non-zero ones of equal size
            let sparse = self.r.chance(1, 5);
            let even = sparse && self.r.chance(1, 3);
            loop {
                let mut s = 0.0;
                for i in 0..n {
                    d[i] = if sparse && self.r.chance(1, 2) { 0.0 } else if even { self.r.sign() } else { self.r.gauss() };
                    s += d[i] * d[i];
                }
                if s > 1e-6 {
                    let l = s.sqrt();
                    for i in 0..n {
                        d[i] /= l;
                    }
                    break;
                }
            }
        }
        let mut a = [0.0; 4];
        for i in 0..4 {
            a[i] = if i < n { self.rec(d[i] as f32) } else { self.junk() };
        }
        self.keep(kind, a)
    }
    pub fn quat(&mut self) -> V4 {
        let q = self.unitn(4);
        q
    }
    // ---------------- verdicts
    pub fn fail(&mut self, m: String) {
        self.nchecks += 1;
        self.errs.push(m);
    }
    pub fn check(&mut self, ok: bool, m: impl FnOnce() -> String) {
        self.nchecks += 1;
        if !ok {
            self.errs.push(m());
        }
    }
    /// output recorded for the cross-configuration trace checker. `tol` absolute per lane; 0 = bit exact (NaN==NaN).
    pub fn trace(&mut self, got: &[f32], tol: &[f64]) {
        if let Some(o) = self.outlog.as_mut() {
            for (g, t) in got.iter().zip(tol) {
                o.extend_from_slice(&g.to_bits().to_le_bytes());
                o.extend_from_slice(&(*t as f32).to_bits().to_le_bytes());
            }
        }
    }
    pub fn eq_u32(&mut self, what: &str, got: u32, exp: u32) {
        self.trace(&[f32::from_bits(got)], &[-1.0]);
        self.check(got == exp, || format!("{}: got {:#010x} expected {:#010x}", what, got, exp));
    }
    pub fn eq_bool(&mut self, what: &str, got: bool, exp: bool) {
        self.trace(&[got as u32 as f32], &[-1.0]);
        self.check(got == exp, || format!("{}: got {} expected {}", what, got, exp));
    }
    /// as bits4 for relations between two results of the same build
    pub fn bits4_nt(&mut self, what: &str, got: XMVECTOR, exp: [u32; 4]) {
        let g = vu(got);
        self.check(g == exp, || format!("{}: got {:08x?} expected {:08x?}", what, g, exp));
    }
    pub fn bits4(&mut self, what: &str, got: XMVECTOR, exp: [u32; 4]) {
        let g = vu(got);
        self.trace(&vf(got), &[-1.0; 4]);
        self.check(g == exp, || format!("{}: got {:08x?} expected {:08x?}", what, g, exp));
    }
    /// value-exact: same bits, or both NaN
    pub fn val4(&mut self, what: &str, got: XMVECTOR, exp: V4) {
        let g = vf(got);
        self.trace(&g, &[0.0; 4]);
        for i in 0..4 {
            let ok = g[i].to_bits() == exp[i].to_bits() || (g[i].is_nan() && exp[i].is_nan());
            self.check(ok, || {
                format!("{}[{}]: got {:e} ({:08x}) expected {:e} ({:08x})", what, i, g[i], g[i].to_bits(), exp[i], exp[i].to_bits())
            });
        }
    }
    /// IEEE-equal: as val4 but +0 == -0
    pub fn ieee4(&mut self, what: &str, got: XMVECTOR, exp: V4) {
        let g = vf(got);
        self.trace(&g, &[TINY; 4]);
        for i in 0..4 {
            let ok = g[i] == exp[i] || (g[i].is_nan() && exp[i].is_nan());
            self.check(ok, || format!("{}[{}]: got {:e} expected {:e}", what, i, g[i], exp[i]));
        }
    }
    /// one of several exact outcomes
    pub fn oneof(&mut self, what: &str, got: f32, exp: &[f32]) {
        let ok = exp.iter().any(|e| got.to_bits() == e.to_bits() || (got.is_nan() && e.is_nan()));
        self.check(ok, || format!("{}: got {:e} ({:08x}) expected one of {:?}", what, got, got.to_bits(), exp));
    }
    /// |got-exp| <= tol with overflow/NaN classes. NaN expectation demands NaN; an expectation beyond the
    /// f32 range demands a matching infinity (or either when the tolerance straddles the limit).
    pub fn near(&mut self, what: &str, got: f32, exp: f64, tol: f64) {
        self.trace(&[got], &[tol]);
        self.near_nt(what, got, exp, tol)
    }
    pub fn near_nt(&mut self, what: &str, got: f32, exp: f64, tol: f64) {
        self.nchecks += 1;
        let tol = tol + TINY;
        let ok = if exp.is_nan() {
            got.is_nan()
        } else if got.is_nan() {
            false
        } else {
            let lim = 3.4028235677973366e38; // MAX + half ulp
            if exp.abs() - tol > lim {
                got.is_infinite() && (got > 0.0) == (exp > 0.0)
            } else if exp.abs() + tol >= lim {
                (got.is_infinite() && (got > 0.0) == (exp > 0.0)) || (got as f64 - exp).abs() <= tol
            } else {
                let r = (got as f64 - exp).abs() / tol;
                if r > self.st.max_ratio && r.is_finite() {
                    self.st.max_ratio = r;
                    self.st.max_case = self.case;
                }
                r <= 1.0
            }
        };
        if !ok {
            self.errs.push(format!("{}: got {:e} ({:08x}) expected {:e} tol {:e}", what, got, got.to_bits(), exp, tol));
        }
    }
    pub fn near4(&mut self, what: &str, got: XMVECTOR, exp: D4, tol: D4) {
        let g = vf(got);
        for i in 0..4 {
            if tol[i] == f64::INFINITY {
                continue;
            }
            self.near(&format!("{}[{}]", what, i), g[i], exp[i], tol[i]);
        }
    }
    /// scalar replicated into every lane
    pub fn splat(&mut self, what: &str, got: XMVECTOR, exp: f64, tol: f64) {
        self.near4(what, got, [exp; 4], [tol; 4]);
    }
    pub fn skip(&mut self) {
        self.skip = true;
    }
}

// ---- crash attribution
pub static mut CUR_FN: [u8; 128] = [0; 128];
pub static mut CUR_CASE: u64 = 0;
pub static mut CUR_PROP: [u8; 8] = [0; 8];
pub unsafe fn set_current(f: &str) {
    let p = &raw mut CUR_FN as *mut u8;
    let n = f.len().min(127);
    std::ptr::copy_nonoverlapping(f.as_ptr(), p, n);
    *p.add(n) = 0;
}
extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    fn sigaction(sig: i32, a: *const SigAction, o: *mut SigAction) -> i32;
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" fn on_crash(sig: i32) {
    unsafe {
        let mut buf = [0u8; 256];
        let mut n = 0;
        let mut put = |s: &[u8]| {
            for &b in s {
                if n < 255 {
                    buf[n] = b;
                    n += 1;
                }
            }
        };
        put(b"CRASH sig=");
        let d = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8];
        put(&d);
        put(b" case=");
        let mut c = CUR_CASE;
        let mut t = [0u8; 20];
        let mut k = 20;
        loop {
            k -= 1;
            t[k] = b'0' + (c % 10) as u8;
            c /= 10;
            if c == 0 {
                break;
            }
        }
        put(&t[k..]);
        put(b" fn=");
        let p = &raw const CUR_FN as *const u8;
        let mut i = 0;
        while i < 127 && *p.add(i) != 0 {
            let b = [*p.add(i)];
            put(&b);
            i += 1;
        }
        put(b"\n");
        write(1, buf.as_ptr(), n);
        _exit(77)
    }
}
/// `s` seconds of processor time (which load on the machine does not shorten), or four times that of wall time
fn arm(s: u32) {
    unsafe {
        setitimer(1, &[0, 0, s as i64, 0], std::ptr::null_mut());
        alarm(s * 4);
    }
}
pub fn install_crash_handler() {
    unsafe {
        let _ = signal as usize;
        let mem = Box::leak(vec![0u8; 65536].into_boxed_slice());
        let ss = StackT { sp: mem.as_mut_ptr(), flags: 0, size: 65536 };
        sigaltstack(&ss, std::ptr::null_mut());
        for s in [4, 6, 7, 8, 11, 14, 26] {
            let a = SigAction { handler: on_crash as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x08000000, restorer: 0 };
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
}
