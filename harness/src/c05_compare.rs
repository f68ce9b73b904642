//! C05: comparison masks, comparison records and boolean predicates against the IEEE-754 / integer
//! definition, on every class of bit pattern (NaN, infinities, signed zeros, subnormals, neighbours).
use crate::core::*;

type F2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
type P2 = fn(XMVECTOR, XMVECTOR) -> bool;
type R2 = fn(&mut u32, XMVECTOR, XMVECTOR) -> XMVECTOR;
type Q2 = fn(XMVECTOR, XMVECTOR) -> u32;
type Pred = fn(f32, f32) -> bool;

fn eq(a: f32, b: f32) -> bool { a == b }
fn ne(a: f32, b: f32) -> bool { !(a == b) }
fn gt(a: f32, b: f32) -> bool { a > b }
fn ge(a: f32, b: f32) -> bool { a >= b }
fn lt(a: f32, b: f32) -> bool { a < b }
fn le(a: f32, b: f32) -> bool { a <= b }
fn ieq(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() }
fn ine(a: f32, b: f32) -> bool { a.to_bits() != b.to_bits() }
/// -b <= v <= b
fn inb(v: f32, b: f32) -> bool { v <= b && v >= -b }
fn near(a: f32, b: f32, e: f32) -> bool { (a - b).abs() <= e }

fn mask(b: bool) -> u32 { if b { 0xFFFFFFFF } else { 0 } }

/// A pair where lanes are (each with some probability) equal / neighbouring / unrelated, so that all-true,
/// all-false and mixed outcomes are common for every lane count.
fn pair(c: &mut Case) -> (V4, V4) {
    let mode = c.r.below(6);
    let a = match mode { 4 => c.md4(), _ => c.any4() };
    let mut b = [0.0f32; 4];
    for i in 0..4 {
        let rel = match mode { 0 => 0, 1 => 1, 2 => 2, _ => c.r.below(6) };
        let bits = a[i].to_bits();
        let x = match rel {
            0 => bits,
            1 => step(a[i], 1),
            2 => step(a[i], -1),
            3 => bits ^ 0x80000000,
            _ => c.any_bits(),
        };
        b[i] = f32::from_bits(x);
        c.log(x);
    }
    (a, b)
}
/// next float up/down (bit pattern), leaving NaN alone
fn step(a: f32, d: i32) -> u32 {
    if !a.is_finite() { return a.to_bits(); }
    if a == 0.0 { return if d > 0 { 1 } else { 0x80000001 }; }
    let b = a.to_bits();
    if (a > 0.0) == (d > 0) { b + 1 } else { b - 1 }
}
fn cr(n: usize, t: &[bool; 4]) -> u32 {
    let k = (0..n).filter(|&i| t[i]).count();
    if k == n { 0x80 } else if k == 0 { 0x20 } else { 0 }
}

pub fn run(m: &mut Mon) {
    let vs: &[(&str, F2, Pred)] = &[
        ("XMVectorEqual", |a, b| XMVectorEqual(a, b), eq), ("XMVectorNotEqual", |a, b| XMVectorNotEqual(a, b), ne),
        ("XMVectorGreater", |a, b| XMVectorGreater(a, b), gt), ("XMVectorGreaterOrEqual", |a, b| XMVectorGreaterOrEqual(a, b), ge),
        ("XMVectorLess", |a, b| XMVectorLess(a, b), lt), ("XMVectorLessOrEqual", |a, b| XMVectorLessOrEqual(a, b), le),
        ("XMVectorEqualInt", |a, b| XMVectorEqualInt(a, b), ieq), ("XMVectorNotEqualInt", |a, b| XMVectorNotEqualInt(a, b), ine),
        ("XMVectorInBounds", |a, b| XMVectorInBounds(a, b), inb),
    ];
    for &(name, f, p) in vs {
        m.run(name, 20000, |c| {
            let (a, b) = pair(c);
            let e = [mask(p(a[0], b[0])), mask(p(a[1], b[1])), mask(p(a[2], b[2])), mask(p(a[3], b[3]))];
            c.bits4("mask", f(xv(a), xv(b)), e);
        });
    }
    let rs: &[(&str, R2, Pred, bool)] = &[
        ("XMVectorEqualR", |r, a, b| XMVectorEqualR(r, a, b), eq, false), ("XMVectorEqualIntR", |r, a, b| XMVectorEqualIntR(r, a, b), ieq, false),
        ("XMVectorGreaterR", |r, a, b| XMVectorGreaterR(r, a, b), gt, false), ("XMVectorGreaterOrEqualR", |r, a, b| XMVectorGreaterOrEqualR(r, a, b), ge, false),
        ("XMVectorInBoundsR", |r, a, b| XMVectorInBoundsR(r, a, b), inb, true),
    ];
    for &(name, f, p, bounds) in rs {
        m.run(name, 20000, |c| {
            let (a, b) = pair(c);
            let t = [p(a[0], b[0]), p(a[1], b[1]), p(a[2], b[2]), p(a[3], b[3])];
            let mut r = c.r.u32();
            let g = f(&mut r, xv(a), xv(b));
            c.bits4("mask", g, [mask(t[0]), mask(t[1]), mask(t[2]), mask(t[3])]);
            let e = if bounds { if t == [true; 4] { 0x20 } else { 0 } } else { cr(4, &t) };
            c.eq_u32("comparison record", r, e);
        });
    }
    // boolean forms: (name, fn, lanes, predicate, all?)  all=true: every lane; all=false: any lane
    let ps: &[(&str, P2, usize, Pred, bool)] = &[
        ("XMVector2Equal", |a, b| XMVector2Equal(a, b), 2, eq, true), ("XMVector3Equal", |a, b| XMVector3Equal(a, b), 3, eq, true), ("XMVector4Equal", |a, b| XMVector4Equal(a, b), 4, eq, true),
        ("XMVector2EqualInt", |a, b| XMVector2EqualInt(a, b), 2, ieq, true), ("XMVector3EqualInt", |a, b| XMVector3EqualInt(a, b), 3, ieq, true), ("XMVector4EqualInt", |a, b| XMVector4EqualInt(a, b), 4, ieq, true),
        ("XMVector2NotEqual", |a, b| XMVector2NotEqual(a, b), 2, ne, false), ("XMVector3NotEqual", |a, b| XMVector3NotEqual(a, b), 3, ne, false), ("XMVector4NotEqual", |a, b| XMVector4NotEqual(a, b), 4, ne, false),
        ("XMVector2NotEqualInt", |a, b| XMVector2NotEqualInt(a, b), 2, ine, false), ("XMVector3NotEqualInt", |a, b| XMVector3NotEqualInt(a, b), 3, ine, false), ("XMVector4NotEqualInt", |a, b| XMVector4NotEqualInt(a, b), 4, ine, false),
        ("XMVector2Greater", |a, b| XMVector2Greater(a, b), 2, gt, true), ("XMVector3Greater", |a, b| XMVector3Greater(a, b), 3, gt, true), ("XMVector4Greater", |a, b| XMVector4Greater(a, b), 4, gt, true),
        ("XMVector2GreaterOrEqual", |a, b| XMVector2GreaterOrEqual(a, b), 2, ge, true), ("XMVector3GreaterOrEqual", |a, b| XMVector3GreaterOrEqual(a, b), 3, ge, true), ("XMVector4GreaterOrEqual", |a, b| XMVector4GreaterOrEqual(a, b), 4, ge, true),
        ("XMVector2Less", |a, b| XMVector2Less(a, b), 2, lt, true), ("XMVector3Less", |a, b| XMVector3Less(a, b), 3, lt, true), ("XMVector4Less", |a, b| XMVector4Less(a, b), 4, lt, true),
        ("XMVector2LessOrEqual", |a, b| XMVector2LessOrEqual(a, b), 2, le, true), ("XMVector3LessOrEqual", |a, b| XMVector3LessOrEqual(a, b), 3, le, true), ("XMVector4LessOrEqual", |a, b| XMVector4LessOrEqual(a, b), 4, le, true),
        ("XMVector2InBounds", |a, b| XMVector2InBounds(a, b), 2, inb, true), ("XMVector3InBounds", |a, b| XMVector3InBounds(a, b), 3, inb, true), ("XMVector4InBounds", |a, b| XMVector4InBounds(a, b), 4, inb, true),
        ("XMQuaternionEqual", |a, b| XMQuaternionEqual(a, b), 4, eq, true), ("XMQuaternionNotEqual", |a, b| XMQuaternionNotEqual(a, b), 4, ne, false),
        ("XMPlaneEqual", |a, b| XMPlaneEqual(a, b), 4, eq, true), ("XMPlaneNotEqual", |a, b| XMPlaneNotEqual(a, b), 4, ne, false),
    ];
    for &(name, f, n, p, all) in ps {
        m.run(name, 20000, |c| {
            let (a, b) = pair(c);
            let t: Vec<bool> = (0..n).map(|i| p(a[i], b[i])).collect();
            let e = if all { t.iter().all(|x| *x) } else { t.iter().any(|x| *x) };
            c.eq_bool("predicate", f(xv(a), xv(b)), e);
        });
    }
    let qs: &[(&str, Q2, usize, Pred)] = &[
        ("XMVector2EqualR", |a, b| XMVector2EqualR(a, b), 2, eq), ("XMVector3EqualR", |a, b| XMVector3EqualR(a, b), 3, eq), ("XMVector4EqualR", |a, b| XMVector4EqualR(a, b), 4, eq),
        ("XMVector2EqualIntR", |a, b| XMVector2EqualIntR(a, b), 2, ieq), ("XMVector3EqualIntR", |a, b| XMVector3EqualIntR(a, b), 3, ieq), ("XMVector4EqualIntR", |a, b| XMVector4EqualIntR(a, b), 4, ieq),
        ("XMVector2GreaterR", |a, b| XMVector2GreaterR(a, b), 2, gt), ("XMVector3GreaterR", |a, b| XMVector3GreaterR(a, b), 3, gt), ("XMVector4GreaterR", |a, b| XMVector4GreaterR(a, b), 4, gt),
        ("XMVector2GreaterOrEqualR", |a, b| XMVector2GreaterOrEqualR(a, b), 2, ge), ("XMVector3GreaterOrEqualR", |a, b| XMVector3GreaterOrEqualR(a, b), 3, ge), ("XMVector4GreaterOrEqualR", |a, b| XMVector4GreaterOrEqualR(a, b), 4, ge),
    ];
    for &(name, f, n, p) in qs {
        m.run(name, 20000, |c| {
            let (a, b) = pair(c);
            let t = [p(a[0], b[0]), p(a[1], b[1]), p(a[2], b[2]), p(a[3], b[3])];
            let r = f(xv(a), xv(b));
            c.eq_u32("comparison record", r, cr(n, &t));
            // the record read back through the classification helpers
            let k = (0..n).filter(|&i| t[i]).count();
            c.eq_bool("AllTrue", XMComparisonAllTrue(r), k == n);
            c.eq_bool("AnyTrue", XMComparisonAnyTrue(r), k > 0);
            c.eq_bool("AllFalse", XMComparisonAllFalse(r), k == 0);
            c.eq_bool("AnyFalse", XMComparisonAnyFalse(r), k < n);
            c.eq_bool("Mixed", XMComparisonMixed(r), k > 0 && k < n);
        });
    }
    m.run("XMComparison*", 2000, |c| {
        let r = if c.case < 256 { c.case as u32 } else { c.r.u32() };
        c.log(r);
        c.eq_bool("AllTrue", XMComparisonAllTrue(r), r & 0x80 != 0);
        c.eq_bool("AnyTrue", XMComparisonAnyTrue(r), r & 0x20 == 0);
        c.eq_bool("AllFalse", XMComparisonAllFalse(r), r & 0x20 != 0);
        c.eq_bool("AnyFalse", XMComparisonAnyFalse(r), r & 0x80 == 0);
        c.eq_bool("Mixed", XMComparisonMixed(r), r & 0xF0 == 0);
        c.eq_bool("AllInBounds", XMComparisonAllInBounds(r), r & 0x20 != 0);
        c.eq_bool("AnyOutOfBounds", XMComparisonAnyOutOfBounds(r), r & 0x20 == 0);
    });
    // near-equality
    let nears: &[(&str, fn(XMVECTOR, XMVECTOR, XMVECTOR) -> bool, usize)] = &[
        ("XMVector2NearEqual", |a, b, e| XMVector2NearEqual(a, b, e), 2), ("XMVector3NearEqual", |a, b, e| XMVector3NearEqual(a, b, e), 3),
        ("XMVector4NearEqual", |a, b, e| XMVector4NearEqual(a, b, e), 4), ("XMPlaneNearEqual*unit", |a, b, e| XMPlaneNearEqual(a, b, e), 0),
    ];
    fn near3(c: &mut Case) -> (V4, V4, V4) {
        let mode = c.r.below(4);
        let a = if mode == 0 { c.any4() } else { c.md4() };
        let mut e = [0.0f32; 4];
        let mut b = a;
        for i in 0..4 {
            e[i] = if mode == 0 { c.any() } else { match c.r.below(4) { 0 => c.any(), 1 => 0.0, _ => c.uni(0.0, 1.0) } };
            let rel = c.r.below(7);
            b[i] = match rel {
                0 => a[i],
                1 => a[i] + e[i],
                2 => a[i] - e[i],
                3 => f32::from_bits(step(a[i] + e[i], 1)),
                4 => f32::from_bits(step(a[i] - e[i], -1)),
                5 => a[i] + e[i] * 0.5,
                _ => f32::from_bits(c.any_bits()),
            };
            c.log(e[i].to_bits());
            c.log(b[i].to_bits());
        }
        (a, b, e)
    }
    for &(name, f, n) in nears {
        if n == 0 { continue; }
        m.run(name, 30000, |c| {
            let (a, b, e) = near3(c);
            c.eq_bool("near", f(xv(a), xv(b), xv(e)), (0..n).all(|i| near(a[i], b[i], e[i])));
        });
    }
    m.run("XMVectorNearEqual", 30000, |c| {
        let (a, b, e) = near3(c);
        let t: Vec<u32> = (0..4).map(|i| mask(near(a[i], b[i], e[i]))).collect();
        c.bits4("mask", XMVectorNearEqual(xv(a), xv(b), xv(e)), [t[0], t[1], t[2], t[3]]);
    });
    m.run("XMScalarNearEqual", 30000, |c| {
        let (a, b, e) = near3(c);
        c.eq_bool("near", XMScalarNearEqual(a[0], b[0], e[0]), near(a[0], b[0], e[0]));
    });
    // planes are compared after normalisation of both operands
    m.run("XMPlaneNearEqual", 20000, |c| {
        let n = c.unitn(3);
        let d = c.uni(-10.0, 10.0);
        let (s1, s2) = (c.uni(0.1, 20.0), c.uni(0.1, 20.0));
        let off = c.uni(-0.5, 0.5);
        let eps = c.uni(0.0, 0.6);
        let lane = c.idx(4) as usize;
        let base = [n[0], n[1], n[2], d];
        let p = base.map(|x| x * s1);
        let mut q = base;
        if lane == 3 { q[3] += off } // only the distance differs: normals agree
        let q = q.map(|x| x * s2);
        if (off.abs() - eps).abs() < 1e-3 || eps < 1e-3 || (lane != 3 && eps < 1e-2) { return c.skip(); }
        let exp = lane != 3 || off.abs() <= eps;
        c.eq_bool("near", XMPlaneNearEqual(xv(p), xv(q), xv([eps; 4])), exp);
    });
    // classification
    fn nan(x: f32) -> bool { x.is_nan() }
    fn inf(x: f32) -> bool { x.is_infinite() }
    let cls: &[(&str, fn(XMVECTOR) -> bool, usize, fn(f32) -> bool)] = &[
        ("XMVector2IsNaN", |a| XMVector2IsNaN(a), 2, nan), ("XMVector3IsNaN", |a| XMVector3IsNaN(a), 3, nan), ("XMVector4IsNaN", |a| XMVector4IsNaN(a), 4, nan),
        ("XMVector2IsInfinite", |a| XMVector2IsInfinite(a), 2, inf), ("XMVector3IsInfinite", |a| XMVector3IsInfinite(a), 3, inf), ("XMVector4IsInfinite", |a| XMVector4IsInfinite(a), 4, inf),
        ("XMQuaternionIsNaN", |a| XMQuaternionIsNaN(a), 4, nan), ("XMQuaternionIsInfinite", |a| XMQuaternionIsInfinite(a), 4, inf),
        ("XMPlaneIsNaN", |a| XMPlaneIsNaN(a), 4, nan), ("XMPlaneIsInfinite", |a| XMPlaneIsInfinite(a), 4, inf),
    ];
    fn sparse(c: &mut Case) -> V4 {
        let mut a = c.md4();
        for i in 0..4 {
            if c.r.chance(1, 5) { a[i] = c.any() }
        }
        a
    }
    for &(name, f, n, p) in cls {
        m.run(name, 20000, |c| {
            let a = sparse(c);
            c.eq_bool("class", f(xv(a)), (0..n).any(|i| p(a[i])));
        });
    }
    m.run("XMVectorIsNaN", 20000, |c| {
        let a = c.any4();
        c.bits4("mask", XMVectorIsNaN(xv(a)), a.map(|x| mask(x.is_nan())));
    });
    m.run("XMVectorIsInfinite", 20000, |c| {
        let a = c.any4();
        c.bits4("mask", XMVectorIsInfinite(xv(a)), a.map(|x| mask(x.is_infinite())));
    });
    m.run("XMQuaternionIsIdentity", 5000, |c| {
        let mut q = [0.0f32, 0.0, 0.0, 1.0];
        for i in 0..4 {
            match c.r.below(8) { 0 => q[i] = f32::from_bits(step(q[i], 1)), 1 => q[i] = -q[i], 2 => q[i] = c.any(), _ => {} }
            c.log(q[i].to_bits());
        }
        c.eq_bool("identity", XMQuaternionIsIdentity(xv(q)), q == [0.0, 0.0, 0.0, 1.0]);
    });
    m.run("XMMatrixIsIdentity", 20000, |c| {
        let mut a = [[0.0f32; 4]; 4];
        for i in 0..4 { a[i][i] = 1.0; for j in 0..4 { if i != j && c.r.coin() { a[i][j] = -0.0 } } }
        let mut exp = true;
        let k = c.idx(20);
        if k < 16 {
            let (i, j) = ((k / 4) as usize, (k % 4) as usize);
            let x = match c.r.below(4) { 0 => f32::from_bits(step(a[i][j], 1)), 1 => f32::from_bits(step(a[i][j], -1)), 2 => 1.0 - a[i][j], _ => c.any() };
            c.log(x.to_bits());
            exp = x == a[i][j];
            a[i][j] = x;
        }
        c.eq_bool("identity", XMMatrixIsIdentity(xm(a)), exp);
    });
    for (name, f, p) in [("XMMatrixIsNaN", XMMatrixIsNaN as fn(XMMATRIX) -> bool, nan as fn(f32) -> bool), ("XMMatrixIsInfinite", XMMatrixIsInfinite, inf)] {
        m.run(name, 20000, |c| {
            let mut a = [[0.0f32; 4]; 4];
            for i in 0..4 { a[i] = c.fin4(); }
            for _ in 0..c.r.below(3) {
                let k = c.idx(16) as usize;
                a[k / 4][k % 4] = f32::from_bits(c.r.pick(&[0x7F800000u32, 0xFF800000, 0x7FC00000, 0xFFC00001, 0x7F800001, 0xFF800001, 0x7FFFFFFF, 0x7F7FFFFF]));
                c.log(a[k / 4][k % 4].to_bits());
            }
            let e = a.iter().flatten().any(|x| p(*x));
            c.eq_bool("class", f(xm(a)), e);
        });
    }
}
