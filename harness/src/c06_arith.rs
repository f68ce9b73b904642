//! C06: bitwise operations (bit exact), correctly rounded elementwise arithmetic, rounding, min/max/clamp,
//! modulo and angle wrapping, for every lane independently.
use crate::core::*;

fn lanes(f: impl Fn(usize) -> f32) -> V4 { [f(0), f(1), f(2), f(3)] }

/// elementwise comparison: same value (±0 equal), NaN where NaN is expected
fn each(c: &mut Case, what: &str, g: XMVECTOR, e: V4) { c.ieee4(what, g, e); }

fn ulps(c: &mut Case, what: &str, g: XMVECTOR, e: D4, rel: f64) {
    let t = e.map(|x| if x.is_finite() { x.abs() * rel } else { 0.0 });
    c.near4(what, g, e, t);
}

pub fn run(m: &mut Mon) {
    // ---- bitwise
    type F2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
    let bit: &[(&str, F2, fn(u32, u32) -> u32)] = &[
        ("XMVectorAndInt", |a, b| XMVectorAndInt(a, b), |a, b| a & b), ("XMVectorAndCInt", |a, b| XMVectorAndCInt(a, b), |a, b| a & !b),
        ("XMVectorOrInt", |a, b| XMVectorOrInt(a, b), |a, b| a | b), ("XMVectorNorInt", |a, b| XMVectorNorInt(a, b), |a, b| !(a | b)),
        ("XMVectorXorInt", |a, b| XMVectorXorInt(a, b), |a, b| a ^ b),
    ];
    for &(name, f, e) in bit {
        m.run(name, 10000, |c| {
            let mut a = [0u32; 4];
            let mut b = [0u32; 4];
            for i in 0..4 { a[i] = if c.r.coin() { c.r.u32() } else { c.any_bits() }; b[i] = if c.r.coin() { c.r.u32() } else { c.any_bits() }; c.log(a[i]); c.log(b[i]); }
            c.bits4("bits", f(xu(a), xu(b)), [e(a[0], b[0]), e(a[1], b[1]), e(a[2], b[2]), e(a[3], b[3])]);
        });
    }
    // ---- correctly rounded
    let ar: &[(&str, F2, fn(f32, f32) -> f32)] = &[
        ("XMVectorAdd", |a, b| XMVectorAdd(a, b), |a, b| a + b), ("XMVectorSubtract", |a, b| XMVectorSubtract(a, b), |a, b| a - b),
        ("XMVectorMultiply", |a, b| XMVectorMultiply(a, b), |a, b| a * b),
    ];
    for &(name, f, e) in ar {
        m.run(name, 30000, |c| {
            let a = c.any4();
            let b = c.any4();
            each(c, name, f(xv(a), xv(b)), lanes(|i| e(a[i], b[i])));
        });
    }
    m.run("XMVectorDivide", 30000, |c| {
        let a = c.any4();
        let b = c.any4();
        ulps(c, "quotient", XMVectorDivide(xv(a), xv(b)), d4(lanes(|i| a[i] / b[i])), 1.01 * EPS);
    });
    m.run("XMVectorScale", 20000, |c| {
        let a = c.any4();
        let s = c.any();
        each(c, "scale", XMVectorScale(xv(a), s), lanes(|i| a[i] * s));
    });
    m.run("XMVectorNegate", 10000, |c| {
        let a = c.any4();
        each(c, "negate", XMVectorNegate(xv(a)), lanes(|i| -a[i]));
    });
    m.run("XMVectorAbs", 10000, |c| {
        let a = c.any4();
        each(c, "abs", XMVectorAbs(xv(a)), lanes(|i| a[i].abs()));
    });
    m.run("XMVectorMultiplyAdd", 40000, |c| {
        let (a, b, d) = (c.any4(), c.any4(), c.any4());
        let g = vf(XMVectorMultiplyAdd(xv(a), xv(b), xv(d)));
        for i in 0..4 { fused(c, "a*b+c", g[i], a[i] * b[i] + d[i], a[i].mul_add(b[i], d[i])); }
    });
    m.run("XMVectorNegativeMultiplySubtract", 40000, |c| {
        let (a, b, d) = (c.any4(), c.any4(), c.any4());
        let g = vf(XMVectorNegativeMultiplySubtract(xv(a), xv(b), xv(d)));
        for i in 0..4 { fused(c, "c-a*b", g[i], d[i] - a[i] * b[i], (-a[i]).mul_add(b[i], d[i])); }
    });
    fn fused(c: &mut Case, w: &str, g: f32, e1: f32, e2: f32) {
        let ok = |e: f32| g == e || (g.is_nan() && e.is_nan());
        let t = (e1 as f64 - e2 as f64).abs();
        c.trace(&[g], &[if t.is_finite() { t + 1e-60 } else { f64::INFINITY }]);
        c.check(ok(e1) || ok(e2), || format!("{}: got {:e} expected {:e} (or fused {:e})", w, g, e1, e2));
    }
    // ---- reciprocal / square roots
    m.run("XMVectorReciprocal", 20000, |c| {
        let a = c.any4();
        ulps(c, "1/x", XMVectorReciprocal(xv(a)), d4(lanes(|i| 1.0 / a[i])), 1.01 * EPS);
    });
    m.run("XMVectorSqrt", 20000, |c| {
        let a = c.any4();
        ulps(c, "sqrt", XMVectorSqrt(xv(a)), d4(lanes(|i| a[i].sqrt())), 1.01 * EPS);
    });
    m.run("XMVectorReciprocalSqrt", 20000, |c| {
        let a = c.any4();
        ulps(c, "1/sqrt", XMVectorReciprocalSqrt(xv(a)), [0, 1, 2, 3].map(|i| 1.0 / (a[i] as f64).sqrt()), 2.1 * EPS);
    });
    // estimates: relative error 2^-11 over the normal range, exact limits at 0 and infinity
    fn est_in(c: &mut Case, neg: bool) -> V4 {
        let mut a = [0f32; 4];
        for i in 0..4 {
            a[i] = match c.r.below(6) { 0 => c.r.pick(&[0.0f32, f32::INFINITY, 1.0]), _ => c.logu(-120.0, 120.0) };
            if !neg { a[i] = a[i].abs() }
            c.log(a[i].to_bits());
        }
        a
    }
    m.run("XMVectorReciprocalEst", 20000, |c| {
        let a = est_in(c, true);
        ulps(c, "~1/x", XMVectorReciprocalEst(xv(a)), [0, 1, 2, 3].map(|i| 1.0 / a[i] as f64), 1.0 / 2048.0);
    });
    m.run("XMVectorReciprocalSqrtEst", 20000, |c| {
        let a = est_in(c, false);
        ulps(c, "~1/sqrt", XMVectorReciprocalSqrtEst(xv(a)), [0, 1, 2, 3].map(|i| 1.0 / (a[i] as f64).sqrt()), 1.0 / 2048.0);
    });
    m.run("XMVectorSqrtEst", 20000, |c| {
        let a = est_in(c, false);
        ulps(c, "~sqrt", XMVectorSqrtEst(xv(a)), [0, 1, 2, 3].map(|i| (a[i] as f64).sqrt()), 1.0 / 2048.0);
    });
    // ---- rounding to integers
    fn round_in(c: &mut Case) -> V4 {
        let mut a = [0f32; 4];
        for i in 0..4 {
            a[i] = match c.r.below(6) {
                0 => c.any(),
                1 => c.idx(4001) as f32 / 2.0 - 1000.0,
                2 => c.logu(20.0, 26.0),
                3 => {
                    let k = (c.idx(2001) as f32 - 1000.0) / 2.0;
                    let b = k.to_bits();
                    let x = f32::from_bits(b.wrapping_add(c.r.below(3)).wrapping_sub(1));
                    c.log(x.to_bits());
                    if x.is_nan() { 0.0 } else { x }
                }
                4 => c.logu(-6.0, 3.0),
                _ => c.uni(-100.0, 100.0),
            };
        }
        a
    }
    let rn: &[(&str, fn(XMVECTOR) -> XMVECTOR, fn(f32) -> f32)] = &[
        ("XMVectorRound", |a| XMVectorRound(a), |x| x.round_ties_even()), ("XMVectorTruncate", |a| XMVectorTruncate(a), |x| x.trunc()),
        ("XMVectorFloor", |a| XMVectorFloor(a), |x| x.floor()), ("XMVectorCeiling", |a| XMVectorCeiling(a), |x| x.ceil()),
    ];
    for &(name, f, e) in rn {
        m.run(name, 60000, |c| {
            let a = round_in(c);
            each(c, name, f(xv(a)), lanes(|i| e(a[i])));
        });
    }
    // ---- min / max / clamp / saturate
    fn minmax(c: &mut Case, w: &str, g: f32, a: f32, b: f32, e: f32) {
        if a.is_nan() || b.is_nan() {
            // unordered: one of the operands
            c.check(g.is_nan() || g == a || g == b, || format!("{}({:e},{:e}) = {:e}", w, a, b, g));
        } else {
            c.trace(&[g], &[1e-60]);
            c.check(g == e, || format!("{}({:e},{:e}) = {:e}, expected {:e}", w, a, b, g, e));
        }
    }
    m.run("XMVectorMin", 20000, |c| {
        let (a, b) = (c.any4(), c.any4());
        let g = vf(XMVectorMin(xv(a), xv(b)));
        for i in 0..4 { minmax(c, "min", g[i], a[i], b[i], if a[i] < b[i] { a[i] } else { b[i] }); }
    });
    m.run("XMVectorMax", 20000, |c| {
        let (a, b) = (c.any4(), c.any4());
        let g = vf(XMVectorMax(xv(a), xv(b)));
        for i in 0..4 { minmax(c, "max", g[i], a[i], b[i], if a[i] > b[i] { a[i] } else { b[i] }); }
    });
    m.run("XMMin/XMMax", 20000, |c| {
        let (a, b) = (c.any(), c.any());
        minmax(c, "XMMin", XMMin(a, b), a, b, if a < b { a } else { b });
        minmax(c, "XMMax", XMMax(a, b), a, b, if a > b { a } else { b });
        let (i, j) = (c.r.u32() as i32, c.r.u32() as i32 >> c.r.below(31));
        c.check(XMMin(i, j) == i.min(j) && XMMax(i, j) == i.max(j), || format!("XMMin/XMMax({},{})", i, j));
        let (i, j) = (c.r.below(4), c.r.below(4));
        c.check(XMMin(i, j) == i.min(j) && XMMax(i, j) == i.max(j), || format!("XMMin/XMMax({},{})", i, j));
    });
    m.run("XMVectorClamp", 30000, |c| {
        let v = c.any4();
        let (p, q) = (c.any4(), c.any4());
        let mut lo = p;
        let mut hi = q;
        for i in 0..4 {
            if p[i].is_nan() || q[i].is_nan() { lo[i] = -1.0; hi[i] = 2.0; }
            if lo[i] > hi[i] { std::mem::swap(&mut lo[i], &mut hi[i]); }
        }
        let g = vf(XMVectorClamp(xv(v), xv(lo), xv(hi)));
        for i in 0..4 {
            if v[i].is_nan() {
                c.check(g[i].is_nan() || (g[i] >= lo[i] && g[i] <= hi[i]), || format!("clamp NaN -> {:e}", g[i]));
            } else {
                let e = if v[i] < lo[i] { lo[i] } else if v[i] > hi[i] { hi[i] } else { v[i] };
                c.trace(&[g[i]], &[1e-60]);
                c.check(g[i] == e, || format!("clamp({:e},{:e},{:e}) = {:e}", v[i], lo[i], hi[i], g[i]));
            }
        }
    });
    m.run("XMVectorSaturate", 20000, |c| {
        let v = c.any4();
        let g = vf(XMVectorSaturate(xv(v)));
        for i in 0..4 {
            if v[i].is_nan() {
                c.check(g[i].is_nan() || (g[i] >= 0.0 && g[i] <= 1.0), || format!("saturate NaN -> {:e}", g[i]));
            } else {
                let e = v[i].max(0.0).min(1.0);
                c.trace(&[g[i]], &[1e-60]);
                c.check(g[i] == e, || format!("saturate({:e}) = {:e}", v[i], g[i]));
            }
        }
    });
    m.run("XMVectorSum", 20000, |c| {
        let v = if c.coin() { c.md4() } else { c.scn(4, -40.0, 40.0) };
        let d = d4(v);
        let s: f64 = d.iter().sum();
        let a: f64 = d.iter().map(|x| x.abs()).sum();
        c.splat("sum", XMVectorSum(xv(v)), s, 2.5 * EPS * a);
    });
    // ---- modulo
    m.run("XMVectorMod", 40000, |c| {
        let mut a = [0f32; 4];
        let mut b = [0f32; 4];
        for i in 0..4 {
            b[i] = match c.r.below(3) { 0 => c.logu(-8.0, 8.0), 1 => c.idx(20) as f32 / 4.0 + 0.25, _ => c.uni(0.1, 10.0) };
            a[i] = match c.r.below(4) { 0 => b[i] * (c.idx(200) as f32 - 100.0), 1 => c.uni(-1.0, 1.0) * b[i], _ => c.uni(-1000.0, 1000.0) * b[i] };
            if c.r.chance(1, 6) { a[i] = b[i] * c.logu(10.0, 60.0) * if c.coin() { 1.0 } else { -1.0 }; }
            c.log(a[i].to_bits());
        }
        let g = vf(XMVectorMod(xv(a), xv(b)));
        for i in 0..4 {
            let (x, y) = (a[i] as f64, b[i] as f64);
            let q = x / y;
            let t = 3.0 * EPS * x.abs() + EPS * y.abs();
            // from 2^22 on the quotient is hardly a fraction any more: what remains is its rounding error
            if q.abs() >= 4194304.0 { c.near("mod (large quotient)", g[i], 0.0, t + y.abs()); continue; }
            let e1 = x - (q * (1.0 - 1.5 * EPS)).trunc() * y;
            let e2 = x - (q * (1.0 + 1.5 * EPS)).trunc() * y;
            if e1 == e2 {
                c.near("mod", g[i], e1, t);
            } else {
                let k = g[i] as f64;
                c.check((k - e1).abs() <= t || (k - e2).abs() <= t, || format!("mod({:e},{:e}) = {:e}, expected {:e} or {:e}", x, y, k, e1, e2));
            }
        }
    });
    const PI: f64 = std::f64::consts::PI;
    fn wrap(c: &mut Case, w: &str, g: f32, x: f64, t: f64) {
        // representative of x modulo 2*pi in [-pi, pi] (either end when within t of the seam)
        let e = x - 2.0 * PI * (x / (2.0 * PI)).round();
        let k = g as f64;
        let ok = (k - e).abs() <= t || ((e.abs() - PI).abs() <= t && (k.abs() - PI).abs() <= 2.0 * t);
        if (e.abs() - PI).abs() > t { c.trace(&[g], &[t]); }
        c.check(ok, || format!("{}({:e}) = {:e}, expected {:e} tol {:e}", w, x, k, e, t));
    }
    fn ang(c: &mut Case, big: bool) -> f32 {
        match c.r.below(if big { 5 } else { 3 }) {
            0 => { let k = c.idx(17) as f64 - 8.0; let x = (k * PI / 8.0) as f32; c.log(x.to_bits()); x }
            1 | 2 => c.uni(-PI, PI),
            3 => c.uni(-30.0, 30.0),
            _ => c.uni(-1000.0, 1000.0),
        }
    }
    /// -pi <= angle < pi
    fn ang1(c: &mut Case) -> f32 { loop { let x = ang(c, false); if x >= -XM_PI && x < XM_PI { return x; } } }
    /// -2 pi <= angle <= 2 pi
    fn ang2(c: &mut Case) -> f32 {
        match c.r.below(4) { 0 => { let k = c.idx(33) as f64 - 16.0; let x = (k * PI / 8.0) as f32; c.log(x.to_bits()); x } 1 => c.uni(-2.0 * PI, 2.0 * PI).clamp(-XM_2PI, XM_2PI), _ => ang(c, false) }
    }
    m.run("XMVectorModAngles", 40000, |c| {
        let a = [ang(c, true), ang(c, true), ang(c, true), ang(c, true)];
        let g = vf(XMVectorModAngles(xv(a)));
        for i in 0..4 { wrap(c, "ModAngles", g[i], a[i] as f64, 3.0 * EPS * (a[i] as f64).abs() + 4.0 * EPS); }
    });
    m.run("XMScalarModAngle", 40000, |c| {
        let a = ang(c, true);
        let g = XMScalarModAngle(a);
        wrap(c, "ModAngle", g, a as f64, 4.0 * EPS * (a as f64).abs() + 8.0 * EPS);
    });
    m.run("XMVectorAddAngles", 40000, |c| {
        let a = [ang1(c), ang1(c), ang1(c), ang1(c)];
        let b = [ang2(c), ang2(c), ang2(c), ang2(c)];
        let g = vf(XMVectorAddAngles(xv(a), xv(b)));
        for i in 0..4 {
            let s = a[i] as f64 + b[i] as f64;
            wrap(c, "AddAngles", g[i], s, 12.0 * EPS);
            // the documented interval is half open; sums beyond 2.5 pi may leave it by their own rounding
            if s.abs() < 7.8 { c.check(g[i] >= -XM_PI && g[i] < XM_PI, || format!("{} {} {} = {} is outside [-pi, pi)", a[i], "+", b[i], g[i])); }
        }
    });
    m.run("XMVectorSubtractAngles", 40000, |c| {
        let a = [ang1(c), ang1(c), ang1(c), ang1(c)];
        let b = [ang2(c), ang2(c), ang2(c), ang2(c)];
        let g = vf(XMVectorSubtractAngles(xv(a), xv(b)));
        for i in 0..4 {
            let s = a[i] as f64 - b[i] as f64;
            wrap(c, "SubtractAngles", g[i], s, 12.0 * EPS);
            // the documented interval is half open; sums beyond 2.5 pi may leave it by their own rounding
            if s.abs() < 7.8 { c.check(g[i] >= -XM_PI && g[i] < XM_PI, || format!("{} {} {} = {} is outside [-pi, pi)", a[i], "-", b[i], g[i])); }
        }
    });
    m.run("XMConvertToRadians/Degrees", 20000, |c| {
        let x = c.logu(-60.0, 60.0);
        c.near("radians", XMConvertToRadians(x), x as f64 * PI / 180.0, (x as f64).abs() * PI / 180.0 * 2.0 * EPS);
        c.near("degrees", XMConvertToDegrees(x), x as f64 * 180.0 / PI, (x as f64).abs() * 180.0 / PI * 2.0 * EPS);
    });
}
