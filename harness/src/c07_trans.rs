//! C07: transcendental functions against f64 references with a stated accuracy per function, plus the
//! documented special values.
use crate::core::*;

const PI: f64 = std::f64::consts::PI;
type F1 = fn(XMVECTOR) -> XMVECTOR;
type S1 = fn(f32) -> f32;

/// angles: multiples of pi/8 and their neighbours, the principal range, several turns
fn ang(c: &mut Case, lim: f64) -> f32 {
    let x = match c.r.below(6) {
        0 => ((c.r.below(33) as f64 - 16.0) * PI / 8.0) as f32,
        1 => {
            let k = ((c.r.below(17) as f64 - 8.0) * PI / 4.0) as f32;
            f32::from_bits(k.to_bits().wrapping_add(c.r.below(5)).wrapping_sub(2))
        }
        2 => c.r.range(-0.01, 0.01) as f32,
        3 => if lim > 50.0 && c.r.chance(1, 3) { (c.r.range(4.0, 17.0).exp2() * c.r.sign()) as f32 } else { c.r.range(-lim, lim) as f32 },
        4 => ({ let l = if c.coin() { -20.0 } else { -148.0 }; c.r.range(l, 0.0) }.exp2() * c.r.sign()) as f32,
        _ => c.r.range(-PI, PI) as f32,
    };
    let x = if x.is_nan() || (x as f64).abs() > lim && lim < 50.0 { 0.5 } else { x };
    c.log(x.to_bits());
    x
}
fn unit(c: &mut Case) -> f32 {
    let x = match c.r.below(6) {
        0 => c.r.pick(&[0.0f32, 1.0, -1.0, 0.5, -0.5, -0.0, 0.70710677, -0.70710677]),
        1 => (1.0 - c.r.range(-24.0, 0.0).exp2()) as f32 * c.r.sign() as f32,
        2 => ({ let l = if c.coin() { -24.0 } else { -148.0 }; c.r.range(l, 0.0) }.exp2() * c.r.sign()) as f32,
        _ => c.r.range(-1.0, 1.0) as f32,
    };
    c.log(x.to_bits());
    x
}
/// the scalar forms clamp to the domain
fn unit_s(c: &mut Case) -> f32 {
    if c.r.chance(1, 12) {
        let x = ((1.0 + c.r.range(-24.0, 8.0).exp2()) * c.r.sign()) as f32;
        c.log(x.to_bits());
        return x;
    }
    unit(c)
}
fn lin(c: &mut Case, a: f64) -> f32 {
    let x = match c.r.below(4) {
        0 => c.r.below(2 * a as u32 + 1) as f32 - a as f32,
        1 => (c.r.range(-20.0, 0.0).exp2() * c.r.sign()) as f32,
        _ => c.r.range(-a, a) as f32,
    };
    c.log(x.to_bits());
    x
}
fn each(m: &mut Mon, name: &str, n: u64, gen: fn(&mut Case) -> f32, f: F1, r: fn(f64) -> f64, tol: fn(f64, f64) -> f64) {
    m.run(name, n, |c| {
        let a = [gen(c), gen(c), gen(c), gen(c)];
        let g = vf(f(xv(a)));
        for i in 0..4 {
            let e = r(a[i] as f64);
            c.near(&format!("{}({:e}) lane {}", name, a[i], i), g[i], e, tol(a[i] as f64, e));
        }
    });
}
fn each_s(m: &mut Mon, name: &str, n: u64, gen: fn(&mut Case) -> f32, f: S1, r: fn(f64) -> f64, tol: fn(f64, f64) -> f64) {
    m.run(name, n, |c| {
        let a = gen(c);
        let g = f(bb(a));
        let e = r(a as f64);
        c.near(&format!("{}({:e})", name, a), g, e, tol(a as f64, e));
    });
}

pub fn run(m: &mut Mon) {
    let n = 30000;
    let a100: fn(&mut Case) -> f32 = |c| ang(c, 100.0);
    let api: fn(&mut Case) -> f32 = |c| ang(c, PI);
    let trig: fn(f64, f64) -> f64 = |x, e| 5.0 * EPS * e.abs().min(1.0) + 3.0 * EPS * x.abs().max(0.2);
    let trig_est: fn(f64, f64) -> f64 = |x, _| 6e-5 + 3.0 * EPS * x.abs();
    each(m, "XMVectorSin", n, a100, |v| XMVectorSin(v), f64::sin, trig);
    each(m, "XMVectorCos", n, a100, |v| XMVectorCos(v), f64::cos, trig);
    each(m, "XMVectorSinCos.sin", n, a100, |v| { let (mut s, mut k) = (xv([9.0; 4]), xv([9.0; 4])); XMVectorSinCos(&mut s, &mut k, v); s }, f64::sin, trig);
    each(m, "XMVectorSinCos.cos", n, a100, |v| { let (mut s, mut k) = (xv([9.0; 4]), xv([9.0; 4])); XMVectorSinCos(&mut s, &mut k, v); k }, f64::cos, trig);
    each(m, "XMVectorSinEst", n, a100, |v| XMVectorSinEst(v), f64::sin, trig_est);
    each(m, "XMVectorCosEst", n, a100, |v| XMVectorCosEst(v), f64::cos, trig_est);
    each(m, "XMVectorSinCosEst.sin", n, a100, |v| { let (mut s, mut k) = (xv([9.0; 4]), xv([9.0; 4])); XMVectorSinCosEst(&mut s, &mut k, v); s }, f64::sin, trig_est);
    each(m, "XMVectorSinCosEst.cos", n, a100, |v| { let (mut s, mut k) = (xv([9.0; 4]), xv([9.0; 4])); XMVectorSinCosEst(&mut s, &mut k, v); k }, f64::cos, trig_est);
    each_s(m, "XMScalarSin", n, a100, |x| XMScalarSin(x), f64::sin, trig);
    each_s(m, "XMScalarCos", n, a100, |x| XMScalarCos(x), f64::cos, trig);
    each_s(m, "XMScalarSinCos.sin", n, a100, |x| { let (mut s, mut k) = (9.0, 9.0); XMScalarSinCos(&mut s, &mut k, x); s }, f64::sin, trig);
    each_s(m, "XMScalarSinCos.cos", n, a100, |x| { let (mut s, mut k) = (9.0, 9.0); XMScalarSinCos(&mut s, &mut k, x); k }, f64::cos, trig);
    each_s(m, "XMScalarSinEst", n, a100, |x| XMScalarSinEst(x), f64::sin, trig_est);
    each_s(m, "XMScalarCosEst", n, a100, |x| XMScalarCosEst(x), f64::cos, trig_est);
    each_s(m, "XMScalarSinCosEst.sin", n, a100, |x| { let (mut s, mut k) = (9.0, 9.0); XMScalarSinCosEst(&mut s, &mut k, x); s }, f64::sin, trig_est);
    each_s(m, "XMScalarSinCosEst.cos", n, a100, |x| { let (mut s, mut k) = (9.0, 9.0); XMScalarSinCosEst(&mut s, &mut k, x); k }, f64::cos, trig_est);
    // tangent: error of the reduced argument is amplified by 1+tan^2
    let tan_tol: fn(f64, f64) -> f64 = |x, e| { let t = 1.5 * EPS * x.abs().max(0.1) * (1.0 + e * e); if e.abs() > 1e4 || t > 0.1 * e.abs().max(0.1) { f64::INFINITY } else { 6.0 * EPS * e.abs() + t } };
    let tan_est: fn(f64, f64) -> f64 = |x, e| if e.abs() > 30.0 || x.abs() > 2000.0 { f64::INFINITY } else { 1e-2 * e.abs() + 2e-5 + 2.0 * EPS * x.abs() * (1.0 + e * e) };
    each(m, "XMVectorTan", n, a100, |v| XMVectorTan(v), f64::tan, tan_tol);
    each(m, "XMVectorTanEst", n, a100, |v| XMVectorTanEst(v), f64::tan, tan_est);
    // inverse functions
    let inv: fn(f64, f64) -> f64 = |_, e| 6.0 * EPS * e.abs().max(1.0);
    let inv_est: fn(f64, f64) -> f64 = |_, _| 2e-4;
    each(m, "XMVectorASin", n, unit, |v| XMVectorASin(v), |x: f64| x.clamp(-1.0, 1.0).asin(), inv);
    each(m, "XMVectorACos", n, unit, |v| XMVectorACos(v), |x: f64| x.clamp(-1.0, 1.0).acos(), inv);
    each(m, "XMVectorASinEst", n, unit, |v| XMVectorASinEst(v), |x: f64| x.clamp(-1.0, 1.0).asin(), inv_est);
    each(m, "XMVectorACosEst", n, unit, |v| XMVectorACosEst(v), |x: f64| x.clamp(-1.0, 1.0).acos(), inv_est);
    each_s(m, "XMScalarASin", n, unit_s, |x| XMScalarASin(x), |x: f64| x.clamp(-1.0, 1.0).asin(), inv);
    each_s(m, "XMScalarACos", n, unit_s, |x| XMScalarACos(x), |x: f64| x.clamp(-1.0, 1.0).acos(), inv);
    each_s(m, "XMScalarASinEst", n, unit_s, |x| XMScalarASinEst(x), |x: f64| x.clamp(-1.0, 1.0).asin(), inv_est);
    each_s(m, "XMScalarACosEst", n, unit_s, |x| XMScalarACosEst(x), |x: f64| x.clamp(-1.0, 1.0).acos(), inv_est);
    let at: fn(&mut Case) -> f32 = |c| match c.r.below(4) { 0 => c.logu(-60.0, 60.0), 1 => { let x = c.r.pick(&[1.0f32, -1.0, 0.0, 0.99999994, 1.0000001, -1.0000001]); c.log(x.to_bits()); x } _ => c.uni(-4.0, 4.0) };
    each(m, "XMVectorATan", n, at, |v| XMVectorATan(v), f64::atan, |_, e| 4.0 * EPS * e.abs().max(1e-3));
    each(m, "XMVectorATanEst", n, at, |v| XMVectorATanEst(v), f64::atan, |_, _| 6e-5);
    for (name, est) in [("XMVectorATan2", false), ("XMVectorATan2Est", true)] {
        m.run(name, n, |c| {
            let mut y = [0f32; 4];
            let mut x = [0f32; 4];
            let sp = [0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, 1.0, -1.0];
            for i in 0..4 {
                if c.r.chance(1, 3) {
                    let (p, q) = match c.r.below(3) { 0 => (true, false), 1 => (false, true), _ => (true, true) };
                    y[i] = if p { c.r.pick(&sp) } else { (c.r.sign() * c.r.range(-15.0, 15.0).exp2()) as f32 };
                    x[i] = if q { c.r.pick(&sp) } else { (c.r.sign() * c.r.range(-15.0, 15.0).exp2()) as f32 };
                    c.log(y[i].to_bits());
                    c.log(x[i].to_bits());
                } else {
                    y[i] = if c.r.coin() { c.logu(-15.0, 15.0) } else { c.uni(-2.0, 2.0) };
                    x[i] = if c.r.coin() { c.logu(-15.0, 15.0) } else { c.uni(-2.0, 2.0) };
                }
            }
            let g = vf(if est { XMVectorATan2Est(xv(y), xv(x)) } else { XMVectorATan2(xv(y), xv(x)) });
            for i in 0..4 {
                let e = (y[i] as f64).atan2(x[i] as f64);
                let t = if est { 4e-4 } else { 4.0 * EPS * e.abs().max(1e-3) };
                // +-pi are the same direction only when y is exactly zero: sign must follow y
                c.near(&format!("atan2({:e},{:e}) lane {}", y[i], x[i], i), g[i], e, t);
            }
        });
    }
    // the polynomial behind the base-2 exponential is tuned to non-negative fractions: 1.1e-5 relative for
    // negative arguments, a few ulp otherwise
    // exponentials (base 2), incl. overflow / underflow limits
    let ex: fn(&mut Case) -> f32 = |c| {
        let x = match c.r.below(6) {
            0 => c.r.below(301) as f32 - 150.0,
            1 => c.r.pick(&[0.0f32, -0.0, 127.99999, 128.0, -126.0, -149.0, -150.0, 1000.0, -1000.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e30, -1e30]),
            2 => c.r.range(-1.0, 1.0) as f32,
            3 => c.r.range(-151.0, 129.0) as f32,
            _ => c.r.range(-20.0, 20.0) as f32,
        };
        c.log(x.to_bits());
        x
    };
    let ext: fn(f64, f64) -> f64 = |x, e| if !e.is_finite() { 0.0 } else if x < 0.0 && x.fract() != 0.0 { 1.5e-5 * e.abs() + 2.0 * TINY } else { 5.0 * EPS * e.abs() + 2.0 * TINY };
    each(m, "XMVectorExp", n, ex, |v| XMVectorExp(v), f64::exp2, ext);
    each(m, "XMVectorExp2", n, ex, |v| XMVectorExp2(v), f64::exp2, ext);
    m.run("XMVectorPow", n, |c| {
        let mut a = [0f32; 4];
        let mut b = [0f32; 4];
        for i in 0..4 {
            if c.r.chance(1, 4) {
                a[i] = c.r.pick(&[0.0f32, 1.0, 2.0, -2.0, -1.0, 4.0, 0.5, f32::INFINITY]);
                b[i] = c.idx(17) as f32 * 0.5 - 4.0;
                c.log(a[i].to_bits());
            } else {
                a[i] = c.logu(-6.0, 6.0).abs();
                b[i] = c.uni(-10.0, 10.0);
            }
        }
        let g = vf(XMVectorPow(xv(a), xv(b)));
        for i in 0..4 {
            let e = (a[i] as f64).powf(b[i] as f64);
            c.near(&format!("pow({:e},{:e}) lane {}", a[i], b[i], i), g[i], e, if e.is_finite() { 4.0 * EPS * e.abs() } else { 0.0 });
        }
    });
    let h: fn(&mut Case) -> f32 = |c| lin(c, 20.0);
    // exponent arguments carry an absolute error |x|*log2(e)*eps, which becomes relative in the result
    each(m, "XMVectorSinH", n, h, |v| XMVectorSinH(v), f64::sinh, |x, _| (1.5e-5 + 2.0 * x.abs() * EPS) * x.cosh());
    each(m, "XMVectorCosH", n, h, |v| XMVectorCosH(v), f64::cosh, |x, _| (1.5e-5 + 2.0 * x.abs() * EPS) * x.cosh());
    each(m, "XMVectorTanH", n, h, |v| XMVectorTanH(v), f64::tanh, |_, _| 1e-5);
}
