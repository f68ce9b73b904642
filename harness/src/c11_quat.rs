//! C11: quaternions as rotations: algebra, conversions from/to angles, axes and matrices, interpolation, log/exp.
use crate::core::*;
use crate::geo::*;

pub fn slerp(a: D4, b: D4, t: f64) -> Option<D4> {
    let mut d = dotn(&a, &b, 4);
    if d.abs() < 2e-3 { return None; } // the shorter arc is ambiguous within rounding
    let s = if d < 0.0 { -1.0 } else { 1.0 };
    d *= s;
    let n = (1.0 - d * d).max(0.0).sqrt();
    let om = n.atan2(d);
    let (u, v) = if om < 1e-6 { (1.0 - t, t) } else { (((1.0 - t) * om).sin() / om.sin(), (t * om).sin() / om.sin()) };
    Some([0, 1, 2, 3].map(|i| a[i] * u + b[i] * v * s))
}
fn ln(q: D4) -> D4 {
    if q[3].abs() <= 1.0 - 0.00001 { let th = q[3].acos(); let s = th / th.sin(); [q[0] * s, q[1] * s, q[2] * s, 0.0] } else { [q[0], q[1], q[2], 0.0] }
}
fn exp(q: D4) -> D4 {
    let th = dotn(&q, &q, 3).sqrt();
    let s = if th < 1e-7 { 1.0 } else { th.sin() / th };
    [q[0] * s, q[1] * s, q[2] * s, th.cos()]
}
/// unit quaternions, including nearly identical / antipodal / half-turn ones relative to `base`
fn unitq(c: &mut Case, base: Option<V4>) -> V4 {
    let k = c.r.below(8);
    let v = match (base, k) {
        (Some(b), 0) => b,
        (Some(b), 1) => b.map(|x| -x),
        (Some(b), 2 | 3) => {
            let e = c.r.range(-22.0, -4.0).exp2();
            let s = c.r.sign();
            let q = qnorm([0, 1, 2, 3].map(|i| b[i] as f64 * s + e * c.r.gauss()));
            f4(q)
        }
        (_, 4) => {
            let h = std::f64::consts::FRAC_1_SQRT_2;
            let mut q = [0.0; 4];
            let i = c.r.below(4) as usize;
            q[i] = if c.r.chance(1, 2) { 1.0 } else { h };
            if q[i] != 1.0 { q[(i + 1 + c.r.below(3) as usize) % 4] = h * c.r.sign(); }
            f4(q)
        }
        (_, 5) => {
            // some components exactly zero, or the others of equal size
            let even = c.r.chance(1, 3);
            let mut g = [0.0; 4];
            for i in 0..4 { if c.r.chance(1, 2) { g[i] = if even { c.r.sign() } else { c.r.gauss() }; } }
            if g == [0.0; 4] { g[c.r.below(4) as usize] = c.r.sign(); }
            f4(qnorm(g))
        }
        _ => { let g = [c.r.gauss(), c.r.gauss(), c.r.gauss(), c.r.gauss()]; f4(qnorm(g)) }
    };
    for x in v { c.log(x.to_bits()); }
    v
}
fn angle(c: &mut Case) -> f32 {
    let k = c.idx(5);
    let x = match k {
        0 => (c.r.below(17) as f64 - 8.0) * std::f64::consts::FRAC_PI_4,
        1 => c.r.range(-30.0, 30.0),
        2 => c.r.range(-12.0, 0.0).exp2() * c.r.sign(),
        _ => c.r.range(-3.2, 3.2),
    } as f32;
    c.log(x.to_bits());
    x
}
fn axis_q(a: D3, t: f64) -> D4 { let (s, k) = (0.5 * t).sin_cos(); [a[0] * s, a[1] * s, a[2] * s, k] }
fn par(c: &mut Case) -> f32 {
    let k = c.idx(6);
    let x = match k { 0 => 0.0f32, 1 => 1.0, 2 => 0.5, 3 => c.r.range(-0.5, 1.5) as f32, _ => c.r.range(0.0, 1.0) as f32 };
    c.log(x.to_bits());
    x
}
fn zq() -> XMVECTOR { xv([9.0; 4]) }
fn q4(c: &mut Case, w: &str, g: XMVECTOR, e: &D4, tol: f64) { c.near4(w, g, *e, [tol; 4]); }

pub fn run(m: &mut Mon) {
    let n = 4000;
    // ---- predicates and exact operations on arbitrary bit patterns
    m.run("XMQuaternionEqual", n * 2, |c| {
        let a = c.any4();
        let mut b = if c.coin() { a } else { c.any4() };
        if c.coin() { let i = c.idx(4) as usize; b[i] = c.any(); }
        let e = (0..4).all(|i| a[i] == b[i]);
        c.eq_bool("equal", XMQuaternionEqual(xv(a), xv(b)), e);
        c.eq_bool("not equal", XMQuaternionNotEqual(xv(a), xv(b)), !e);
    });
    m.run("XMQuaternionIsNaN", n, |c| {
        let mut a = c.fin4();
        if c.coin() { let i = c.idx(4) as usize; a[i] = c.any(); }
        c.eq_bool("isnan", XMQuaternionIsNaN(xv(a)), a.iter().any(|x| x.is_nan()));
        c.eq_bool("isinf", XMQuaternionIsInfinite(xv(a)), a.iter().any(|x| x.is_infinite()));
        let mut b = [0.0f32, 0.0, 0.0, 1.0];
        for i in 0..4 { if c.r.chance(1, 6) { b[i] = c.any(); } else if i < 3 && c.coin() { b[i] = -0.0; } }
        c.eq_bool("isidentity", XMQuaternionIsIdentity(xv(b)), b[0] == 0.0 && b[1] == 0.0 && b[2] == 0.0 && b[3] == 1.0);
        c.bits4("identity", XMQuaternionIdentity(), b4([0.0, 0.0, 0.0, 1.0]));
    });
    m.run("XMQuaternionConjugate", n, |c| {
        let a = c.any4();
        c.val4("conjugate", XMQuaternionConjugate(xv(a)), [-a[0], -a[1], -a[2], a[3]]);
    });
    // ---- metric
    m.run("XMQuaternionDot", n, |c| {
        let (a, b) = (c.scn(4, -15.0, 15.0), c.scn(4, -15.0, 15.0));
        let (x, y) = (d4(a), d4(b));
        c.splat("dot", XMQuaternionDot(xv(a), xv(b)), dotn(&x, &y, 4), 4.0 * EPS * adotn(&x, &y, 4));
        let l = lenn(&x, 4);
        c.splat("lengthsq", XMQuaternionLengthSq(xv(a)), l * l, 4.0 * EPS * l * l);
        c.splat("length", XMQuaternionLength(xv(a)), l, 4.0 * EPS * l);
        if l > 1e-12 {
            c.splat("1/length", XMQuaternionReciprocalLength(xv(a)), 1.0 / l, 5.0 * EPS / l);
            q4(c, "normalize", XMQuaternionNormalize(xv(a)), &qnorm(x), 5.0 * EPS);
            q4(c, "normalizeEst", XMQuaternionNormalizeEst(xv(a)), &qnorm(x), 6e-4);
        }
    });
    m.run("XMQuaternionInverse", n, |c| {
        let a = c.scn(4, -16.0, 12.0);
        let x = d4(a);
        let l = dotn(&x, &x, 4);
        let th = 1.192092896e-7;
        if (l - th).abs() < 1e-3 * th { return c.skip(); }
        let e = if l <= th { [0.0; 4] } else { qconj(x).map(|v| v / l) };
        let t = if l <= th { [0.0; 4] } else { e.map(|v| 6.0 * EPS * v.abs()) };
        c.near4("inverse", XMQuaternionInverse(xv(a)), e, t);
        if l > th {
            let p = XMQuaternionMultiply(xv(a), XMQuaternionInverse(xv(a)));
            q4(c, "q*inverse", p, &[0.0, 0.0, 0.0, 1.0], 16.0 * EPS);
        }
    });
    m.run("XMQuaternionMultiply", n * 2, |c| {
        let (a, b) = if c.coin() { (c.scn(4, -15.0, 15.0), c.scn(4, -15.0, 15.0)) } else { (c.md4(), c.md4()) };
        let (x, y) = (d4(a), d4(b));
        // first rotation Q1, then Q2: Hamilton product Q2*Q1
        let e = qmul(y, x);
        let s = lenn(&x, 4) * lenn(&y, 4);
        q4(c, "product", XMQuaternionMultiply(xv(a), xv(b)), &e, 5.0 * EPS * s);
    });
    // ---- construction
    m.run("XMQuaternionRotationNormal", n, |c| {
        let a = c.unitn(3);
        let t = angle(c);
        let e = axis_q(d3(a), t as f64);
        let tol = 1e-6 + 2.0 * EPS * (t as f64).abs();
        q4(c, "rotation normal", XMQuaternionRotationNormal(xv(a), t), &e, tol);
    });
    m.run("XMQuaternionRotationAxis", n, |c| {
        let a = c.scn(3, -12.0, 12.0);
        let l = len3(d3(a));
        if l < 1e-6 { return c.skip(); }
        let t = angle(c);
        let e = axis_q(norm3(d3(a)), t as f64);
        q4(c, "rotation axis", XMQuaternionRotationAxis(xv(a), t), &e, 1e-6 + 2.0 * EPS * (t as f64).abs());
    });
    m.run("XMQuaternionRotationRollPitchYaw", n, |c| {
        let (p, y, r) = (angle(c), angle(c), angle(c));
        let j = c.junk();
        // roll about z first, then pitch about x, then yaw about y
        let qz = axis_q([0.0, 0.0, 1.0], r as f64);
        let qx = axis_q([1.0, 0.0, 0.0], p as f64);
        let qy = axis_q([0.0, 1.0, 0.0], y as f64);
        let e = qmul(qmul(qy, qx), qz);
        let t = 1.5e-6 + 2.0 * EPS * (p.abs() + y.abs() + r.abs()) as f64;
        q4(c, "rpy", XMQuaternionRotationRollPitchYaw(p, y, r), &e, t);
        let j = if j.is_finite() { j } else { 3.0 };
        q4(c, "rpy vector", XMQuaternionRotationRollPitchYawFromVector(xv([p, y, r, j])), &e, t);
    });
    m.run("XMQuaternionRotationMatrix", n * 2, |c| {
        let q = unitq(c, None);
        let qd = qnorm(d4(q));
        let mut mm = qmat(qd).map(f4);
        // only the upper 3x3 block matters
        for i in 0..3 { mm[i][3] = c.md(); }
        mm[3] = [c.md(), c.md(), c.md(), c.md()];
        let g = XMQuaternionRotationMatrix(xm(mm));
        let gv = d4(vf(g));
        let s = if dotn(&gv, &qd, 4) < 0.0 { -1.0 } else { 1.0 };
        q4(c, "quaternion of matrix", g, &qd.map(|x| x * s), 1.2e-6);
    });
    m.run("XMQuaternionToAxisAngle", n, |c| {
        let q = unitq(c, None);
        let (mut a, mut t) = (zq(), 0.0f32);
        XMQuaternionToAxisAngle(&mut a, &mut t, xv(q));
        c.bits4("axis", a, b4(q));
        c.near("angle", t, 2.0 * (q[3] as f64).clamp(-1.0, 1.0).acos(), 3e-6);
    });
    // ---- rotation of vectors
    m.run("XMVector3Rotate", n * 2, |c| {
        let q = unitq(c, None);
        let v = c.scn(3, -15.0, 15.0);
        let l = len3(d3(v));
        let e = qrot(d4(q), d3(v));
        let g = vf(XMVector3Rotate(xv(v), xv(q)));
        for i in 0..3 { c.near("rotate", g[i], e[i], 10.0 * EPS * l); }
        let e = qrot(qconj(d4(q)), d3(v));
        let g2 = XMVector3InverseRotate(xv(v), xv(q));
        for i in 0..3 { c.near("inverse rotate", vf(g2)[i], e[i], 10.0 * EPS * l); }
        let back = vf(XMVector3Rotate(g2, xv(q)));
        for i in 0..3 { c.near("rotate(inverse rotate)", back[i], v[i] as f64, 24.0 * EPS * l); }
    });
    // ---- logarithm / exponential
    m.run("XMQuaternionLn", n, |c| {
        let mut q = unitq(c, Some([0.0, 0.0, 0.0, 1.0]));
        let w = q[3] as f64;
        if (w.abs() - 0.99999).abs() < 3e-7 { return c.skip(); }
        let e = ln(d4(q));
        let s = (1.0 - (w * w).min(1.0)).sqrt();
        let t = if w.abs() < 0.99999 { 4e-6 + 3e-6 * e[..3].iter().fold(0.0f64, |a, x| a.max(x.abs())) / s * (if w < 0.0 { 1.0 } else { s }) } else { 0.0 };
        q4(c, "ln", XMQuaternionLn(xv(q)), &e, t);
    });
    m.run("XMQuaternionExp", n, |c| {
        let v = if c.coin() { c.scn(3, -20.0, 2.0) } else { c.mdn(3) };
        let w = c.junk(); // the fourth lane is documented to be ignored
        let e = exp([v[0] as f64, v[1] as f64, v[2] as f64, 0.0]);
        let l = len3(d3(v));
        if l > 1e4 { return c.skip(); } // beyond the accurate range of the sine
        let g = XMQuaternionExp(xv([v[0], v[1], v[2], w]));
        q4(c, "exp", g, &e, 2e-6 + 6.0 * EPS * l);
        // a small rotation keeps its axis and relative size
        if l < 0.5 { for i in 0..3 { c.near_nt("exp of a small rotation", vf(g)[i], e[i], 8.0 * EPS * e[i].abs()); } }
    });
    // ---- interpolation
    m.run("XMQuaternionSlerp", n * 2, |c| {
        let a = unitq(c, None);
        let b = unitq(c, Some(a));
        let t = par(c);
        let Some(e) = slerp(d4(a), d4(b), t as f64) else { return c.skip(); };
        let g = XMQuaternionSlerp(xv(a), xv(b), t);
        // nearly equal rotations (within 0.26 degrees) may be blended linearly
        let tol = if dotn(&d4(a), &d4(b), 4).abs() > 0.99998 { 1.2e-5 } else { 4e-6 };
        q4(c, "slerp", g, &e, tol);
        let g = XMQuaternionSlerpV(xv(a), xv(b), xv([t; 4]));
        q4(c, "slerpV", g, &e, tol);
    });
    m.run("XMQuaternionSquad", n, |c| {
        let a = unitq(c, None);
        let (b, d, f) = (unitq(c, Some(a)), unitq(c, Some(a)), unitq(c, Some(a)));
        let t = c.uni(0.0, 1.0);
        let td = t as f64;
        let r = (|| { let p = slerp(d4(a), d4(f), td)?; let q = slerp(d4(b), d4(d), td)?; slerp(p, q, 2.0 * td * (1.0 - td)) })();
        let Some(e) = r else { return c.skip(); };
        q4(c, "squad", XMQuaternionSquad(xv(a), xv(b), xv(d), xv(f), t), &e, 2.5e-5);
        q4(c, "squadV", XMQuaternionSquadV(xv(a), xv(b), xv(d), xv(f), xv([t; 4])), &e, 2.5e-5);
    });
    m.run("XMQuaternionSquadSetup", n, |c| {
        let q1 = unitq(c, None);
        let (q0, q2, q3) = (unitq(c, Some(q1)), unitq(c, Some(q1)), unitq(c, Some(q1)));
        let (x0, x1, x2, x3) = (d4(q0), d4(q1), d4(q2), d4(q3));
        let neg = |q: D4| q.map(|x| -x);
        let d12 = dotn(&x1, &x2, 4);
        let s2 = if d12 < 0.0 { neg(x2) } else { x2 };
        let d01 = dotn(&x0, &x1, 4);
        let d23 = dotn(&s2, &x3, 4);
        if [d12, d01, d23].iter().any(|d| d.abs() < 1e-3) { return c.skip(); }
        let s0 = if d01 < 0.0 { neg(x0) } else { x0 };
        let s3 = if d23 < 0.0 { neg(x3) } else { x3 };
        let rel = |a: D4, b: D4| qmul(b, qconj(a)); // library product order (a^-1 then b)
        let l = [rel(x1, s0), rel(x1, s2), rel(s2, x1), rel(s2, s3)];
        let l = l.map(ln);
        let e02 = exp([0, 1, 2, 3].map(|i| -0.25 * (l[0][i] + l[1][i])));
        let e13 = exp([0, 1, 2, 3].map(|i| -0.25 * (l[2][i] + l[3][i])));
        let (ea, eb) = (qmul(e02, x1), qmul(e13, s2));
        let (mut a, mut b, mut d) = (zq(), zq(), zq());
        XMQuaternionSquadSetup(&mut a, &mut b, &mut d, xv(q0), xv(q1), xv(q2), xv(q3));
        q4(c, "squad setup A", a, &ea, 3e-6);
        q4(c, "squad setup B", b, &eb, 3e-6);
        q4(c, "squad setup C", d, &s2, 0.0);
    });
    m.run("XMQuaternionBaryCentric", n, |c| {
        let a = unitq(c, None);
        let (b, d) = (unitq(c, Some(a)), unitq(c, Some(a)));
        let (f, g) = match c.idx(6) { 0 => { let x = c.uni(-0.4, 0.4); (x, -x) } 1 => { let x = c.uni(-0.5, 1.0); if c.coin() { (x, 0.0) } else { (0.0, x) } } 2 => (c.uni(-0.6, 0.0), c.uni(-0.6, 0.0)), _ => (c.uni(0.0, 0.8), c.uni(0.0, 0.8)) };
        let s = (f + g) as f64;
        if s != 0.0 && s.abs() < 1e-3 { return c.skip(); }
        let e = if s == 0.0 { Some(d4(a)) } else {
            (|| { let p = slerp(d4(a), d4(b), s)?; let q = slerp(d4(a), d4(d), s)?; slerp(p, q, g as f64 / s) })()
        };
        let Some(e) = e else { return c.skip(); };
        q4(c, "barycentric", XMQuaternionBaryCentric(xv(a), xv(b), xv(d), f, g), &e, 3e-5);
        q4(c, "barycentricV", XMQuaternionBaryCentricV(xv(a), xv(b), xv(d), xv([f; 4]), xv([g; 4])), &e, 3e-5);
    });
}
