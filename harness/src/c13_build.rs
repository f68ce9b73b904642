//! C13: matrix builders: translation, scaling, rotations, SRT compositions, reflection and shadow, for row vectors.
use crate::core::*;
use crate::geo::*;

pub fn angle(c: &mut Case) -> f32 {
    let k = c.idx(5);
    let x = match k {
        0 => (c.r.below(17) as f64 - 8.0) * std::f64::consts::FRAC_PI_4,
        1 => c.r.range(-30.0, 30.0),
        2 => c.r.range(-12.0, 0.0).exp2() * c.r.sign(),
        _ => c.r.range(-3.2, 3.2),
    } as f32;
    c.log(x.to_bits());
    x
}
fn tr(t: D3) -> D44 { let mut m = ident(); for j in 0..3 { m[3][j] = t[j]; } m }
fn sc(s: D3) -> D44 { let mut m = ident(); for j in 0..3 { m[j][j] = s[j]; } m }
fn rot(axis: D3, t: f64) -> D44 { let (s, k) = (0.5 * t).sin_cos(); qmat([axis[0] * s, axis[1] * s, axis[2] * s, k]) }
fn neg(a: D3) -> D3 { mul3(a, -1.0) }
fn aat(t: f32) -> f64 { 8e-7 + 2.0 * EPS * (t as f64).abs() }
/// zeros and ones of the last row / column are exact
fn affine(c: &mut Case, w: &str, g: XMMATRIX, e: &D44, tol: f64, ttol: f64) {
    let m = mf(g);
    for i in 0..3 { for j in 0..3 { c.near(w, m[i][j], e[i][j], tol); } }
    for j in 0..3 { c.near(w, m[3][j], e[3][j], ttol); }
    for i in 0..4 { let x = if i == 3 { 1.0 } else { 0.0 }; c.near(w, m[i][3], x, 0.0); }
}
fn exact(c: &mut Case, w: &str, g: XMMATRIX, e: M4) { let m = mf(g); for i in 0..4 { c.ieee4(w, xv(m[i]), e[i]); } }
fn z3(c: &mut Case, k: usize) -> (V4, D3) { // k used components, the rest must be ignored
    let v = c.mdn(k);
    let mut d = [0.0; 3];
    for i in 0..k.min(3) { d[i] = v[i] as f64; }
    (v, d)
}
/// a quaternion argument and the (linear) map the documented formula assigns to it
fn uq(c: &mut Case) -> (V4, D44) { let q = c.unitn(4); (q, qmat(d4(q))) }

pub fn run(m: &mut Mon) {
    let n = 4000;
    m.run("XMMatrixTranslation", n, |c| {
        let v = c.fin4();
        let mut e = ident().map(f4);
        for j in 0..3 { e[3][j] = v[j]; }
        exact(c, "translation", XMMatrixTranslation(v[0], v[1], v[2]), e);
        let j = c.junk();
        exact(c, "translation from vector", XMMatrixTranslationFromVector(xv([v[0], v[1], v[2], j])), e);
        let mut e = ident().map(f4);
        for j in 0..3 { e[j][j] = v[j]; }
        exact(c, "scaling", XMMatrixScaling(v[0], v[1], v[2]), e);
        exact(c, "scaling from vector", XMMatrixScalingFromVector(xv([v[0], v[1], v[2], j])), e);
    });
    m.run("XMMatrixRotationXYZ", n, |c| {
        let t = angle(c);
        affine(c, "rotation x", XMMatrixRotationX(t), &rot([1.0, 0.0, 0.0], t as f64), aat(t), 0.0);
        affine(c, "rotation y", XMMatrixRotationY(t), &rot([0.0, 1.0, 0.0], t as f64), aat(t), 0.0);
        affine(c, "rotation z", XMMatrixRotationZ(t), &rot([0.0, 0.0, 1.0], t as f64), aat(t), 0.0);
    });
    m.run("XMMatrixRotationNormal", n, |c| {
        let a = c.unitn(3);
        let t = angle(c);
        affine(c, "rotation normal", XMMatrixRotationNormal(xv(a), t), &rot(norm3(d3(a)), t as f64), 2.0 * aat(t), 0.0);
    });
    m.run("XMMatrixRotationAxis", n, |c| {
        let a = c.scn(3, -12.0, 12.0);
        if len3(d3(a)) < 1e-6 { return c.skip(); }
        let t = angle(c);
        affine(c, "rotation axis", XMMatrixRotationAxis(xv(a), t), &rot(norm3(d3(a)), t as f64), 2.0 * aat(t), 0.0);
    });
    m.run("XMMatrixRotationQuaternion", n * 2, |c| {
        let (q, e) = uq(c);
        affine(c, "rotation quaternion", XMMatrixRotationQuaternion(xv(q)), &e, 6.0 * EPS, 0.0);
    });
    m.run("XMMatrixRotationRollPitchYaw", n, |c| {
        let (p, y, r) = (angle(c), angle(c), angle(c));
        let j = c.md();
        let e = mmul(&mmul(&rot([0.0, 0.0, 1.0], r as f64), &rot([1.0, 0.0, 0.0], p as f64)), &rot([0.0, 1.0, 0.0], y as f64));
        let t = 2.0 * (aat(p) + aat(y) + aat(r));
        affine(c, "rpy", XMMatrixRotationRollPitchYaw(p, y, r), &e, t, 0.0);
        affine(c, "rpy vector", XMMatrixRotationRollPitchYawFromVector(xv([p, y, r, j])), &e, t, 0.0);
    });
    m.run("XMMatrixTransformation", n, |c| {
        // S about a scaling origin/orientation, then R about a rotation origin, then T
        let (so, sod) = z3(c, 3);
        let (oq, om) = uq(c);
        let (s, sd) = z3(c, 3);
        let (ro, rod) = z3(c, 3);
        let (rq, rm) = uq(c);
        let (t, td) = z3(c, 3);
        let mut e = mmul(&tr(neg(sod)), &mtrans(&om));
        for x in [sc(sd), om, tr(sod), tr(neg(rod)), rm, tr(rod), tr(td)] { e = mmul(&e, &x); }
        let k = 1.0 + max3(sd);
        let mag = max3(sod) * k + max3(rod) + max3(td) + 1.0;
        affine(c, "transformation", XMMatrixTransformation(xv(so), xv(oq), xv(s), xv(ro), xv(rq), xv(t)), &e, 30.0 * EPS * k, 60.0 * EPS * mag);
    });
    m.run("XMMatrixAffineTransformation", n, |c| {
        let (s, sd) = z3(c, 3);
        let (ro, rod) = z3(c, 3);
        let (rq, rm) = uq(c);
        let (t, td) = z3(c, 3);
        let mut e = sc(sd);
        for x in [tr(neg(rod)), rm, tr(rod), tr(td)] { e = mmul(&e, &x); }
        affine(c, "affine transformation", XMMatrixAffineTransformation(xv(s), xv(ro), xv(rq), xv(t)), &e, 10.0 * EPS * (1.0 + max3(sd)), 20.0 * EPS * (max3(rod) + max3(td) + 1e-30));
    });
    m.run("XMMatrixTransformation2D", n, |c| {
        let (so, sod) = z3(c, 2);
        let oa = angle(c);
        let (s, mut sd) = z3(c, 2);
        let (ro, rod) = z3(c, 2);
        let ra = angle(c);
        let (t, td) = z3(c, 2);
        sd[2] = 1.0;
        let om = rot([0.0, 0.0, 1.0], oa as f64);
        let mut e = mmul(&tr(neg(sod)), &mtrans(&om));
        for x in [sc(sd), om, tr(sod), tr(neg(rod)), rot([0.0, 0.0, 1.0], ra as f64), tr(rod), tr(td)] { e = mmul(&e, &x); }
        let k = 1.0 + max3(sd);
        let mag = max3(sod) * k + max3(rod) + max3(td) + 1.0;
        let tt = 30.0 * EPS + 2.0 * (aat(oa) + aat(ra));
        affine(c, "transformation 2d", XMMatrixTransformation2D(xv(so), oa, xv(s), xv(ro), ra, xv(t)), &e, tt * k, 2.0 * tt * mag);
    });
    m.run("XMMatrixAffineTransformation2D", n, |c| {
        let (s, mut sd) = z3(c, 2);
        let (ro, rod) = z3(c, 2);
        let ra = angle(c);
        let (t, td) = z3(c, 2);
        sd[2] = 1.0;
        let mut e = sc(sd);
        for x in [tr(neg(rod)), rot([0.0, 0.0, 1.0], ra as f64), tr(rod), tr(td)] { e = mmul(&e, &x); }
        let tt = 10.0 * EPS + 2.0 * aat(ra);
        affine(c, "affine transformation 2d", XMMatrixAffineTransformation2D(xv(s), xv(ro), ra, xv(t)), &e, tt * (1.0 + max3(sd)), 2.0 * tt * (max3(rod) + max3(td)) + 1e-30);
    });
    m.run("XMMatrixReflect", n, |c| {
        let mut p = c.md4();
        let s = c.r.range(-6.0, 6.0).exp2() as f32;
        for i in 0..4 { p[i] *= s; c.log(p[i].to_bits()); }
        let l = len3(d3(p));
        if l < 1e-4 { return c.skip(); }
        let pn = d4(p).map(|x| x / l);
        let mut e = ident();
        for i in 0..4 { for j in 0..3 { e[i][j] -= 2.0 * pn[i] * pn[j]; } }
        affine(c, "reflection", XMMatrixReflect(xv(p)), &e, 10.0 * EPS, 10.0 * EPS * pn[3].abs() + 1e-30);
    });
    m.run("XMMatrixShadow", n, |c| {
        let p = c.md4();
        let mut lt = c.md4();
        if c.coin() { lt[3] = if c.coin() { 1.0 } else { 0.0 }; }
        let l = len3(d3(p));
        if l < 1e-3 { return c.skip(); }
        let pn = d4(p).map(|x| x / l);
        let ld = d4(lt);
        let d = dotn(&pn, &ld, 4);
        let ad = adotn(&pn, &ld, 4);
        let mut e = [[0.0; 4]; 4];
        for i in 0..4 { for j in 0..4 { e[i][j] = -pn[i] * ld[j] + if i == j { d } else { 0.0 }; } }
        mat_near(c, "shadow", XMMatrixShadow(xv(p), xv(lt)), &e, |i, j| 10.0 * EPS * ((pn[i] * ld[j]).abs() + if i == j { ad } else { 0.0 }));
    });
}
