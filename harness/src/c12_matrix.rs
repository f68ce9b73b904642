//! C12: matrix algebra: predicates, product, transpose, inverse, determinant, outer product, SRT decomposition.
use crate::core::*;
use crate::geo::*;

pub fn matrix(c: &mut Case) -> M4 {
    if c.coin() { return structured(c); }
    let k = c.idx(7);
    let mut m = [[0.0f32; 4]; 4];
    match k {
        0 => for r in 0..4 { m[r] = c.scn(4, -12.0, 12.0); },
        1 => for r in 0..4 { for j in 0..4 { m[r][j] = c.idx(9) as f32 - 4.0; } },
        2 => { // affine
            for r in 0..4 { for j in 0..3 { m[r][j] = c.md(); } }
            m[3][3] = 1.0;
        }
        3 => { // rotation + translation
            let q = c.unitn(4);
            let r = qmat(qnorm(d4(q)));
            for i in 0..4 { m[i] = f4(r[i]); }
            for j in 0..3 { m[3][j] = c.md(); }
        }
        4 => { // permutation-like / diagonal
            let s = c.idx(4) as usize;
            for r in 0..4 { m[r][(r + s) % 4] = c.md(); }
        }
        5 => { // perspective-like
            m[0][0] = c.uni(0.2, 4.0); m[1][1] = c.uni(0.2, 4.0); m[2][2] = c.uni(0.5, 2.0); m[3][2] = c.uni(-5.0, 5.0); m[2][3] = 1.0;
            m[2][0] = c.uni(-1.0, 1.0); m[2][1] = c.uni(-1.0, 1.0);
        }
        _ => for r in 0..4 { m[r] = c.md4(); },
    }
    m
}
pub fn run(m: &mut Mon) {
    let n = 4000;
    m.run("XMMatrixIsNaN", n * 2, |c| {
        let mut a = [c.fin4(), c.fin4(), c.fin4(), c.fin4()];
        for _ in 0..c.r.below(3) { let (i, j) = (c.idx(4) as usize, c.idx(4) as usize); a[i][j] = c.any(); }
        c.eq_bool("isnan", XMMatrixIsNaN(xm(a)), a.iter().flatten().any(|x| x.is_nan()));
        c.eq_bool("isinfinite", XMMatrixIsInfinite(xm(a)), a.iter().flatten().any(|x| x.is_infinite()));
    });
    m.run("XMMatrixIsIdentity", n, |c| {
        let mut a = [[0.0f32; 4]; 4];
        for i in 0..4 { for j in 0..4 { a[i][j] = if i == j { 1.0 } else if c.r.chance(1, 3) { -0.0 } else { 0.0 }; } }
        if c.r.chance(3, 4) { let (i, j) = (c.idx(4) as usize, c.idx(4) as usize); a[i][j] = if c.coin() { c.any() } else { f32::from_bits(a[i][j].to_bits() + 1) }; }
        if c.r.chance(1, 4) {
            // several deviations, also ones that cancel
            let x = c.uni(-2.0, 2.0);
            for k in 0..2 + c.idx(2) { let (i, j) = (c.idx(4) as usize, c.idx(4) as usize); a[i][j] = if i == j { 1.0 } else { 0.0 } + if k % 2 == 0 { x } else { -x }; }
        }
        let e = (0..4).all(|i| (0..4).all(|j| a[i][j] == if i == j { 1.0 } else { 0.0 }));
        c.eq_bool("isidentity", XMMatrixIsIdentity(xm(a)), e);
        let id = mf(XMMatrixIdentity());
        for i in 0..4 { for j in 0..4 { c.eq_u32("identity", id[i][j].to_bits(), if i == j { 0x3F800000 } else { 0 }); } }
        let v: Vec<f32> = (0..16).map(|_| c.any()).collect();
        let g = mf(XMMatrixSet(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]));
        for i in 0..16 { c.eq_u32("set", g[i / 4][i % 4].to_bits(), v[i].to_bits()); }
    });
    m.run("XMMatrixTranspose", n, |c| {
        let a = [c.any4(), c.any4(), c.any4(), c.any4()];
        let g = mf(XMMatrixTranspose(xm(a)));
        for i in 0..4 { for j in 0..4 { c.eq_u32("transpose", g[i][j].to_bits(), a[j][i].to_bits()); } }
    });
    m.run("XMMatrixMultiply", n * 2, |c| {
        let (a, b) = (matrix(c), matrix(c));
        let (x, y) = (d44(a), d44(b));
        let (e, t) = (mmul(&x, &y), mabs(&x, &y));
        mat_near(c, "product", XMMatrixMultiply(xm(a), &xm(b)), &e, |i, j| 4.0 * EPS * t[i][j]);
        let et = mtrans(&e);
        mat_near(c, "transposed product", XMMatrixMultiplyTranspose(xm(a), &xm(b)), &et, |i, j| 4.0 * EPS * t[j][i]);
    });
    m.run("XMMatrixMultiply[identity]", n, |c| {
        let a = matrix(c);
        let id = xm(ident().map(f4));
        for (w, g) in [("M*I", XMMatrixMultiply(xm(a), &id)), ("I*M", XMMatrixMultiply(id, &xm(a)))] {
            let g = mf(g);
            for i in 0..4 { c.ieee4(w, xv(g[i]), a[i]); }
        }
    });
    m.run("XMMatrixVectorTensorProduct", n, |c| {
        let (a, b) = (c.md4(), c.scn(4, -30.0, 30.0));
        let g = mf(XMMatrixVectorTensorProduct(xv(a), xv(b)));
        for i in 0..4 { c.ieee4("outer product", xv(g[i]), [a[i] * b[0], a[i] * b[1], a[i] * b[2], a[i] * b[3]]); }
    });
    m.run("XMMatrixDeterminant", n * 2, |c| {
        let a = matrix(c);
        let x = d44(a);
        let ab = x.map(|r| r.map(f64::abs));
        let perm = perm4(&ab);
        if perm != 0.0 && !(1e-28..1e36).contains(&perm) { return c.skip(); } // the products must neither overflow nor underflow
        c.splat("determinant", XMMatrixDeterminant(xm(a)), det4(&x), 8.0 * EPS * perm);
    });
    m.run("XMMatrixInverse", n * 2, |c| {
        let a = matrix(c);
        let x = d44(a);
        let ab = x.map(|r| r.map(f64::abs));
        let (inv, det) = minv(&x);
        let perm = perm4(&ab);
        if perm != 0.0 && !(1e-28..1e36).contains(&perm) { return c.skip(); }
        let mut d = xv([9.0; 4]);
        let g = XMMatrixInverse(Some(&mut d), xm(a));
        c.splat("determinant out", d, det, 8.0 * EPS * perm);
        if det.abs() < 1e-4 * perm || perm == 0.0 { return; }
        let adj = |i: usize, j: usize| { let mut k = [[0.0; 3]; 3]; let (mut r, mut s); r = 0; for p in 0..4 { if p == j { continue; } s = 0; for q in 0..4 { if q == i { continue; } k[r][s] = ab[p][q]; s += 1; } r += 1; } perm3(k) };
        mat_near(c, "inverse", g, &inv, |i, j| 10.0 * EPS * (adj(i, j) / det.abs() + inv[i][j].abs() * perm / det.abs()));
        let g2 = XMMatrixInverse(None, xm(a));
        for i in 0..4 { c.bits4_nt("inverse without determinant", xv(mf(g2)[i]), b4(mf(g)[i])); }
    });
    m.run("XMMatrixDecompose", n * 2, |c| {
        let q = qnorm(d4(c.unitn(4)));
        let mut s = [0.0f32; 3];
        let deg = c.idx(5);
        for i in 0..3 { s[i] = c.uni(0.1, 1.0) * (c.r.range(-6.0, 9.0).exp2() as f32); }
        let s0 = s;
        if deg == 0 { let k = c.idx(3) as usize; s[k] = 0.0; }
        if deg == 1 { let k = c.idx(3) as usize; let v = s[k]; s = [0.0; 3]; s[k] = v; }
        if c.coin() { let v = s[0]; s = [v; 3]; } // uniform
        let neg = c.idx(8);
        for i in 0..3 { if neg >> i & 1 == 1 { s[i] = -s[i]; } }
        if s.iter().any(|x| x.abs() < 2e-4 && *x != 0.0) { return c.skip(); }
        let t = c.mdn(3);
        let r = qmat(q);
        let mut a = [[0.0f32; 4]; 4];
        for i in 0..3 { for j in 0..3 { a[i][j] = (r[i][j] * s[i] as f64) as f32; } }
        a[3] = [t[0], t[1], t[2], 1.0];
        let _ = s0;
        let (mut os, mut oq, mut ot) = (xv([9.0; 4]), xv([9.0; 4]), xv([9.0; 4]));
        let ok = XMMatrixDecompose(&mut os, &mut oq, &mut ot, xm(a));
        c.check(ok, || format!("decompose of scale {:?} failed", s));
        if !ok { return; }
        let (os, oq, ot) = (vf(os), d4(vf(oq)), vf(ot));
        for i in 0..3 {
            c.near("|scale|", os[i].abs(), s[i].abs() as f64, 4.0 * EPS * s[i].abs() as f64);
            c.check(ot[i] == t[i], || format!("translation {:?} expected {:?}", ot, t));
        }
        let l = lenn(&oq, 4);
        c.check((l - 1.0).abs() < 2e-6, || format!("quaternion {:?} is not unit", oq));
        // scale * rotation reproduces the linear part
        let rr = qmat(qnorm(oq));
        for i in 0..3 { for j in 0..3 {
            let e = rr[i][j] * os[i] as f64;
            let m = a[i].iter().fold(0.0f64, |x, y| x.max(y.abs() as f64));
            c.check((e - a[i][j] as f64).abs() <= 1e-5 * m + 1e-30, || format!("scale*rotation[{}][{}] = {} expected {}", i, j, e, a[i][j]));
        } }
    });
    m.run("XMMatrixDecompose[sheared]", n, |c| {
        // a linear part whose normalised rows are far from orthogonal is not scale*rotation
        let mut a = [[0.0f32; 4]; 4];
        for i in 0..3 { for j in 0..3 { a[i][j] = c.uni(-2.0, 2.0); } }
        a[3] = [c.md(), c.md(), c.md(), 1.0];
        let rows = [0, 1, 2].map(|i| d3(a[i]));
        if rows.iter().any(|r| len3(*r) < 0.05) { return c.skip(); }
        let nrm = rows.map(norm3);
        let d = det3(nrm).abs();
        if (d - 0.99).abs() < 1e-4 { return c.skip(); }
        let (mut os, mut oq, mut ot) = (xv([9.0; 4]), xv([9.0; 4]), xv([9.0; 4]));
        let ok = XMMatrixDecompose(&mut os, &mut oq, &mut ot, xm(a));
        c.eq_bool("is scale*rotation*translation", ok, d > 0.99);
    });
}
pub fn perm3(k: [[f64; 3]; 3]) -> f64 {
    k[0][0] * (k[1][1] * k[2][2] + k[1][2] * k[2][1]) + k[0][1] * (k[1][0] * k[2][2] + k[1][2] * k[2][0]) + k[0][2] * (k[1][0] * k[2][1] + k[1][1] * k[2][0])
}
pub fn perm4(a: &D44) -> f64 {
    let mut t = 0.0;
    for j in 0..4 {
        let mut k = [[0.0; 3]; 3];
        for p in 1..4 { let mut s = 0; for q in 0..4 { if q == j { continue; } k[p - 1][s] = a[p][q]; s += 1; } }
        t += a[0][j] * perm3(k);
    }
    t
}
