//! C14: view and projection matrices (left/right handed) and viewport projection / unprojection.
use crate::core::*;
use crate::geo::*;

fn ex(c: &mut Case, w: &str, g: XMMATRIX, e: D44, rel: f64, extra: &[(usize, usize, f64)]) {
    let m = mf(g);
    for i in 0..4 { for j in 0..4 {
        let x = extra.iter().find(|t| t.0 == i && t.1 == j).map(|t| t.2).unwrap_or(0.0);
        let tol = if e[i][j] == 0.0 && x == 0.0 { 0.0 } else { rel * EPS * e[i][j].abs() + x };
        c.near(w, m[i][j], e[i][j], tol);
    } }
}
fn depth(c: &mut Case) -> (f32, f32) {
    loop {
        let a = (c.r.range(-8.0, 3.0).exp2()) as f32;
        let b = (a as f64 * c.r.range(0.05, 14.0).exp2()) as f32;
        if (b - a).abs() < 1e-3 { continue; }
        // FarZ < NearZ is the reversed-depth convention and legal
        let (a, b) = if c.r.chance(1, 4) { (b, a) } else { (a, b) };
        c.log(a.to_bits()); c.log(b.to_bits());
        return (a, b);
    }
}
fn size(c: &mut Case) -> f32 {
    let x = (c.r.range(-6.0, 11.0).exp2()) as f32;
    c.log(x.to_bits());
    x
}
fn look(eye: D3, dir: D3, up: D3) -> (D44, f64) {
    let r2 = norm3(dir);
    let cr = cross3(norm3(up), r2);
    let s = len3(cr);
    let r0 = norm3(cr);
    let r1 = cross3(r2, r0);
    let mut m = ident();
    for i in 0..3 { m[i][0] = r0[i]; m[i][1] = r1[i]; m[i][2] = r2[i]; }
    m[3][0] = -dot3(r0, eye); m[3][1] = -dot3(r1, eye); m[3][2] = -dot3(r2, eye);
    (m, s)
}
pub fn run(m: &mut Mon) {
    let n = 5000;
    m.run("XMMatrixLook", n * 2, |c| {
        let (eye, up) = (c.mdn(3), c.mdn(3));
        let dir = c.scn(3, -8.0, 8.0);
        let foc = c.mdn(3);
        let (e, u) = (d3(eye), d3(up));
        for (w, k) in [("LookToLH", 0), ("LookToRH", 1), ("LookAtLH", 2), ("LookAtRH", 3)] {
            let mut d = if k < 2 { d3(dir) } else { sub3(d3(foc), e) };
            let cond = if k < 2 { 1.0 } else { (max3(e) + max3(d3(foc))) / len3(d).max(1e-30) };
            if k & 1 == 1 { d = mul3(d, -1.0); }
            if len3(u) < 1e-3 || len3(d) < 1e-4 { continue; }
            let (x, s) = look(e, d, u);
            if !(s > 0.02) || cond > 1e3 { continue; }
            let g = match k {
                0 => XMMatrixLookToLH(xv(eye), xv(dir), xv(up)),
                1 => XMMatrixLookToRH(xv(eye), xv(dir), xv(up)),
                2 => XMMatrixLookAtLH(xv(eye), xv(foc), xv(up)),
                _ => XMMatrixLookAtRH(xv(eye), xv(foc), xv(up)),
            };
            let t = 8.0 * EPS * (1.0 + cond) / s;
            let mg = mf(g);
            for i in 0..3 { for j in 0..3 { c.near(w, mg[i][j], x[i][j], t); } }
            for j in 0..3 { c.near(w, mg[3][j], x[3][j], (t + 4.0 * EPS) * 2.0 * max3(e)); }
            for i in 0..4 { c.near(w, mg[i][3], x[i][3], 0.0); }
        }
    });
    m.run("XMMatrixPerspective", n, |c| {
        let (w, h) = (size(c), size(c));
        let (a, b) = depth(c);
        let (wd, hd, nz, fz) = (w as f64, h as f64, a as f64, b as f64);
        let r = fz / (fz - nz);
        let x = [[2.0 * nz / wd, 0.0, 0.0, 0.0], [0.0, 2.0 * nz / hd, 0.0, 0.0], [0.0, 0.0, r, 1.0], [0.0, 0.0, -r * nz, 0.0]];
        ex(c, "PerspectiveLH", XMMatrixPerspectiveLH(w, h, a, b), x, 4.0, &[]);
        let x = [x[0], x[1], [0.0, 0.0, -r, -1.0], [0.0, 0.0, -r * nz, 0.0]];
        ex(c, "PerspectiveRH", XMMatrixPerspectiveRH(w, h, a, b), x, 4.0, &[]);
    });
    m.run("XMMatrixPerspectiveFov", n, |c| {
        let fov = c.uni(0.01, 3.1);
        let asp = (c.r.range(-4.0, 4.0).exp2()) as f32;
        c.log(asp.to_bits());
        let (a, b) = depth(c);
        let (nz, fz) = (a as f64, b as f64);
        let (s, k) = (0.5 * fov as f64).sin_cos();
        let h = k / s;
        let r = fz / (fz - nz);
        let wd = h / asp as f64;
        let e = 5e-7 / s + 5e-7 * h / s; // absolute error of sin and cos
        let x = [[wd, 0.0, 0.0, 0.0], [0.0, h, 0.0, 0.0], [0.0, 0.0, r, 1.0], [0.0, 0.0, -r * nz, 0.0]];
        ex(c, "PerspectiveFovLH", XMMatrixPerspectiveFovLH(fov, asp, a, b), x, 4.0, &[(0, 0, e / asp as f64), (1, 1, e)]);
        let x = [x[0], x[1], [0.0, 0.0, -r, -1.0], [0.0, 0.0, -r * nz, 0.0]];
        ex(c, "PerspectiveFovRH", XMMatrixPerspectiveFovRH(fov, asp, a, b), x, 4.0, &[(0, 0, e / asp as f64), (1, 1, e)]);
    });
    m.run("XMMatrixPerspectiveOffCenter", n, |c| {
        let (l, bt) = (c.md(), c.md());
        let (w, h) = (size(c), size(c));
        let (r, t) = if c.coin() { (l + w, bt + h) } else { (l - w, bt - h) };
        let (a, b) = depth(c);
        let (nz, fz) = (a as f64, b as f64);
        let (ld, rd, bd, td) = (l as f64, r as f64, bt as f64, t as f64);
        if (rd - ld).abs() < 1e-3 || (td - bd).abs() < 1e-3 { return c.skip(); }
        let q = fz / (fz - nz);
        let (rw, rh) = (1.0 / (rd - ld), 1.0 / (td - bd));
        let ex2 = [(2, 0, 4.0 * EPS * (ld.abs() + rd.abs()) * rw.abs()), (2, 1, 4.0 * EPS * (bd.abs() + td.abs()) * rh.abs())];
        let x = [[2.0 * nz * rw, 0.0, 0.0, 0.0], [0.0, 2.0 * nz * rh, 0.0, 0.0], [-(ld + rd) * rw, -(td + bd) * rh, q, 1.0], [0.0, 0.0, -q * nz, 0.0]];
        ex(c, "OffCenterLH", XMMatrixPerspectiveOffCenterLH(l, r, bt, t, a, b), x, 5.0, &ex2);
        let x = [x[0], x[1], [(ld + rd) * rw, (td + bd) * rh, -q, -1.0], [0.0, 0.0, -q * nz, 0.0]];
        ex(c, "OffCenterRH", XMMatrixPerspectiveOffCenterRH(l, r, bt, t, a, b), x, 5.0, &ex2);
    });
    m.run("XMMatrixOrthographic", n, |c| {
        let (w, h) = (size(c), size(c));
        let (a, b) = if c.coin() { depth(c) } else { let a = c.md(); let d = size(c); (a, a + d) };
        let (wd, hd, nz, fz) = (w as f64, h as f64, a as f64, b as f64);
        if (fz - nz).abs() < 1e-3 { return c.skip(); }
        let r = 1.0 / (fz - nz);
        let x = [[2.0 / wd, 0.0, 0.0, 0.0], [0.0, 2.0 / hd, 0.0, 0.0], [0.0, 0.0, r, 0.0], [0.0, 0.0, -r * nz, 1.0]];
        ex(c, "OrthographicLH", XMMatrixOrthographicLH(w, h, a, b), x, 4.0, &[]);
        let x = [x[0], x[1], [0.0, 0.0, -r, 0.0], [0.0, 0.0, -r * nz, 1.0]];
        ex(c, "OrthographicRH", XMMatrixOrthographicRH(w, h, a, b), x, 4.0, &[]);
    });
    // ---- viewport projection and its inverse
    let scene = |c: &mut Case| -> Option<(M4, M4, M4, D44, V4, [f32; 6])> {
        let q = qnorm(d4(c.unitn(4)));
        let mut w = qmat(q);
        let s = c.r.range(-2.0, 2.0).exp2();
        for i in 0..3 { for j in 0..3 { w[i][j] *= s; } w[3][i] = c.r.range(-5.0, 5.0); }
        let eye = [c.r.range(-20.0, 20.0), c.r.range(-20.0, 20.0), c.r.range(-20.0, 20.0)];
        let dir = d3(c.unitn(3));
        let (v, sn) = look(eye, dir, [0.1, 1.0, 0.05]);
        if sn < 0.2 { return None; }
        let (nz, fz) = (c.r.range(0.2, 2.0), c.r.range(5.0, 100.0));
        let r = fz / (fz - nz);
        let p: D44 = if c.coin() {
            [[c.r.range(0.5, 3.0), 0.0, 0.0, 0.0], [0.0, c.r.range(0.5, 3.0), 0.0, 0.0], [c.r.range(-0.4, 0.4), c.r.range(-0.4, 0.4), r, 1.0], [0.0, 0.0, -r * nz, 0.0]]
        } else {
            [[c.r.range(0.05, 3.0), 0.0, 0.0, 0.0], [0.0, c.r.range(0.05, 3.0), 0.0, 0.0], [0.0, 0.0, 1.0 / (fz - nz), 0.0], [0.0, 0.0, -nz / (fz - nz), 1.0]]
        };
        let (wf, vf_, pf) = (w.map(f4), v.map(f4), p.map(f4));
        for r in [wf, vf_, pf] { for x in r.iter().flatten() { c.log(x.to_bits()); } }
        let full = mmul(&mmul(&d44(wf), &d44(vf_)), &d44(pf));
        // a point in front of the eye
        let vp = [c.r.range(-1.0, 1.0), c.r.range(-1.0, 1.0), c.r.range(0.3, 1.0)].map(|x| x * fz);
        let (iv, _) = minv(&mmul(&d44(wf), &d44(vf_)));
        let pt = f4(vmul(&[vp[0], vp[1], vp[2], 1.0], &iv));
        let j = c.junk();
        let pt = [pt[0], pt[1], pt[2], j];
        for x in pt { c.log(x.to_bits()); }
        let vp = [c.r.range(-50.0, 50.0), c.r.range(-50.0, 50.0), c.r.range(100.0, 2000.0), c.r.range(100.0, 2000.0), c.r.range(0.0, 0.3), c.r.range(0.6, 1.0)].map(|x| x as f32);
        for x in vp { c.log(x.to_bits()); }
        Some((wf, vf_, pf, full, pt, vp))
    };
    m.run("XMVector3Project", n, |c| {
        let Some((w, v, p, full, pt, vp)) = scene(c) else { return c.skip(); };
        let x = [pt[0] as f64, pt[1] as f64, pt[2] as f64, 1.0];
        let r = vmul(&x, &full);
        let (wv, pv) = (mabs(&d44(w), &d44(v)), d44(p));
        let ab = vabs(&x, &mabs(&wv, &pv));
        if r[3].abs() < 0.05 { return c.skip(); }
        let vd = vp.map(|x| x as f64);
        let e = [vd[0] + vd[2] * 0.5 * (1.0 + r[0] / r[3]), vd[1] + vd[3] * 0.5 * (1.0 - r[1] / r[3]), vd[4] + (vd[5] - vd[4]) * r[2] / r[3]];
        let g = vf(XMVector3Project(xv(pt), vp[0], vp[1], vp[2], vp[3], vp[4], vp[5], xm(p), &xm(v), &xm(w)));
        let sc = [vd[2] * 0.5, vd[3] * 0.5, vd[5] - vd[4]];
        for i in 0..3 {
            let tol = 10.0 * EPS * sc[i] * (ab[i] + ab[3] * (r[i] / r[3]).abs()) / r[3].abs() + 4.0 * EPS * (vd[i % 2].abs() + sc[i] * (1.0 + (r[i] / r[3]).abs()) + 1.0);
            c.near("project", g[i], e[i], tol);
        }
    });
    m.run("XMVector3Unproject", n, |c| {
        let Some((w, v, p, full, pt, vp)) = scene(c) else { return c.skip(); };
        let x = [pt[0] as f64, pt[1] as f64, pt[2] as f64, 1.0];
        let r = vmul(&x, &full);
        if r[3].abs() < 0.05 { return c.skip(); }
        let vd = vp.map(|x| x as f64);
        let scr = f4([vd[0] + vd[2] * 0.5 * (1.0 + r[0] / r[3]), vd[1] + vd[3] * 0.5 * (1.0 - r[1] / r[3]), vd[4] + (vd[5] - vd[4]) * r[2] / r[3], 0.0]);
        for q in scr { c.log(q.to_bits()); }
        // exact preimage of the rounded screen position
        let ndc = [(scr[0] as f64 - vd[0]) / (vd[2] * 0.5) - 1.0, 1.0 - (scr[1] as f64 - vd[1]) / (vd[3] * 0.5), (scr[2] as f64 - vd[4]) / (vd[5] - vd[4]), 1.0];
        let (inv, _) = minv(&full);
        let q = vmul(&ndc, &inv);
        // first-order sensitivity to rounding in the device coordinates and in the composed matrix
        let wv = mabs(&d44(w), &d44(v));
        let fa = mabs(&wv, &d44(p));
        let ai = inv.map(|r| r.map(f64::abs));
        let dn = [2.0 * EPS * (4.0 + (scr[0].abs() as f64 + vd[0].abs()) / (vd[2] * 0.5)), 2.0 * EPS * (4.0 + (scr[1].abs() as f64 + vd[1].abs()) / (vd[3] * 0.5)), 2.0 * EPS * (2.0 + 4.0 * (scr[2].abs() as f64 + vd[4]) / (vd[5] - vd[4])), 0.0];
        let an = ndc.map(f64::abs);
        let fullabs = mabs(&mabs(&ai, &fa), &ai); // |inv| |F| |inv|
        let mut dq = [0.0; 4];
        for j in 0..4 { for i in 0..4 { dq[j] += dn[i] * ai[i][j] + 6.0 * EPS * an[i] * fullabs[i][j]; } }
        let g = vf(XMVector3Unproject(xv(scr), vp[0], vp[1], vp[2], vp[3], vp[4], vp[5], xm(p), &xm(v), &xm(w)));
        if dq[3] > 0.02 * q[3].abs() { return c.skip(); }
        for i in 0..3 { c.near("unproject", g[i], q[i] / q[3], 1.5 * (dq[i] + (q[i] / q[3]).abs() * dq[3]) / q[3].abs()); }
    });
}
