//! C16: planes (construction, distance, intersection, normalisation, transformation) and the Fresnel term.
use crate::core::*;
use crate::geo::*;

fn plane(c: &mut Case) -> V4 { if c.coin() { c.md4() } else { c.scn(4, -8.0, 8.0) } }
pub fn run(m: &mut Mon) {
    let n = 5000;
    m.run("XMPlaneEqual", n * 2, |c| {
        let a = c.any4();
        let mut b = if c.coin() { a } else { c.any4() };
        if c.coin() { let i = c.idx(4) as usize; b[i] = c.any(); }
        let e = (0..4).all(|i| a[i] == b[i]);
        c.eq_bool("equal", XMPlaneEqual(xv(a), xv(b)), e);
        c.eq_bool("not equal", XMPlaneNotEqual(xv(a), xv(b)), !e);
        c.eq_bool("nan", XMPlaneIsNaN(xv(b)), b.iter().any(|x| x.is_nan()));
        c.eq_bool("infinite", XMPlaneIsInfinite(xv(b)), b.iter().any(|x| x.is_infinite()));
    });
    m.run("XMPlaneNearEqual", n, |c| {
        let a = plane(c);
        let la = len3(d3(a));
        if la < 1e-3 { return c.skip(); }
        // the same plane at another scale, perturbed
        let s = c.r.range(-4.0, 4.0).exp2();
        let mut b = f4(d4(a).map(|x| x * s));
        let k = c.r.below(4) as usize;
        if c.coin() { b[k] += (c.r.range(-16.0, 0.0).exp2() * la * s * c.r.sign()) as f32; }
        for x in b { c.log(x.to_bits()); }
        let e = c.uni(1e-4, 0.5);
        let lb = len3(d3(b));
        if lb < 1e-3 { return c.skip(); }
        let (na, nb) = (d4(a).map(|x| x / la), d4(b).map(|x| x / lb));
        let mut ok = true;
        for i in 0..4 {
            let d = (na[i] - nb[i]).abs();
            if (d - e as f64).abs() < 1e-5 * (1.0 + na[i].abs() + nb[i].abs()) { return c.skip(); }
            ok &= d <= e as f64;
        }
        c.eq_bool("near equal", XMPlaneNearEqual(xv(a), xv(b), xv([e; 4])), ok);
    });
    m.run("XMPlaneDot", n, |c| {
        let (a, v) = (plane(c), plane(c));
        let (x, y) = (d4(a), d4(v));
        c.splat("dot", XMPlaneDot(xv(a), xv(v)), dotn(&x, &y, 4), 4.0 * EPS * adotn(&x, &y, 4));
        let j = c.junk();
        let v = [v[0], v[1], v[2], j];
        c.splat("dot coord", XMPlaneDotCoord(xv(a), xv(v)), dotn(&x, &y, 3) + x[3], 4.0 * EPS * (adotn(&x, &y, 3) + x[3].abs()));
        let j = c.junk();
        let a = [a[0], a[1], a[2], j];
        c.splat("dot normal", XMPlaneDotNormal(xv(a), xv(v)), dotn(&x, &y, 3), 4.0 * EPS * adotn(&x, &y, 3));
    });
    m.run("XMPlaneNormalize", n, |c| {
        let a = if c.coin() { c.md4() } else { c.scn(4, -30.0, 30.0) };
        let x = d4(a);
        let l = len3(d3(a));
        if l < 1e-10 { return c.skip(); }
        let e = x.map(|v| v / l);
        c.near4("normalize", XMPlaneNormalize(xv(a)), e, e.map(|v| 5.0 * EPS * v.abs() + 1e-42));
        c.near4("normalizeEst", XMPlaneNormalizeEst(xv(a)), e, e.map(|v| 6e-4 * v.abs() + 1e-42));
    });
    m.run("XMPlaneFromPointNormal", n, |c| {
        let (p, q) = (c.mdn(3), c.mdn(3));
        let (x, y) = (d4(p), d4(q));
        let g = XMPlaneFromPointNormal(xv(p), xv(q));
        let e = [y[0], y[1], y[2], -dotn(&x, &y, 3)];
        c.near4("from point normal", g, e, [0.0, 0.0, 0.0, 4.0 * EPS * adotn(&x, &y, 3)]);
    });
    m.run("XMPlaneFromPoints", n, |c| {
        let (p, q, r) = (c.mdn(3), c.mdn(3), c.mdn(3));
        let (a, b, d) = (d3(p), d3(q), d3(r));
        let (u, v) = (sub3(a, b), sub3(a, d));
        let nn = cross3(u, v);
        let s = len3(nn) / (len3(u) * len3(v));
        let mag = max3(a) + max3(b) + max3(d);
        let cond = (1.0 + mag / len3(u).min(len3(v))) / s;
        if !(cond < 3e3) || !(1e-16..1e18).contains(&len3(nn)) { return c.skip(); } // the squared length must neither vanish nor overflow
        let nn = norm3(nn);
        let t = 6.0 * EPS * cond;
        c.near4("from points", XMPlaneFromPoints(xv(p), xv(q), xv(r)), [nn[0], nn[1], nn[2], -dot3(nn, a)], [t, t, t, 3.0 * t * (mag + 1e-30)]);
    });
    m.run("XMPlaneIntersectLine", n * 2, |c| {
        let pl = c.md4();
        let (p, q) = (c.mdn(3), c.mdn(3));
        let x = d4(pl);
        if c.r.chance(1, 6) {
            // exactly parallel line: the NaN vector
            let k = c.idx(3) as usize;
            let mut ax = [0.0f32; 4];
            ax[k] = 1.0; ax[3] = pl[3];
            let mut q2 = q;
            q2[k] = p[k];
            let g = vf(XMPlaneIntersectLine(xv(ax), xv(p), xv(q2)));
            c.check(g[..3].iter().all(|v| v.is_nan()), || format!("parallel line gave {:?}", g));
            return;
        }
        if c.r.chance(1, 4) {
            // a fine grid, where the height difference is exact and may fall below the library's epsilon
            let k = (-(c.idx(30) as f32)).exp2();
            let mut g = |k: f32| { let (x, y, z) = (c.idx(17), c.idx(17), c.idx(17)); [(x as f32 - 8.0) * k, (y as f32 - 8.0) * k, (z as f32 - 8.0) * k, 0.0] };
            let (n, p, q) = (g(1.0), g(k), g(k));
            let w = (c.idx(65) as f32 - 32.0) * k;
            let (nn, a, b) = (d3(n), d3(p), d3(q));
            let den = dot3(nn, a) - dot3(nn, b);
            let th = 1.192092896e-7;
            if den.abs() > 0.5 * th && den.abs() < 2.0 * th { return c.skip(); }
            let g = vf(XMPlaneIntersectLine(xv([n[0], n[1], n[2], w]), xv(p), xv(q)));
            if den.abs() < th { c.check(g[..3].iter().all(|v| v.is_nan()), || format!("line parallel within epsilon gave {:?}", g)); return; }
            let t = (dot3(nn, a) + w as f64) / den;
            for i in 0..3 { c.near("intersection", g[i], a[i] + t * (b[i] - a[i]), 8.0 * EPS * (a[i].abs() + (t * (b[i] - a[i])).abs())); }
            return;
        }
        let (a, b) = (d3(p), d3(q));
        let nn = [x[0], x[1], x[2]];
        let (d1, d2) = (dot3(nn, a), dot3(nn, b));
        let mag1: f64 = (0..3).map(|i| (nn[i] * a[i]).abs() + (nn[i] * b[i]).abs()).sum();
        let den = d1 - d2;
        if den.abs() < 1e-2 * mag1 || den.abs() < 1e-3 { return c.skip(); }
        let t = (d1 + x[3]) / den;
        let e = add3(a, mul3(sub3(b, a), t));
        let dt = 6.0 * EPS * ((mag1 + x[3].abs()) / den.abs() + t.abs() * mag1 / den.abs());
        let g = vf(XMPlaneIntersectLine(xv(pl), xv(p), xv(q)));
        for i in 0..3 { c.near("intersection", g[i], e[i], dt * (b[i] - a[i]).abs() + 4.0 * EPS * (a[i].abs() + t.abs() * (a[i].abs() + b[i].abs()))); }
    });
    m.run("XMPlaneIntersectPlane", n * 2, |c| {
        let (p, q) = (c.md4(), c.md4());
        let (mut g1, mut g2) = (xv([9.0; 4]), xv([9.0; 4]));
        if c.r.chance(1, 6) {
            // same normal direction (exact multiple): no line
            let k = c.r.pick(&[1.0f32, -1.0, 2.0, 0.5]);
            let q2 = [p[0] * k, p[1] * k, p[2] * k, q[3]];
            // cross products of exact power-of-two multiples vanish (exactly, or to one fused rounding)
            if max3(d3(p)) > 64.0 { return c.skip(); }
            XMPlaneIntersectPlane(&mut g1, &mut g2, xv(p), xv(q2));
            let (g1, g2) = (vf(g1), vf(g2));
            c.check(g1[..3].iter().chain(g2[..3].iter()).all(|v| v.is_nan()), || format!("parallel planes gave {:?} {:?}", g1, g2));
            return;
        }
        if c.r.chance(1, 4) {
            // integer normals on a fine grid: exact cross product, possibly below the library's epsilon
            let k = (-(c.idx(8) as f32)).exp2();
            let mut g = || { let (x, y, z) = (c.idx(9), c.idx(9), c.idx(9)); let w = c.idx(9); [(x as f32 - 4.0) * k, (y as f32 - 4.0) * k, (z as f32 - 4.0) * k, w as f32 - 4.0] };
            let (p, q) = (g(), g());
            let (n1, n2) = (d3(p), d3(q));
            let v = cross3(n2, n1);
            let l = dot3(v, v);
            let th = 1.192092896e-7;
            if l > 0.5 * th && l < 2.0 * th { return c.skip(); }
            XMPlaneIntersectPlane(&mut g1, &mut g2, xv(p), xv(q));
            let (g1, g2) = (vf(g1), vf(g2));
            if l < th { c.check(g1[..3].iter().chain(g2[..3].iter()).all(|v| v.is_nan()), || format!("planes parallel within epsilon gave {:?} {:?}", g1, g2)); return; }
            let (c1, c2) = (cross3(n2, v), cross3(v, n1));
            for i in 0..3 {
                let (a, b) = (c1[i] * p[3] as f64 / l, c2[i] * q[3] as f64 / l);
                let tol = 8.0 * EPS * (a.abs() + b.abs());
                c.near("line point 1", g1[i], a + b, tol);
                c.near("line point 2", g2[i], a + b + v[i], tol + 2.0 * EPS * (a + b + v[i]).abs() + 4.0 * EPS * v[i].abs());
            }
            return;
        }
        let (x, y) = (d4(p), d4(q));
        let (n1, n2) = (d3(p), d3(q));
        let v = cross3(n2, n1);
        let s = len3(v) / (len3(n1) * len3(n2));
        if !(s > 0.02) || dot3(v, v) < 1e-3 { return c.skip(); }
        XMPlaneIntersectPlane(&mut g1, &mut g2, xv(p), xv(q));
        let (g1, g2) = (d3(vf(g1)), d3(vf(g2)));
        let cond = (len3(n1) * len3(n2)).powi(2) / dot3(v, v);
        for (w, g) in [("point1", g1), ("point2", g2)] {
            for (nn, d) in [(n1, x[3]), (n2, y[3])] {
                let res = dot3(nn, g) + d;
                let tol = 30.0 * EPS * cond * (len3(nn) * (len3(g) + len3(v)) + d.abs() + len3(nn) * (x[3].abs() / len3(n1) + y[3].abs() / len3(n2)));
                c.check(res.abs() <= tol, || format!("{} {:?} is {} off a plane (tol {})", w, g, res, tol));
            }
        }
        let d = sub3(g2, g1);
        let tol = 8.0 * EPS * (len3(n1) * len3(n2) + max3(g1) + max3(g2));
        for i in 0..3 { c.near("line direction", d[i] as f32, v[i], tol); }
        // the first point is the one closest to the origin
        let e = add3(mul3(cross3(n2, v), x[3] / dot3(v, v)), mul3(cross3(v, n1), y[3] / dot3(v, v)));
        for i in 0..3 { c.near("point1", g1[i] as f32, e[i], 30.0 * EPS * cond * (x[3].abs() / len3(n1) + y[3].abs() / len3(n2))); }
    });
    m.run("XMPlaneTransform", n, |c| {
        let p = c.md4();
        let mt = [c.md4(), c.md4(), c.md4(), c.md4()];
        let (x, md) = (d4(p), d44(mt));
        c.near4("transform", XMPlaneTransform(xv(p), xm(mt)), vmul(&x, &md), vabs(&x, &md).map(|t| 4.0 * EPS * t));
    });
    m.run("XMFresnelTerm", n * 2, |c| {
        let mut a = [0.0f32; 4];
        let mut b = [0.0f32; 4];
        for i in 0..4 { a[i] = c.uni(0.0, 1.0); b[i] = if c.r.chance(1, 4) { c.uni(0.3, 1.0) } else { c.uni(1.0, 4.0) }; }
        let g = vf(XMFresnelTerm(xv(a), xv(b)));
        for i in 0..4 {
            let (k, r) = (a[i] as f64, b[i] as f64);
            let h = r * r - 1.0 + k * k;
            let gg = h.abs().sqrt();
            let (s, d) = (gg + k, gg - k);
            let den = k * d + 1.0;
            if s == 0.0 { continue; } // grazing incidence without a boundary: 0/0
            c.check(g[i] >= 0.0 && g[i] <= 1.0, || format!("fresnel outside [0,1]: {}", g[i]));
            if gg < 0.05 || s < 0.05 || den.abs() < 0.05 { continue; }
            let e = (0.5 * d * d / (s * s) * (1.0 + (k * s - 1.0).powi(2) / (den * den))).clamp(0.0, 1.0);
            let dg = 4.0 * EPS * (r * r + 2.0) / gg;
            c.near("fresnel", g[i], e, 0.4 * (dg + EPS) * (1.0 + 1.0 / s) * (1.0 + 1.0 / den.abs()) * (1.0 + d.abs() / s));
        }
    });
}
