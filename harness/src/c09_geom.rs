//! C09: dot/cross/length/normalise/reflect/refract/angle/line queries in 2, 3 and 4 dimensions. Lanes beyond the
//! dimension carry NaN/Inf/garbage and must not influence the result; scalar results are replicated to every lane.
use crate::core::*;
use crate::geo::*;

type B = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
type U = fn(XMVECTOR) -> XMVECTOR;
const EST: f64 = 1.0 / 2048.0;

fn vecn(c: &mut Case, n: usize) -> V4 {
    match c.r.below(4) { 0 => if c.r.chance(1, 3) { c.scn(n, -61.0, 61.0) } else { c.scn(n, -38.0, 38.0) }, 1 => c.unitn(n), _ => c.mdn(n) }
}
fn lanes(c: &mut Case, w: &str, g: XMVECTOR, e: &D4, n: usize, tol: f64) {
    let g = vf(g);
    for i in 0..n { c.near(&format!("{}[{}]", w, i), g[i], e[i], tol); }
}
fn acos_tol(d: f64, ed: f64) -> f64 {
    // acos is evaluated at d +- ed
    let f = |x: f64| x.max(-1.0).min(1.0).acos();
    (f(d - ed) - f(d)).abs().max((f(d + ed) - f(d)).abs())
}

pub fn run(m: &mut Mon) {
    let n_ = 8000;
    for n in 2..=4usize {
        let nm = |s: &str| format!("XMVector{}{}", n, s);
        let dot: B = [XMVector2Dot as B, XMVector3Dot, XMVector4Dot][n - 2];
        m.run(&nm("Dot"), n_, |c| {
            let (a, b) = (vecn(c, n), vecn(c, n));
            let (x, y) = (d4(a), d4(b));
            c.splat("dot", dot(xv(a), xv(b)), dotn(&x, &y, n), 3.0 * EPS * adotn(&x, &y, n) + 4.0 * TINY);
        });
        let f: U = [XMVector2LengthSq as U, XMVector3LengthSq, XMVector4LengthSq][n - 2];
        m.run(&nm("LengthSq"), n_, |c| {
            let a = vecn(c, n);
            let x = d4(a);
            c.splat("length^2", f(xv(a)), dotn(&x, &x, n), 3.0 * EPS * dotn(&x, &x, n) + 4.0 * TINY);
        });
        for (s, f, rel, recip) in [
            ("Length", [XMVector2Length as U, XMVector3Length, XMVector4Length][n - 2], 3.0 * EPS, false),
            ("LengthEst", [XMVector2LengthEst as U, XMVector3LengthEst, XMVector4LengthEst][n - 2], EST, false),
            ("ReciprocalLength", [XMVector2ReciprocalLength as U, XMVector3ReciprocalLength, XMVector4ReciprocalLength][n - 2], 4.0 * EPS, true),
            ("ReciprocalLengthEst", [XMVector2ReciprocalLengthEst as U, XMVector3ReciprocalLengthEst, XMVector4ReciprocalLengthEst][n - 2], EST, true),
        ] {
            m.run(&nm(s), n_, |c| {
                let mut a = vecn(c, n);
                if c.r.chance(1, 50) { for i in 0..n { a[i] = 0.0 } }
                let l = lenn(&d4(a), n);
                // the square must neither overflow nor underflow
                if l != 0.0 && (l < 2e-18 || l > 4e18) { return c.skip(); }
                let e = if recip { 1.0 / l } else { l };
                c.splat(s, f(xv(a)), e, if e.is_finite() { rel * e } else { 0.0 });
            });
        }
        for (s, f, rel, est) in [
            ("Normalize", [XMVector2Normalize as U, XMVector3Normalize, XMVector4Normalize][n - 2], 3.0 * EPS, false),
            ("NormalizeEst", [XMVector2NormalizeEst as U, XMVector3NormalizeEst, XMVector4NormalizeEst][n - 2], EST, true),
        ] {
            m.run(&nm(s), n_, |c| {
                let mut a = vecn(c, n);
                if !est && c.r.chance(1, 30) { for i in 0..n { a[i] = 0.0 } }
                if est && c.r.chance(1, 25) {
                    // documented for the 3-d estimate: no direction, no number. (With an infinite component the finite
                    // lanes come out as 0, as upstream; the infinite lanes must be NaN.)
                    let k = c.r.below(4) as usize;
                    if k < 3 { a[k.min(n - 1)] = if c.coin() { f32::INFINITY } else { f32::NEG_INFINITY }; }
                    else { if n != 3 { return c.skip(); } for i in 0..n { a[i] = 0.0; } }
                    let g = vf(f(xv(a)));
                    c.check((0..n).all(|i| (k < 3 && a[i].is_finite()) || g[i].is_nan()), || format!("{}({:?}) = {:?}, expected NaN", s, a, g));
                    return;
                }
                if !est && c.r.chance(1, 25) {
                    // infinite length: a vector of NaN, whatever the finite components are
                    let k = 1 + c.r.below(15) as usize;
                    let mut any = false;
                    for i in 0..n { if k >> i & 1 == 1 { a[i] = if c.coin() { f32::INFINITY } else { f32::NEG_INFINITY }; any = true; } }
                    if !any { a[0] = f32::INFINITY; }
                    let g = vf(f(xv(a)));
                    c.check(g[..n].iter().all(|v| v.is_nan()), || format!("{}({:?}) = {:?}, expected NaN for infinite length", s, a, g));
                    return;
                }
                let x = d4(a);
                let l = lenn(&x, n);
                if (est && l == 0.0) || (l != 0.0 && (l < 2e-18 || l > 4e18)) { return c.skip(); }
                let e = if l == 0.0 { [0.0; 4] } else { x.map(|v| v / l) };
                lanes(c, s, f(xv(a)), &e, n, rel);
            });
        }
        type C3 = fn(XMVECTOR, f32, f32) -> XMVECTOR;
        type C3V = fn(XMVECTOR, XMVECTOR, XMVECTOR) -> XMVECTOR;
        let f: C3 = [XMVector2ClampLength as C3, XMVector3ClampLength, XMVector4ClampLength][n - 2];
        let fv: C3V = [XMVector2ClampLengthV as C3V, XMVector3ClampLengthV, XMVector4ClampLengthV][n - 2];
        for (s, v) in [("ClampLength", false), ("ClampLengthV", true)] {
            m.run(&nm(s), n_, |c| {
                let mut a = c.mdn(n);
                if c.r.chance(1, 30) { for i in 0..n { a[i] = 0.0 } }
                let x = d4(a);
                let l = lenn(&x, n);
                if l != 0.0 && l < 1e-4 { return c.skip(); }
                let (mut p, mut q) = (c.uni(0.0, 12.0), c.uni(0.0, 12.0));
                if c.r.chance(1, 6) {
                    let k = (c.idx(61) as f32 - 30.0).exp2();
                    for i in 0..n { a[i] *= k; }
                    p *= k; q *= k;
                }
                let (x, l) = (d4(a), lenn(&d4(a), n));
                let (lo, hi) = if c.r.chance(1, 12) { (p, p) } else { (p.min(q), p.max(q)) };
                let t = if l == 0.0 { 0.0 } else { l.max(lo as f64).min(hi as f64) };
                let e = if l == 0.0 { [0.0; 4] } else { x.map(|v| v * t / l) };
                let g = if v { fv(xv(a), xv([lo; 4]), xv([hi; 4])) } else { f(xv(a), lo, hi) };
                lanes(c, s, g, &e, n, 5.0 * EPS * t);
            });
        }
        let f: B = [XMVector2Reflect as B, XMVector3Reflect, XMVector4Reflect][n - 2];
        m.run(&nm("Reflect"), n_, |c| {
            let i = vecn(c, n);
            let nn = c.unitn(n);
            let (x, y) = (d4(i), d4(nn));
            let k = 2.0 * dotn(&x, &y, n);
            let e = [0, 1, 2, 3].map(|j| x[j] - k * y[j]);
            lanes(c, "reflect", f(xv(i), xv(nn)), &e, n, 8.0 * EPS * lenn(&x, n));
        });
        type R = fn(XMVECTOR, XMVECTOR, f32) -> XMVECTOR;
        type RV = fn(XMVECTOR, XMVECTOR, XMVECTOR) -> XMVECTOR;
        let f: R = [XMVector2Refract as R, XMVector3Refract, XMVector4Refract][n - 2];
        let fv: RV = [XMVector2RefractV as RV, XMVector3RefractV, XMVector4RefractV][n - 2];
        for (s, v) in [("Refract", false), ("RefractV", true)] {
            m.run(&nm(s), n_ * 2, |c| {
                let i = c.unitn(n);
                let nn = c.unitn(n);
                let ri = c.uni(0.4, 2.2);
                // a different index per lane is legal in the V form
                let mut rv = [ri; 4];
                if v && c.coin() { for k in 0..n { rv[k] = c.uni(0.4, 2.2); } }
                // the 3-d and 4-d forms decide total internal reflection for the vector as a whole: where
                // the components of the index disagree, only the lanes below the critical angle are judged
                for k in n..4 { rv[k] = if n == 2 { c.junk() } else { ri }; }
                let (x, y) = (d4(i), d4(nn));
                let d = dotn(&x, &y, n);
                let mut e = [0.0; 4];
                let mut tol = [0.0; 4];
                let mut mixed = false;
                if v && n > 2 {
                    let q = rv.map(|r| 1.0 - (r as f64) * (r as f64) * (1.0 - d * d));
                    if q.iter().any(|z| z.abs() < 1e-3) { return c.skip(); }
                    mixed = q.iter().any(|z| (*z > 0.0) != (q[0] > 0.0));
                }
                for k in 0..n {
                    let r = if v { rv[k] } else { ri } as f64;
                    let q = 1.0 - r * r * (1.0 - d * d);
                    if q.abs() < 1e-3 { return c.skip(); }
                    if q > 0.0 { e[k] = r * x[k] - y[k] * (r * d + q.sqrt()); }
                    tol[k] = if q > 0.0 { 30.0 * EPS * (1.0 + 1.0 / q.sqrt()) } else { 0.0 };
                }
                let g = vf(if v { fv(xv(i), xv(nn), xv(rv)) } else { f(xv(i), xv(nn), ri) });
                // total internal reflection gives the zero vector
                for k in 0..n { if !mixed || tol[k] > 0.0 { c.near(&format!("refract[{}]", k), g[k], e[k], tol[k]); } }
            });
        }
        for (s, f, est, unit) in [
            ("AngleBetweenNormals", [XMVector2AngleBetweenNormals as B, XMVector3AngleBetweenNormals, XMVector4AngleBetweenNormals][n - 2], false, true),
            ("AngleBetweenNormalsEst", [XMVector2AngleBetweenNormalsEst as B, XMVector3AngleBetweenNormalsEst, XMVector4AngleBetweenNormalsEst][n - 2], true, true),
            ("AngleBetweenVectors", [XMVector2AngleBetweenVectors as B, XMVector3AngleBetweenVectors, XMVector4AngleBetweenVectors][n - 2], false, false),
        ] {
            m.run(&nm(s), n_, |c| {
                let (a, mut b) = if unit { (c.unitn(n), c.unitn(n)) } else { { let w = if c.coin() { 8.0 } else { 58.0 }; (c.scn(n, -w, w), c.scn(n, -w, w)) } };
                match c.r.below(12) { 0 => b = a, 1 => for i in 0..n { b[i] = -a[i] }, _ => {} }
                let (x, y) = (d4(a), d4(b));
                let (lx, ly) = (lenn(&x, n), lenn(&y, n));
                if lx < 2e-18 || ly < 2e-18 { return c.skip(); }
                let d = if unit { dotn(&x, &y, n) } else { dotn(&x, &y, n) / (lx * ly) };
                let t = if est { acos_tol(d, 5e-6) + 3e-4 } else { acos_tol(d, 8.0 * EPS) + 16.0 * EPS };
                c.splat("angle", f(xv(a), xv(b)), d.max(-1.0).min(1.0).acos(), t);
            });
        }
        let f: U = [XMVector2Orthogonal as U, XMVector3Orthogonal, XMVector4Orthogonal][n - 2];
        m.run(&nm("Orthogonal"), n_, |c| {
            let a = c.scn(n, -20.0, 20.0);
            let x = d4(a);
            let l = lenn(&x, n);
            if l == 0.0 { return c.skip(); }
            let g = d4(vf(f(xv(a))));
            let lg = lenn(&g, n);
            let d = dotn(&x, &g, n);
            c.check(lg > 0.0 && lg.is_finite() && d.abs() <= 4.0 * EPS * adotn(&x, &g, n) + TINY, || format!("orthogonal: dot {:e}, length {:e} of {:?}", d, lg, g));
            let e: Option<D4> = match n { 2 => Some([-x[1], x[0], 0.0, 0.0]), 4 => Some([x[2], x[3], -x[0], -x[1]]), _ => None };
            if let Some(e) = e { for i in 0..n { c.check(g[i] == e[i], || format!("orthogonal[{}] = {:e}, expected {:e}", i, g[i], e[i])); } }
        });
    }
    m.run("XMVector2Cross", n_, |c| {
        let (a, b) = (vecn(c, 2), vecn(c, 2));
        let (x, y) = (d4(a), d4(b));
        c.splat("cross", XMVector2Cross(xv(a), xv(b)), x[0] * y[1] - x[1] * y[0], 1.6 * EPS * ((x[0] * y[1]).abs() + (x[1] * y[0]).abs()) + 2.0 * TINY);
    });
    m.run("XMVector3Cross", n_, |c| {
        let (a, b) = (vecn(c, 3), vecn(c, 3));
        let (x, y) = (d3(a), d3(b));
        let e = cross3(x, y);
        let g = vf(XMVector3Cross(xv(a), xv(b)));
        for i in 0..3 {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            c.near(&format!("cross[{}]", i), g[i], e[i], 1.6 * EPS * ((x[j] * y[k]).abs() + (x[k] * y[j]).abs()) + 2.0 * TINY);
        }
        c.check(g[3] == 0.0, || format!("cross w = {:e}", g[3]));
    });
    m.run("XMVector4Cross", n_, |c| {
        let (a, b, d) = (c.md4(), c.md4(), c.md4());
        let (x, y, z) = (d4(a), d4(b), d4(d));
        // the vector whose dot product with any t is det[x; y; z; t] up to the documented orientation
        let g = vf(XMVector4Cross(xv(a), xv(b), xv(d)));
        let lim = |i: usize| { let mut s = 0.0; for p in 0..4 { for q in 0..4 { for r in 0..4 { if p != q && q != r && p != r && p != i && q != i && r != i { s += (x[p] * y[q] * z[r]).abs(); } } } } s };
        for i in 0..4 {
            let mut t = [0.0; 4];
            t[i] = 1.0;
            let e = det4(&[x, y, z, t]);
            c.near(&format!("cross[{}]", i), g[i], -e, 4.0 * EPS * lim(i));
        }
    });
    m.run("XMVector3ComponentsFromNormal", n_, |c| {
        let v = vecn(c, 3);
        let nn = c.unitn(3);
        let (mut p, mut q) = (xv([9.0; 4]), xv([9.0; 4]));
        XMVector3ComponentsFromNormal(&mut p, &mut q, xv(v), xv(nn));
        let (x, y) = (d3(v), d3(nn));
        let e = mul3(y, dot3(x, y));
        let r = sub3(x, e);
        let t = 6.0 * EPS * len3(x);
        lanes(c, "parallel", p, &[e[0], e[1], e[2], 0.0], 3, t);
        lanes(c, "perpendicular", q, &[r[0], r[1], r[2], 0.0], 3, t);
    });
    for (s, n, f) in [("XMVector2LinePointDistance", 2usize, XMVector2LinePointDistance as fn(XMVECTOR, XMVECTOR, XMVECTOR) -> XMVECTOR), ("XMVector3LinePointDistance", 3, XMVector3LinePointDistance)] {
        m.run(s, n_, |c| {
            let (p, q, r) = (c.mdn(n), c.mdn(n), c.mdn(n));
            let (a, b, d) = (d4(p), d4(q), d4(r));
            let l = [0, 1, 2, 3].map(|i| b[i] - a[i]);
            let w = [0, 1, 2, 3].map(|i| d[i] - a[i]);
            let ll = dotn(&l, &l, n);
            if ll < 1e-2 { return c.skip(); }
            let t = dotn(&w, &l, n) / ll;
            let e = [0, 1, 2, 3].map(|i| w[i] - t * l[i]);
            let scale = lenn(&w, n) + lenn(&a, n) + lenn(&d, n) + t.abs() * (ll.sqrt() + lenn(&a, n) + lenn(&b, n)) + adotn(&w, &l, n) / ll.sqrt();
            c.splat("distance", f(xv(p), xv(q), xv(r)), lenn(&e, n), 12.0 * EPS * scale);
        });
    }
    m.run("XMVector2IntersectLine", n_ * 2, |c| {
        if c.r.chance(1, 4) {
            // exactly representable parallel / coincident lines
            let (px, py) = (c.idx(17) as f32 - 8.0, c.idx(17) as f32 - 8.0);
            let (mut dx, mut dy) = (c.idx(9) as f32 - 4.0, c.idx(9) as f32 - 4.0);
            if dx == 0.0 && dy == 0.0 { dx = 1.0; }
            if c.coin() { std::mem::swap(&mut dx, &mut dy); }
            let k = c.idx(7) as f32 - 3.0;
            let off = c.idx(3) as f32 - 1.0; // 0: coincident
            let (qx, qy) = (px + k * dx - off * dy, py + k * dy + off * dx);
            let s = if c.coin() { 2.0 } else { -1.0 };
            let mk = |c: &mut Case, x: f32, y: f32| { let (a, b) = (c.junk(), c.junk()); xv([x, y, a, b]) };
            let (a, b, d, e) = (mk(c, px, py), mk(c, px + dx, py + dy), mk(c, qx, qy), mk(c, qx + s * dx, qy + s * dy));
            let g = vf(XMVector2IntersectLine(a, b, d, e));
            for i in 0..2 {
                if off == 0.0 { c.check(g[i].is_infinite(), || format!("coincident lines gave {:?}", &g[..2])); }
                else { c.check(g[i].is_nan(), || format!("parallel lines gave {:?}", &g[..2])); }
            }
            return;
        }
        // a quarter of the cases on a fine grid, where all products are exact and may fall below the library's epsilon
        let grid = c.r.chance(1, 3);
        let (p, q, r, s) = if grid {
            let k = (-(c.idx(16) as f32)).exp2();
            let mut g = || { let (x, y) = (c.idx(17), c.idx(17)); let (z, w) = (c.junk(), c.junk()); [(x as f32 - 8.0) * k, (y as f32 - 8.0) * k, z, w] };
            (g(), g(), g(), g())
        } else { (c.mdn(2), c.mdn(2), c.mdn(2), c.mdn(2)) };
        let (a, b, d, e) = (d4(p), d4(q), d4(r), d4(s));
        let v1 = [b[0] - a[0], b[1] - a[1]];
        let v2 = [e[0] - d[0], e[1] - d[1]];
        let v3 = [a[0] - d[0], a[1] - d[1]];
        let cr = |x: [f64; 2], y: [f64; 2]| x[0] * y[1] - x[1] * y[0];
        let l = |x: [f64; 2]| (x[0] * x[0] + x[1] * x[1]).sqrt();
        let den = cr(v1, v2);
        if grid {
            let (th, c2) = (1.192092896e-7, cr(v2, v3).abs());
            if den.abs() > 0.5 * th && den.abs() < 2.0 * th { return c.skip(); }
            let g = XMVector2IntersectLine(xv(p), xv(q), xv(r), xv(s));
            if den.abs() > th {
                let t = cr(v2, v3) / den;
                for i in 0..2 { c.near("intersection", vf(g)[i], a[i] + t * v1[i], 8.0 * EPS * (a[i].abs() + (t * v1[i]).abs())); }
            } else if !(c2 > 0.5 * th && c2 < 2.0 * th) {
                let g = vf(g);
                for i in 0..2 { c.check(if c2 > th { g[i].is_nan() } else { g[i].is_infinite() }, || format!("lines parallel within epsilon gave {:?}", &g[..2])); }
            }
            return;
        }
        if l(v1) < 1e-2 || l(v2) < 1e-2 || den.abs() < 0.1 * l(v1) * l(v2) { return c.skip(); }
        let t = cr(v2, v3) / den;
        let mag = 1.0 + a[0].abs().max(a[1].abs()) + d[0].abs().max(d[1].abs()) + b[0].abs().max(b[1].abs()) + e[0].abs().max(e[1].abs());
        let g = XMVector2IntersectLine(xv(p), xv(q), xv(r), xv(s));
        let tol = 200.0 * EPS * mag * (1.0 + mag / l(v1) + mag / l(v2)) * (1.0 + t.abs());
        lanes(c, "intersection", g, &[a[0] + t * v1[0], a[1] + t * v1[1], 0.0, 0.0], 2, tol);
    });
}
