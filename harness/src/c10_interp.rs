//! C10: linear, cubic-Hermite, Catmull-Rom and barycentric interpolation against the defining polynomials in f64,
//! with the error bounded by the magnitudes of the terms being summed; endpoints are interpolated.
use crate::core::*;

fn ctl(c: &mut Case) -> V4 {
    // control points: moderate, or on a common large/small scale, or repeated values
    match c.idx(4) {
        0 => c.scn(4, -24.0, 24.0),
        1 => { let x = c.md(); [x; 4] }
        _ => c.md4(),
    }
}
fn par(c: &mut Case) -> f32 {
    let k = c.idx(9);
    let x = match k { 0 => 0.0f32, 1 => 1.0, 2 => 0.5, 3 => c.r.range(-3.0, 4.0) as f32, 4 => -1.0, 5 => (c.r.range(-20.0, 20.0).exp2() * c.r.sign()) as f32, _ => c.r.range(0.0, 1.0) as f32 };
    c.log(x.to_bits());
    x
}
fn sum(c: &mut Case, w: &str, g: XMVECTOR, i: usize, t: &[(f64, f64, f64)]) {
    // terms (coefficient, bound on the coefficient's intermediate magnitudes, value)
    let e: f64 = t.iter().map(|(k, _, v)| k * v).sum();
    let b: f64 = t.iter().map(|(_, m, v)| m * v.abs()).sum();
    c.near(w, vf(g)[i], e, 8.0 * EPS * b);
}
fn hermite(t: f64) -> [(f64, f64); 4] {
    let (a, t2, t3) = (t.abs(), t * t, t * t * t);
    [
        (2.0 * t3 - 3.0 * t2 + 1.0, 2.0 * t3.abs() + 3.0 * t2 + 1.0),
        (t3 - 2.0 * t2 + t, t3.abs() + 2.0 * t2 + a),
        (-2.0 * t3 + 3.0 * t2, 2.0 * t3.abs() + 3.0 * t2),
        (t3 - t2, t3.abs() + t2),
    ]
}
fn catmull(t: f64) -> [(f64, f64); 4] {
    let (a, t2, t3) = (t.abs(), t * t, (t * t * t));
    let a3 = t3.abs();
    [
        ((-t3 + 2.0 * t2 - t) * 0.5, (a3 + 2.0 * t2 + a) * 0.5),
        ((3.0 * t3 - 5.0 * t2 + 2.0) * 0.5, (3.0 * a3 + 5.0 * t2 + 2.0) * 0.5),
        ((-3.0 * t3 + 4.0 * t2 + t) * 0.5, (3.0 * a3 + 4.0 * t2 + a) * 0.5),
        ((t3 - t2) * 0.5, (a3 + t2) * 0.5),
    ]
}
pub fn run(m: &mut Mon) {
    let n = 6000;
    m.run("XMVectorLerp", n, |c| {
        let (a, b, t) = (ctl(c), ctl(c), par(c));
        let g = XMVectorLerp(xv(a), xv(b), t);
        for i in 0..4 {
            let (x, y, t) = (a[i] as f64, b[i] as f64, t as f64);
            c.near("lerp", vf(g)[i], x + t * (y - x), 4.0 * EPS * (x.abs() + t.abs() * (x.abs() + y.abs())));
        }
        if t == 0.0 { c.ieee4("lerp at 0", g, a); }
    });
    m.run("XMVectorLerpV", n, |c| {
        let (a, b) = (ctl(c), ctl(c));
        let t = [par(c), par(c), par(c), par(c)];
        let g = XMVectorLerpV(xv(a), xv(b), xv(t));
        for i in 0..4 {
            let (x, y, t) = (a[i] as f64, b[i] as f64, t[i] as f64);
            c.near("lerp", vf(g)[i], x + t * (y - x), 4.0 * EPS * (x.abs() + t.abs() * (x.abs() + y.abs())));
        }
    });
    m.run("XMVectorHermite", n, |c| {
        let (a, b, d, e, t) = (ctl(c), ctl(c), ctl(c), ctl(c), par(c));
        let g = XMVectorHermite(xv(a), xv(b), xv(d), xv(e), t);
        let h = hermite(t as f64);
        for i in 0..4 { sum(c, "hermite", g, i, &[(h[0].0, h[0].1, a[i] as f64), (h[1].0, h[1].1, b[i] as f64), (h[2].0, h[2].1, d[i] as f64), (h[3].0, h[3].1, e[i] as f64)]); }
        if t == 0.0 { c.ieee4("hermite at 0", g, a); }
        if t == 1.0 { c.ieee4("hermite at 1", g, d); }
    });
    m.run("XMVectorHermiteV", n, |c| {
        let (a, b, d, e) = (ctl(c), ctl(c), ctl(c), ctl(c));
        // the x,y,z,w components of the control vector weight Position0, Tangent0, Position1, Tangent1
        let t = if c.coin() { let t = par(c); [t; 4] } else { [par(c), par(c), par(c), par(c)] };
        let g = XMVectorHermiteV(xv(a), xv(b), xv(d), xv(e), xv(t));
        let h = [0, 1, 2, 3].map(|k| hermite(t[k] as f64)[k]);
        for i in 0..4 { sum(c, "hermite", g, i, &[(h[0].0, h[0].1, a[i] as f64), (h[1].0, h[1].1, b[i] as f64), (h[2].0, h[2].1, d[i] as f64), (h[3].0, h[3].1, e[i] as f64)]); }
    });
    m.run("XMVectorCatmullRom", n, |c| {
        let (a, b, d, e, t) = (ctl(c), ctl(c), ctl(c), ctl(c), par(c));
        let g = XMVectorCatmullRom(xv(a), xv(b), xv(d), xv(e), t);
        let h = catmull(t as f64);
        for i in 0..4 { sum(c, "catmullrom", g, i, &[(h[0].0, h[0].1, a[i] as f64), (h[1].0, h[1].1, b[i] as f64), (h[2].0, h[2].1, d[i] as f64), (h[3].0, h[3].1, e[i] as f64)]); }
        if t == 0.0 { c.ieee4("catmullrom at 0", g, b); }
        if t == 1.0 { c.ieee4("catmullrom at 1", g, d); }
    });
    m.run("XMVectorCatmullRomV", n, |c| {
        let (a, b, d, e) = (ctl(c), ctl(c), ctl(c), ctl(c));
        let t = [par(c), par(c), par(c), par(c)];
        let g = XMVectorCatmullRomV(xv(a), xv(b), xv(d), xv(e), xv(t));
        for i in 0..4 {
            let h = catmull(t[i] as f64);
            sum(c, "catmullrom", g, i, &[(h[0].0, h[0].1, a[i] as f64), (h[1].0, h[1].1, b[i] as f64), (h[2].0, h[2].1, d[i] as f64), (h[3].0, h[3].1, e[i] as f64)]);
        }
    });
    let bary = |c: &mut Case, g: XMVECTOR, p: [V4; 3], f: V4, h: V4| for i in 0..4 {
        let (x, y, z, f, h) = (p[0][i] as f64, p[1][i] as f64, p[2][i] as f64, f[i] as f64, h[i] as f64);
        c.near("barycentric", vf(g)[i], x + f * (y - x) + h * (z - x), 5.0 * EPS * (x.abs() + f.abs() * (x.abs() + y.abs()) + h.abs() * (x.abs() + z.abs())));
    };
    m.run("XMVectorBaryCentric", n, |c| {
        let p = [ctl(c), ctl(c), ctl(c)];
        let (f, h) = (par(c), par(c));
        let g = XMVectorBaryCentric(xv(p[0]), xv(p[1]), xv(p[2]), f, h);
        bary(c, g, p, [f; 4], [h; 4]);
        if f == 0.0 && h == 0.0 { c.ieee4("barycentric at first corner", g, p[0]); }
    });
    m.run("XMVectorBaryCentricV", n, |c| {
        let p = [ctl(c), ctl(c), ctl(c)];
        let (f, h) = ([par(c), par(c), par(c), par(c)], [par(c), par(c), par(c), par(c)]);
        let g = XMVectorBaryCentricV(xv(p[0]), xv(p[1]), xv(p[2]), xv(f), xv(h));
        bary(c, g, p, f, h);
    });
}
