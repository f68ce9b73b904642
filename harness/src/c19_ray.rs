//! C19: ray casts against spheres, boxes, oriented boxes, frustums and triangles: hit decision and distance.
use crate::col::*;
use crate::core::*;
use crate::geo::*;
use directx_math::collision::*;

struct Ray { o: [f32; 3], d: [f32; 3], ow: f32, dw: f32 }
impl Ray {
    fn ov(&self) -> XMVECTOR { xv([self.o[0], self.o[1], self.o[2], self.ow]) }
    fn dv(&self) -> XMVECTOR { xv([self.d[0], self.d[1], self.d[2], self.dw]) }
}
/// a ray around a target: from outside through (or past) the target, from inside, pointing away, axis parallel
fn ray(c: &mut Case, target: D3, s: f64) -> Ray {
    let aim = add3(target, [c.r.range(-1.0, 1.0) * s, c.r.range(-1.0, 1.0) * s, c.r.range(-1.0, 1.0) * s]);
    let mut d = norm3([c.r.gauss() + 1e-9, c.r.gauss(), c.r.gauss()]);
    if c.r.chance(1, 4) { d = [0.0; 3]; d[c.r.below(3) as usize] = c.r.sign(); }
    else if c.r.chance(1, 6) { let z = c.r.below(3) as usize; d[z] = 0.0; d = norm3(d); }
    else if c.r.chance(1, 6) { // almost parallel to one or two axes
        let z = c.r.below(3) as usize;
        d[z] = c.r.sign() * c.r.range(-23.0, -6.0).exp2();
        if c.r.coin() { d[(z + 1) % 3] = c.r.sign() * c.r.range(-23.0, -6.0).exp2(); }
        d = norm3(d);
    }
    let back = match c.r.below(7) { 0 => 0.0, 1 => -c.r.range(0.0, 4.0), 2 => c.r.range(3.0, 9.0).exp2(), _ => c.r.range(0.0, 8.0) } * s;
    let o = sub3(aim, mul3(d, back));
    let f = |x: D3| [x[0] as f32, x[1] as f32, x[2] as f32];
    let mut r = Ray { o: f(o), d: f(d), ow: c.junk(), dw: c.junk() };
    for x in r.d.iter_mut() { if *x == 0.0 && c.r.coin() { *x = -0.0; } }
    for x in r.o.iter().chain(&r.d) { c.log(x.to_bits()); }
    r
}
fn verdict(c: &mut Case, got: bool, gd: f32, sure: Option<bool>, t: f64, tol: f64, what: &dyn std::fmt::Debug) {
    // whatever the decision, a miss reports distance 0
    c.check(got || gd == 0.0, || format!("miss reported distance {:e}", gd));
    let e = match sure { Some(e) => e, None => return };
    c.check(got == e, || format!("got hit={} expected hit={} (t={:e}) {:?}", got, e, t, what));
    c.trace(&[got as u32 as f32], &[-1.0]);
    if got && e && tol.is_finite() { c.near("distance", gd, t, tol); }
}
/// slab/plane clipping with an error bound on every crossing parameter: each entry is (numerator value n, n error, direction dot v, v error),
/// the half space n + t v <= 0. Returns (decision if certain, entry parameter, its tolerance, exit parameter, its tolerance).
fn clip(h: &[(f64, f64, f64, f64)]) -> Option<(Option<bool>, f64, f64, f64, f64)> {
    let (mut lo, mut hi) = (vec![], vec![]);
    let mut sure_miss = false;
    for &(n, en, v, ev) in h {
        if v == 0.0 && ev == 0.0 { if n > en { sure_miss = true; } else if n > -en { return None; } continue; }
        if v.abs() < 100.0 * ev || v.abs() < 1e-8 { return None; }
        let t = -n / v;
        let e = en / v.abs() + t.abs() * (ev / v.abs() + 4.0 * EPS);
        if v < 0.0 { lo.push((t, e)); } else { hi.push((t, e)); }
    }
    let mx = |f: &dyn Fn(&(f64, f64)) -> f64, l: &Vec<(f64, f64)>| l.iter().map(f).fold(f64::NEG_INFINITY, f64::max);
    let mn = |f: &dyn Fn(&(f64, f64)) -> f64, l: &Vec<(f64, f64)>| l.iter().map(f).fold(f64::INFINITY, f64::min);
    let (l0, l1, l) = (mx(&|x| x.0 - x.1, &lo), mx(&|x| x.0 + x.1, &lo), mx(&|x| x.0, &lo));
    let (h0, h1, hh) = (mn(&|x| x.0 - x.1, &hi), mn(&|x| x.0 + x.1, &hi), mn(&|x| x.0, &hi));
    let d = if sure_miss || l0 > h1 || h1 < 0.0 { Some(false) } else if l1 < h0 && h0 > 0.0 { Some(true) } else { None };
    Some((d, l, (l1 - l).max(l - l0), hh, (h1 - hh).max(hh - h0)))
}
pub fn run(m: &mut Mon) {
    let n = 4000;
    m.run("BoundingSphere::IntersectsRay", n, |c| {
        let s = scale(c);
        let at = [c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s];
        let a = shape(c, K::Sphere, s, at, None);
        a.log(c);
        let y = ray(c, at, s);
        let mut d = 7.0f32;
        let got = a.sphere().IntersectsRay(y.ov(), y.dv(), &mut d);
        let (o, u) = (dd(y.o), dd(y.d));
        let l = sub3(dd(a.p), o);
        let (sx, l2, r) = (dot3(l, u), dot3(l, l), a.r as f64);
        let u2 = dot3(u, u);
        let mag = max3(o) + max3(dd(a.p));
        let e2 = 8.0 * EPS * (l2 + r * r) + 4.0 * EPS * mag * len3(l);
        let m2 = l2 - sx * sx;
        let inside = l2 < r * r;
        let sure_pos = (l2 - r * r).abs() > e2;
        let es = 4.0 * EPS * (len3(l) + mag);
        let _ = u2;
        if !sure_pos { return c.skip(); }
        let dec = if inside { Some(true) } else if sx < -es { Some(false) } else if (m2 - r * r).abs() > e2 && sx > es { Some(m2 < r * r) } else { None };
        let q = (r * r - m2).max(0.0).sqrt();
        let t = if inside { sx + q } else { sx - q };
        verdict(c, got, d, dec, t, es + e2 / (q + 1e-30) + 4.0 * EPS * (q + sx.abs()), &a);
    });
    for k in [K::Box, K::OBox] {
        m.run(if k == K::Box { "BoundingBox::IntersectsRay" } else { "BoundingOrientedBox::IntersectsRay" }, n, |c| {
            let s = scale(c);
            let at = [c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s];
            let mut a = shape(c, k, s, at, None);
            if k == K::OBox && c.r.chance(1, 5) { a.q = [0.0, 0.0, 0.0, 1.0]; }
            a.log(c);
            let y = ray(c, at, s);
            let mut d = 7.0f32;
            let got = if k == K::Box { a.aabb().IntersectsRay(y.ov(), y.dv(), &mut d) } else { a.obb().IntersectsRay(y.ov(), y.dv(), &mut d) };
            let g = a.geom();
            let (o, u) = (dd(y.o), dd(y.d));
            let mag = 10.0 * EPS * (max3(o) + max3(dd(a.p)) + s);
            let aligned = a.q == [0.0, 0.0, 0.0, 1.0];
            let h: Vec<_> = g.pl.iter().map(|(nn, dd_)| (dot3(*nn, o) + dd_, mag, dot3(*nn, u), if aligned { 0.0 } else { 6.0 * EPS })).collect();
            let Some((dec, t, tol, _, _)) = clip(&h) else { return c.skip() };
            verdict(c, got, d, dec, t, tol, &a);
        });
    }
    m.run("BoundingFrustum::IntersectsRay", n, |c| {
        let s = scale(c);
        let at = [c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s];
        let a = shape(c, K::Frustum, s, at, None);
        a.log(c);
        let g = a.geom();
        let cen = mul3(g.v.iter().fold([0.0; 3], |x, v| add3(x, *v)), 0.125);
        let y = ray(c, cen, s);
        let mut d = 7.0f32;
        let got = a.frustum().IntersectsRay(y.ov(), y.dv(), &mut d);
        let (o, u) = (dd(y.o), dd(y.d));
        let mag = 16.0 * EPS * (max3(o) + max3(dd(a.p)) + s);
        let out = g.pl.iter().map(|(nn, dd_)| dot3(*nn, o) + dd_).fold(f64::NEG_INFINITY, f64::max);
        if out.abs() < mag { return c.skip(); }
        if out < 0.0 {
            c.check(got && d == 0.0, || format!("origin inside: hit={} distance={:e} {:?}", got, d, a));
            return;
        }
        let h: Vec<_> = g.pl.iter().map(|(nn, dd_)| (dot3(*nn, o) + dd_, mag, dot3(*nn, u), 8.0 * EPS)).collect();
        let Some((dec, t, tol, _, _)) = clip(&h) else { return c.skip() };
        if dec == Some(true) && t < tol { return c.skip(); }
        verdict(c, got, d, dec, t, tol, &a);
    });
    m.run("triangle_tests::IntersectsRay", n * 2, |c| {
        let s = scale(c);
        let at = [c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s];
        let a = shape(c, K::Tri, s, at, None);
        a.log(c);
        let cen = mul3(add3(add3(dd(a.t[0]), dd(a.t[1])), dd(a.t[2])), 1.0 / 3.0);
        let sp = s * c.r.pick(&[0.2, 0.5, 1.0]);
        let y = ray(c, cen, sp);
        let mut d = 7.0f32;
        let got = triangle_tests::IntersectsRay(y.ov(), y.dv(), a.v(0), a.v(1), a.v(2), &mut d);
        let (o, u) = (dd(y.o), dd(y.d));
        let (v0, v1, v2) = (dd(a.t[0]), dd(a.t[1]), dd(a.t[2]));
        let (e1, e2) = (sub3(v1, v0), sub3(v2, v0));
        let p = cross3(u, e2);
        let det = dot3(e1, p);
        let so = sub3(o, v0);
        let q = cross3(so, e1);
        let (uu, vv, tt) = (dot3(so, p), dot3(u, q), dot3(e2, q));
        let big = max3(o) + max3(v0) + max3(v1) + max3(v2);
        // absolute error of the triple products: rounding of the differences and of the products
        let (l1, l2, ls) = (len3(e1), len3(e2), len3(so));
        let ed = 12.0 * EPS * l1 * l2 + 2.0 * EPS * big * (l1 + l2);
        let eu = 12.0 * EPS * ls * l2 + 2.0 * EPS * big * (ls + l2);
        let ev = 12.0 * EPS * ls * l1 + 2.0 * EPS * big * (ls + l1);
        let et = 12.0 * EPS * ls * l1 * l2 + 2.0 * EPS * big * (ls * l1 + l1 * l2 + ls * l2);
        if det.abs() < 20.0 * ed { return c.skip(); }
        let sg = det.signum();
        let (x, y2, z) = (uu * sg, vv * sg, det.abs() - (uu + vv) * sg);
        let tn = tt * sg;
        let lo = (x / eu).min(y2 / ev).min(z / (eu + ev + ed)).min(tn / et);
        let dec = if lo > 1.0 { Some(true) } else if lo < -1.0 { Some(false) } else { None };
        let t = tt / det;
        verdict(c, got, d, dec, t, et / det.abs() + t.abs() * ed / det.abs() + 2.0 * EPS * t.abs(), &a);
    });
    // axis-parallel rays on a lattice: every slab distance is exact, so faces, edges and vertices belong to the target
    for k in [K::Sphere, K::Box, K::OBox, K::Tri] {
        m.run(&format!("{}::IntersectsRay(lattice)", bname(k)), n, |c| {
            let u = lattice_unit(c);
            let mut a = lattice(c, k, u);
            let ax = c.idx(3) as usize;
            if k == K::Tri {
                if c.coin() { a.t = a.t.map(|v| v.map(|x| x * 0.25)); }
                for i in 1..3 { a.t[i][ax] = a.t[0][ax]; } // in the plane across the ray
            }
            a.log(c);
            let o = lattice(c, K::Sphere, u).p;
            let mut d = [0.0f32; 3];
            if c.coin() { d = [-0.0; 3]; }
            d[ax] = if c.coin() { 1.0 } else { -1.0 };
            let y = Ray { o, d, ow: c.junk(), dw: c.junk() };
            for x in y.o.iter().chain(&y.d) { c.log(x.to_bits()); }
            let (od, ud) = (dd(o), dd(d));
            let mut t = 7.0f32;
            let (e, et) = match k {
                K::Tri => {
                    let v = a.t.map(dd);
                    let (b, e) = ((ax + 1) % 3, (ax + 2) % 3);
                    let cr = |p: D3, q: D3, r: D3| (q[b] - p[b]) * (r[e] - p[e]) - (q[e] - p[e]) * (r[b] - p[b]);
                    if cr(v[0], v[1], v[2]) == 0.0 { return c.skip(); }
                    let sg = [cr(v[0], v[1], od), cr(v[1], v[2], od), cr(v[2], v[0], od)];
                    let tt = (v[0][ax] - od[ax]) * ud[ax];
                    ((sg.iter().all(|x| *x >= 0.0) || sg.iter().all(|x| *x <= 0.0)) && tt >= 0.0, Some(tt))
                }
                K::Sphere => {
                    let l = sub3(dd(a.p), od);
                    let (s, l2, r) = (dot3(l, ud), dot3(l, l), a.r as f64);
                    let m2 = l2 - s * s;
                    let q = (r * r - m2).max(0.0).sqrt();
                    let hit = if l2 <= r * r { true } else { s >= 0.0 && m2 <= r * r };
                    (hit, if l2 < r * r { Some(s + q) } else if l2 > r * r { Some(s - q) } else { None })
                }
                _ => {
                    let (mut lo, mut hi, mut miss) = (f64::NEG_INFINITY, f64::INFINITY, false);
                    for (nn, w) in &a.geom().pl {
                        let (n0, v) = (dot3(*nn, od) + w, dot3(*nn, ud));
                        if v.abs() < 0.5 { if n0 > 1e-9 * u as f64 { miss = true; } }
                        else if v < 0.0 { lo = lo.max(-n0 / v); } else { hi = hi.min(-n0 / v); }
                    }
                    (!miss && hi >= 0.0, Some(lo))
                }
            };
            let got = match k {
                K::Tri => triangle_tests::IntersectsRay(y.ov(), y.dv(), a.v(0), a.v(1), a.v(2), &mut t),
                K::Sphere => a.sphere().IntersectsRay(y.ov(), y.dv(), &mut t),
                K::Box => a.aabb().IntersectsRay(y.ov(), y.dv(), &mut t),
                _ => a.obb().IntersectsRay(y.ov(), y.dv(), &mut t),
            };
            verdict(c, got, t, Some(e), et.unwrap_or(0.0), if et.is_some() { 4.0 * EPS * 20.0 * u as f64 } else { f64::INFINITY }, &(&a, y.o, y.d));
        });
    }
    // lattice frustums: axis-parallel rays are exactly parallel to some of the planes (near and far, or the side planes
    // of slope 0); then only the side of the origin decides. Crossings of sloped planes are judged with a margin.
    m.run("BoundingFrustum::IntersectsRay(lattice)", n, |c| {
        let u = lattice_unit(c);
        let a = lattice(c, K::Frustum, u);
        a.log(c);
        let g = a.geom();
        let mut d = if c.coin() { [0.0f32; 3] } else { [-0.0; 3] };
        d[c.idx(3) as usize] = if c.coin() { 1.0 } else { -1.0 };
        let mut o = lattice(c, K::Sphere, u).p;
        if c.coin() {
            // aimed at the frustum: an interior point, moved back along the ray
            let w: Vec<f64> = (0..8).map(|_| c.r.range(0.1, 1.0) as f64).collect();
            let ws: f64 = w.iter().sum();
            let back = c.idx(9) as f64 * 0.5 * u as f64;
            for i in 0..3 {
                let x: f64 = (0..8).map(|k| g.v[k][i] * w[k] / ws).sum::<f64>() - back * d[i] as f64;
                o[i] = ((x / (0.25 * u as f64)).round() * 0.25 * u as f64) as f32;
            }
        }
        let y = Ray { o, d, ow: c.junk(), dw: c.junk() };
        for x in y.o.iter().chain(&y.d) { c.log(x.to_bits()); }
        let (od, ud) = (dd(o), dd(d));
        let mut t = 7.0f32;
        let got = a.frustum().IntersectsRay(y.ov(), y.dv(), &mut t);
        let mg = 1e-5 * 20.0 * u as f64;
        let exact = a.q.iter().all(|x| [0.0, 0.5, 1.0].contains(&x.abs()));
        let (mut lo, mut hi, mut miss, mut touch, mut out, mut graze) = (f64::NEG_INFINITY, f64::INFINITY, false, false, f64::NEG_INFINITY, false);
        for (nn, w) in &g.pl {
            let (n0, v) = (dot3(*nn, od) + w, dot3(*nn, ud));
            out = out.max(n0);
            // a plane across a coordinate axis, under a rotation made of 0, 1/2 and 1 only, is computed without rounding:
            // a ray inside such a plane grazes the (closed) frustum
            let sharp = exact && n0.abs() < 1e-9 * u as f64 && max3(nn.map(f64::abs)) > 1.0 - 1e-9;
            if v.abs() < 1e-9 { if sharp { graze = true; } else if n0 > mg { miss = true; } else if n0 > -mg { touch = true; } }
            else if v < 0.0 { lo = lo.max(-n0 / v); } else { hi = hi.min(-n0 / v); }
        }
        if out < -mg {
            c.check(got && t == 0.0, || format!("origin inside: hit={} distance={:e} {:?}", got, t, (&a, y.o, y.d)));
            return;
        }
        let (dec, et, tol) = if miss { (Some(false), 0.0, 0.0) }
            else if touch || (hi - lo).abs() < mg * 4.0 || hi.abs() < mg * 4.0 || (out.abs() < mg && !(graze && lo > mg * 4.0)) { (None, 0.0, 0.0) }
            else { (Some(hi > lo && hi > 0.0), lo, mg) };
        verdict(c, got, t, dec, et, tol, &(&a, y.o, y.d));
    });
    // rays exactly parallel to the triangle's plane never hit
    m.run("triangle_tests::IntersectsRay(parallel)", 500, |c| {
        let k = c.idx(3) as usize;
        let z = c.md();
        let mut t = [[0.0f32; 4]; 3];
        for v in t.iter_mut() { for j in 0..3 { v[j] = if j == k { z } else { c.md() }; } v[3] = c.junk(); }
        let o = c.mdn(3);
        let mut d = [0.0f32; 4];
        d[(k + 1) % 3] = if c.coin() { 1.0 } else { -1.0 };
        let mut dist = 9.0;
        let h = triangle_tests::IntersectsRay(xv(o), xv(d), xv(t[0]), xv(t[1]), xv(t[2]), &mut dist);
        c.check(!h && dist == 0.0, || format!("parallel ray hit={} dist={:e}", h, dist));
    });
}
