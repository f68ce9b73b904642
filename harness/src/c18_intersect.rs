//! C18: intersection of volumes and triangles with each other and with planes.
use crate::col::*;
use crate::core::*;
use directx_math::collision::*;
use crate::geo::*;

macro_rules! on { ($s:expr, $f:ident, $($a:expr),*) => { match $s.k { K::Sphere => $s.sphere().$f($($a),*), K::Box => $s.aabb().$f($($a),*), K::OBox => $s.obb().$f($($a),*), _ => $s.frustum().$f($($a),*) } } }
fn intersects(a: &Sh, b: &Sh) -> bool {
    match b.k {
        K::Sphere => on!(a, IntersectsSphere, &b.sphere()),
        K::Box => on!(a, IntersectsBox, &b.aabb()),
        K::OBox => on!(a, IntersectsOrientedBox, &b.obb()),
        K::Frustum => on!(a, IntersectsFrustum, &b.frustum()),
        K::Tri => if a.k == K::Tri { triangle_tests::IntersectsTriangle(a.v(0), a.v(1), a.v(2), b.v(0), b.v(1), b.v(2)) } else { on!(a, IntersectsTriangle, b.v(0), b.v(1), b.v(2)) },
    }
}
fn name(k: K) -> &'static str { match k { K::Sphere => "Sphere", K::Box => "Box", K::OBox => "OrientedBox", K::Frustum => "Frustum", K::Tri => "Triangle" } }
pub fn run(m: &mut Mon) {
    let n = 2500;
    for ka in [K::Sphere, K::Box, K::OBox, K::Frustum, K::Tri] {
        for kb in [K::Sphere, K::Box, K::OBox, K::Frustum, K::Tri] {
            if ka == K::Tri && kb != K::Tri { continue; }
            m.run(&format!("{}::Intersects{}", bname(ka), name(kb)), if ka == K::Tri { n * 3 } else { n }, |c| {
                let (a, mut b) = pair(c, ka, kb);
                if ka == K::Tri && kb == K::Tri && c.r.chance(1, 5) {
                    // triangles in one axis plane (exactly coplanar), or one vertex exactly on the other's plane
                    return coplanar(c);
                }
                if ka == K::Tri && c.r.chance(1, 5) { return vertex_on_plane(c); }
                if let K::Tri = kb { for i in 0..3 { b.w[i] = c.junk(); } }
                let (ga, gb) = (a.geom(), b.geom());
                let mg = margin(&ga, &gb);
                let g = gap(&ga, &gb);
                let e = if g.robust > mg { false } else if g.all < -mg { true } else { return c.skip() };
                let r = intersects(&a, &b);
                c.check(r == e, || format!("got {} expected {} separation {:e} (edge axis {}) size {:e}: {:?} vs {:?}", r, e, g.all, g.edge, ga.size().max(gb.size()), a, b));
                c.trace(&[r as u32 as f32], &[-1.0]);
            });
        }
        for kb in [K::Sphere, K::Box, K::OBox, K::Frustum, K::Tri] {
            if ka == K::Tri && kb != K::Tri { continue; }
            m.run(&format!("{}::Intersects{}(lattice)", bname(ka), name(kb)), n, |c| {
                let u = lattice_unit(c);
                let (a, b) = (lattice(c, ka, u), lattice(c, kb, u));
                a.log(c);
                b.log(c);
                let g = gap(&a.geom(), &b.geom()).all;
                let e = g <= 1e-9 * u as f64;
                if ka == K::Tri && g.abs() <= 1e-9 * u as f64 { return c.skip(); } // the triangle pair test does not promise touching
                if g.abs() <= 1e-9 * u as f64 && (inexact_touch(&a, &b) || matches!((ka, kb), (K::Sphere, K::Frustum) | (K::Frustum, K::Sphere))) { return c.skip(); }
                let r = intersects(&a, &b);
                c.check(r == e, || format!("got {} expected {} separation {:e}: {:?} vs {:?}", r, e, g, a, b));
                c.trace(&[r as u32 as f32], &[-1.0]);
            });
        }
    }
    for ka in [K::Sphere, K::Box, K::OBox, K::Frustum, K::Tri] {
        m.run(&format!("{}::IntersectsPlane(lattice)", bname(ka)), n, |c| {
            let u = lattice_unit(c);
            let a = lattice(c, ka, u);
            a.log(c);
            let mut pl = [0.0f32; 4];
            let ax = c.idx(3) as usize;
            pl[ax] = if c.coin() { 1.0 } else { -1.0 };
            pl[3] = lattice(c, K::Sphere, u).p[0] * 2.0;
            for x in pl { c.log(x.to_bits()); }
            let g = a.geom();
            let nd = dd([pl[0], pl[1], pl[2]]);
            let (lo, hi) = match g.ball {
                Some((p, r)) => (dot3(nd, p) - r, dot3(nd, p) + r),
                None => g.v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(dot3(nd, *v)), h.max(dot3(nd, *v)))),
            };
            let (lo, hi) = (lo + pl[3] as f64, hi + pl[3] as f64);
            let tiny = 1e-9 * u as f64;
            let e = if lo > tiny { 0 } else if hi < -tiny { 2 } else { 1 };
            let r = match if ka == K::Tri { triangle_tests::IntersectsPlane(a.v(0), a.v(1), a.v(2), xv(pl)) } else { on!(a, IntersectsPlane, xv(pl)) } {
                PlaneIntersectionType::FRONT => 0,
                PlaneIntersectionType::INTERSECTING => 1,
                PlaneIntersectionType::BACK => 2,
            };
            c.check(r == e, || format!("got {} expected {} (0 front 1 intersecting 2 back) range [{:e},{:e}]: {:?} plane {:?}", r, e, lo, hi, a, pl));
            c.trace(&[r as f32], &[-1.0]);
        });
    }
    for ka in [K::Sphere, K::Box, K::OBox, K::Frustum, K::Tri] {
        m.run(&format!("{}::IntersectsPlane", bname(ka)), n, |c| {
            let s = scale(c);
            let at = [c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s];
            let a = shape(c, ka, s, at, None);
            let u = c.unitn(3);
            let nd = d3(u);
            let g = a.geom();
            let (lo, hi) = match g.ball {
                Some((p, r)) => (dot3(nd, p) - r, dot3(nd, p) + r),
                None => g.v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(dot3(nd, *v)), h.max(dot3(nd, *v)))),
            };
            let t = s * c.r.range(-11.0, 1.0).exp2() * c.r.sign();
            let d = (-(if c.r.coin() { lo } else { hi }) + t) as f32;
            a.log(c);
            c.log(d.to_bits());
            let (lo, hi) = (lo + d as f64, hi + d as f64);
            let mg = 4e-5 * g.size().max((d as f64).abs());
            let e = if lo > mg { 0 } else if hi < -mg { 2 } else if lo < -mg && hi > mg { 1 } else { return c.skip() };
            let pl = xv([u[0], u[1], u[2], d]);
            let r = match if ka == K::Tri { triangle_tests::IntersectsPlane(a.v(0), a.v(1), a.v(2), pl) } else { on!(a, IntersectsPlane, pl) } {
                PlaneIntersectionType::FRONT => 0,
                PlaneIntersectionType::INTERSECTING => 1,
                PlaneIntersectionType::BACK => 2,
            };
            c.check(r == e, || format!("got {} expected {} (0 front 1 intersecting 2 back) range [{:e},{:e}]: {:?} plane {:?} {}", r, e, lo, hi, a, u, d));
            c.trace(&[r as f32], &[-1.0]);
        });
    }
}
fn tri_of(t: [[f32; 3]; 3]) -> Sh { Sh { k: K::Tri, p: [0.0; 3], e: [0.0; 3], q: [0.0; 4], f: [0.0; 6], t, w: [0.0; 3], r: 0.0 } }
fn grid(c: &mut Case) -> f32 { (c.r.below(33) as f32 - 16.0) * 0.25 }
fn tri_check(c: &mut Case, a: Sh, b: Sh, g: f64) {
    let e = if g > 1e-3 { false } else if g < -1e-3 { true } else { return c.skip() };
    for (x, y) in [(&a, &b), (&b, &a)] {
        let r = triangle_tests::IntersectsTriangle(x.v(0), x.v(1), x.v(2), y.v(0), y.v(1), y.v(2));
        c.check(r == e, || format!("got {} expected {} separation {:e}: {:?} vs {:?}", r, e, g, x.t, y.t));
    }
}
/// exactly coplanar: 2D overlap decided by the in-plane edge normals
fn coplanar(c: &mut Case) {
    let k = c.idx(3) as usize;
    let z = grid(c);
    let mut ts = [[[0.0f32; 3]; 3]; 2];
    for t in ts.iter_mut() { for v in t.iter_mut() { for j in 0..3 { v[j] = if j == k { z } else { grid(c) }; } } }
    if c.coin() { // pull the second towards the first
        for v in ts[1].iter_mut() { for j in 0..3 { if j != k { v[j] *= 0.5; } } }
    }
    for x in ts.iter().flatten().flatten() { c.log(x.to_bits()); }
    let ok = |t: &[[f32; 3]; 3]| len3(cross3(sub3(dd(t[1]), dd(t[0])), sub3(dd(t[2]), dd(t[0])))) > 0.2;
    if !ok(&ts[0]) || !ok(&ts[1]) { return c.skip(); }
    let (a, b) = (tri_of(ts[0]), tri_of(ts[1]));
    let (ga, gb) = (a.geom(), b.geom());
    let mut g = f64::NEG_INFINITY;
    for u in ga.n[1..].iter().chain(&gb.n[1..]) {
        let (mut a0, mut a1, mut b0, mut b1) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
        for v in &ga.v { let x = dot3(*u, *v); a0 = a0.min(x); a1 = a1.max(x); }
        for v in &gb.v { let x = dot3(*u, *v); b0 = b0.min(x); b1 = b1.max(x); }
        g = g.max(b0 - a1).max(a0 - b1);
    }
    tri_check(c, a, b, g)
}
/// small-grid coordinates: vertices lie exactly on the other triangle's plane now and then
fn vertex_on_plane(c: &mut Case) {
    let mut ts = [[[0.0f32; 3]; 3]; 2];
    let k = c.idx(3) as usize;
    let z = grid(c);
    for (i, t) in ts.iter_mut().enumerate() { for v in t.iter_mut() { for j in 0..3 { v[j] = if i == 0 && j == k { z } else { grid(c) }; } } }
    // exactly one or two vertices of the second lie in the first's plane
    let p = c.idx(3) as usize;
    ts[1][p][k] = z;
    if c.coin() { ts[1][(p + 1) % 3][k] = z; }
    for x in ts.iter().flatten().flatten() { c.log(x.to_bits()); }
    let ok = |t: &[[f32; 3]; 3]| len3(cross3(sub3(dd(t[1]), dd(t[0])), sub3(dd(t[2]), dd(t[0])))) > 0.2;
    if !ok(&ts[0]) || !ok(&ts[1]) || (0..3).all(|i| ts[1][i][k] == z) { return c.skip(); }
    // the part of the second triangle in the plane, plus strictly crossing edges, against the first triangle (2D)
    let t1 = ts[1].map(dd);
    let zz = z as f64;
    let mut pts = vec![];
    for i in 0..3 {
        let (a, b) = (t1[i], t1[(i + 1) % 3]);
        if a[k] == zz { pts.push(a); }
        let (da, db) = (a[k] - zz, b[k] - zz);
        if da * db < 0.0 { pts.push(add3(a, mul3(sub3(b, a), da / (da - db)))); }
    }
    let (a, b) = (tri_of(ts[0]), tri_of(ts[1]));
    let ga = a.geom();
    // signed distance (inside negative) of the segment against the triangle, in the plane
    let seg: Vec<D3> = pts;
    let mut axes: Vec<D3> = ga.n[1..].to_vec();
    if seg.len() == 2 && len3(sub3(seg[1], seg[0])) > 1e-6 { axes.push(norm3(cross3(ga.n[0], sub3(seg[1], seg[0])))); }
    let mut g = f64::NEG_INFINITY;
    for u in axes {
        let (mut a0, mut a1, mut b0, mut b1) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
        for v in &ga.v { let x = dot3(u, *v); a0 = a0.min(x); a1 = a1.max(x); }
        for v in &seg { let x = dot3(u, *v); b0 = b0.min(x); b1 = b1.max(x); }
        g = g.max(b0 - a1).max(a0 - b1);
    }
    tri_check(c, a, b, g)
}
