//! C17: containment classification (point / triangle / volume in volume, volume or triangle against a plane set).
use crate::col::*;
use crate::core::*;
use crate::geo::*;
use directx_math::collision::*;
use directx_math::collision::ContainmentType::*;

macro_rules! on { ($s:expr, $f:ident, $($a:expr),*) => { match $s.k { K::Sphere => $s.sphere().$f($($a),*), K::Box => $s.aabb().$f($($a),*), K::OBox => $s.obb().$f($($a),*), _ => $s.frustum().$f($($a),*) } } }
pub fn ct(x: ContainmentType) -> u32 { match x { DISJOINT => 0, INTERSECTS => 1, CONTAINS => 2 } }
fn contains(a: &Sh, b: &Sh) -> ContainmentType {
    match b.k {
        K::Sphere => on!(a, ContainsSphere, &b.sphere()),
        K::Box => on!(a, ContainsBox, &b.aabb()),
        K::OBox => on!(a, ContainsOrientedBox, &b.obb()),
        K::Frustum => on!(a, ContainsFrustum, &b.frustum()),
        K::Tri => on!(a, ContainsTriangle, b.v(0), b.v(1), b.v(2)),
    }
}
fn name(k: K) -> &'static str { match k { K::Sphere => "Sphere", K::Box => "Box", K::OBox => "OrientedBox", K::Frustum => "Frustum", K::Tri => "Triangle" } }
pub fn run(m: &mut Mon) {
    let n = 1500;
    for ka in VOLS {
        for kb in [K::Sphere, K::Box, K::OBox, K::Frustum, K::Tri] {
            m.run(&format!("{}::Contains{}", bname(ka), name(kb)), n, |c| {
                let (a, b) = pair(c, ka, kb);
                let (ga, gb) = (a.geom(), b.geom());
                let mg = margin(&ga, &gb);
                let out = ga.outside(&gb).0;
                // a frustum classifies against its six planes; the other volumes classify exactly
                let (gall, grob) = if ka == K::Frustum { let x = ga.beyond_plane(&gb).0; (x, x) } else { let g = gap(&ga, &gb); (g.all, g.robust) };
                let e = if out < -mg { 2 } else if grob > mg { 0 } else if out > mg && gall < -mg { 1 } else { return c.skip() };
                let g = ct(contains(&a, &b));
                c.check(g == e, || format!("got {} expected {} (0 disjoint 1 intersects 2 contains); separation {:e} outside {:e}: {:?} vs {:?}", g, e, gall, out, a, b));
                c.trace(&[g as f32], &[-1.0]);
            });
        }
        m.run(&format!("{}::ContainsPoint", bname(ka)), n * 2, |c| {
            let s = scale(c);
            let at = [c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s, c.r.range(-3.0, 3.0) * s];
            let a = shape(c, ka, s, at, None);
            let g = a.geom();
            let cen = if ka == K::Frustum { mul3(g.v.iter().fold([0.0; 3], |x, v| add3(x, *v)), 0.125) } else { dd(a.p) };
            let d = norm3([c.r.gauss() + 1e-9, c.r.gauss(), c.r.gauss()]);
            let mut p = add3(cen, mul3(d, c.r.range(0.0, 1.8) * s));
            let at_p = |p: D3| G { v: vec![[p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64]], ..Default::default() };
            if c.r.chance(2, 3) {
                for _ in 0..2 {
                    let (o, nn) = g.outside(&at_p(p));
                    let t = s * c.r.range(-11.0, -3.0).exp2() * c.r.sign();
                    p = add3(p, mul3(nn, t - o));
                }
            }
            a.log(c);
            let j = c.junk();
            let pv = [p[0] as f32, p[1] as f32, p[2] as f32, j];
            for x in pv { c.log(x.to_bits()); }
            let gp = at_p(p);
            let o = g.outside(&gp).0;
            let mg = margin(&g, &gp);
            if o.abs() < mg { return c.skip(); }
            let r = ct(on!(a, ContainsPoint, xv(pv)));
            let e = if o < 0.0 { 2 } else { 0 };
            c.check(r == e, || format!("got {} expected {} outside {:e}: {:?} point {:?}", r, e, o, a, pv));
            c.trace(&[r as f32], &[-1.0]);
        });
    }
    // lattice shapes: exact arithmetic, so touching counts (volumes are closed sets)
    for ka in [K::Sphere, K::Box, K::OBox] {
        for kb in [K::Sphere, K::Box, K::OBox, K::Tri] {
            m.run(&format!("{}::Contains{}(lattice)", bname(ka), name(kb)), n, |c| {
                let u = lattice_unit(c);
                let (a, b) = (lattice(c, ka, u), lattice(c, kb, u));
                a.log(c);
                b.log(c);
                let (ga, gb) = (a.geom(), b.geom());
                let (out, g) = (ga.outside(&gb).0, gap(&ga, &gb).all);
                let tiny = 1e-9 * u as f64;
                let e = if out <= tiny { 2 } else if g > tiny { 0 } else { 1 };
                if kb == K::Sphere && b.r == 0.0 && a.e.iter().any(|x| *x == 0.0) { return c.skip(); } // a point in a flat box
                if g.abs() <= tiny && inexact_touch(&a, &b) { return c.skip(); }
                let r = ct(contains(&a, &b));
                c.check(r == e, || format!("got {} expected {} (0 disjoint 1 intersects 2 contains); separation {:e} outside {:e}: {:?} vs {:?}", r, e, g, out, a, b));
                c.trace(&[r as f32], &[-1.0]);
            });
        }
    }
    for ka in VOLS {
        m.run(&format!("{}::ContainsPoint(lattice)", bname(ka)), n, |c| {
            let u = lattice_unit(c);
            let a = lattice(c, ka, u);
            let p = lattice(c, K::Sphere, u).p;
            a.log(c);
            for x in p { c.log(x.to_bits()); }
            let o = a.geom().outside(&G { v: vec![dd(p)], ..Default::default() }).0;
            let e = if o <= 1e-9 * u as f64 { 2 } else { 0 };
            let r = ct(on!(a, ContainsPoint, xv([p[0], p[1], p[2], c.junk()])));
            c.check(r == e, || format!("got {} expected {} outside {:e}: {:?} point {:?}", r, e, o, a, p));
            c.trace(&[r as f32], &[-1.0]);
        });
    }
    // NaN positions are never inside
    for ka in VOLS.into_iter().filter(|k| *k != K::Frustum) {
        m.run(&format!("{}::ContainsPoint(nan)", bname(ka)), 200, |c| {
            let a = shape(c, ka, 1.0, [0.0; 3], None);
            let mut p = [0.1f32, 0.1, 0.3, 0.0];
            let i = c.idx(3) as usize;
            p[i] = f32::NAN;
            let r = ct(on!(a, ContainsPoint, xv(p)));
            c.check(r == 0, || format!("point {:?} reported inside", p));
        });
    }
    // six lattice planes: a volume that only touches a plane from outside is not beyond it
    for kb in [K::Sphere, K::Box, K::OBox, K::Tri] {
        m.run(&format!("{}::ContainedBy(lattice)", bname(kb)), n, |c| {
            let u = lattice_unit(c);
            let b = lattice(c, kb, u);
            b.log(c);
            let (mut pl, mut raw) = (vec![], vec![]);
            for i in 0..6 {
                let mut v = [0.0f32; 4];
                v[i / 2] = if i % 2 == 0 { 1.0 } else { -1.0 };
                v[3] = -((c.r.below(15) as f32 - 2.0) * 0.5 * u);
                for x in v { c.log(x.to_bits()); }
                pl.push((dd([v[0], v[1], v[2]]), v[3] as f64));
                raw.push(v);
            }
            let rot = c.r.below(6) as usize;
            raw.rotate_left(rot);
            let w = G { pl, ..Default::default() };
            let gb = b.geom();
            let (o, by) = (w.outside(&gb).0, w.beyond_plane(&gb).0);
            let tiny = 1e-9 * u as f64;
            let p: Vec<XMVECTOR> = raw.iter().map(|v| xv(*v)).collect();
            let g = ct(if kb == K::Tri { triangle_tests::ContainedBy(b.v(0), b.v(1), b.v(2), p[0], p[1], p[2], &p[3], &p[4], &p[5]) } else { on!(b, ContainedBy, p[0], p[1], p[2], p[3], p[4], p[5]) });
            let ok = if by > tiny { g == 0 } else if o < -tiny { g == 2 } else if o > tiny { g == 1 } else { g != 0 };
            c.check(ok, || format!("got {} beyond {:e} outside {:e}: {:?} planes {:?}", g, by, o, b, raw));
            c.trace(&[g as f32], &[-1.0]);
        });
    }
    // against an arbitrary set of six planes (outward normals)
    for kb in [K::Sphere, K::Box, K::OBox, K::Frustum, K::Tri] {
        m.run(&format!("{}::ContainedBy", bname(kb)), n * 2, |c| {
            let s = scale(c);
            let at = [c.r.range(-2.0, 2.0) * s, c.r.range(-2.0, 2.0) * s, c.r.range(-2.0, 2.0) * s];
            let sb = s * c.r.range(-3.0, 2.0).exp2();
            let off = mul3(norm3([c.r.gauss() + 1e-9, c.r.gauss(), c.r.gauss()]), c.r.range(0.0, 1.5) * s);
            let mut b = shape(c, kb, sb, add3(at, off), None);
            // planes at distance about s around `at`: random normals, or a box's
            let mut pl = vec![];
            let mut raw = vec![];
            let boxy = c.r.coin();
            for i in 0..6 {
                let mut nn = norm3([c.r.gauss() + 1e-9, c.r.gauss(), c.r.gauss()]);
                if boxy { nn = [0.0; 3]; nn[i / 2] = if i % 2 == 0 { 1.0 } else { -1.0 }; }
                let d = -dot3(nn, at) - s * c.r.range(0.3, 1.2);
                let v = [nn[0] as f32, nn[1] as f32, nn[2] as f32, d as f32];
                pl.push((dd([v[0], v[1], v[2]]), v[3] as f64));
                raw.push(v);
            }
            if c.r.chance(2, 3) {
                let w = G { pl: pl.clone(), ..Default::default() };
                let (o, nn) = if c.r.coin() { w.outside(&b.geom()) } else { w.beyond_plane(&b.geom()) };
                let t = s * c.r.range(-11.0, -3.0).exp2() * c.r.sign();
                b.shift(mul3(nn, t - o));
            }
            b.log(c);
            for x in raw.iter().flatten() { c.log(x.to_bits()); }
            let w = G { pl, ..Default::default() };
            let gb = b.geom();
            let mg = 4e-5 * gb.size().max(6.0 * s);
            let (o, by) = (w.outside(&gb).0, w.beyond_plane(&gb).0);
            let e = if by > mg { 0 } else if o < -mg { 2 } else if by < -mg && o > mg { 1 } else { return c.skip() };
            let p: Vec<XMVECTOR> = raw.iter().map(|v| xv(*v)).collect();
            let g = ct(if kb == K::Tri { triangle_tests::ContainedBy(b.v(0), b.v(1), b.v(2), p[0], p[1], p[2], &p[3], &p[4], &p[5]) } else { on!(b, ContainedBy, p[0], p[1], p[2], p[3], p[4], p[5]) });
            c.check(g == e, || format!("got {} expected {} beyond {:e} outside {:e}: {:?} planes {:?}", g, e, by, o, b, raw));
            c.trace(&[g as f32], &[-1.0]);
        });
    }
}
