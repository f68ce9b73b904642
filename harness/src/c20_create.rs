//! C20: construction, merging, transformation and corner/plane extraction of bounding volumes.
use crate::col::*;
use crate::core::*;
use crate::geo::*;
use directx_math::collision::*;

fn sh(k: K) -> Sh { Sh { k, p: [0.0; 3], e: [0.0; 3], q: [0.0, 0.0, 0.0, 1.0], f: [0.0; 6], t: [[0.0; 3]; 3], w: [0.0; 3], r: 0.0 } }
fn a3(x: XMFLOAT3) -> [f32; 3] { [x.x, x.y, x.z] }
fn of_sphere(s: &BoundingSphere) -> Sh { let mut h = sh(K::Sphere); h.p = a3(s.Center); h.r = s.Radius; h }
fn of_box(s: &BoundingBox) -> Sh { let mut h = sh(K::Box); h.p = a3(s.Center); h.e = a3(s.Extents); h }
fn of_obb(s: &BoundingOrientedBox) -> Sh { let mut h = sh(K::OBox); h.p = a3(s.Center); h.e = a3(s.Extents); h.q = [s.Orientation.x, s.Orientation.y, s.Orientation.z, s.Orientation.w]; h }
fn of_fr(s: &BoundingFrustum) -> Sh { let mut h = sh(K::Frustum); h.p = a3(s.Origin); h.q = [s.Orientation.x, s.Orientation.y, s.Orientation.z, s.Orientation.w]; h.f = [s.RightSlope, s.LeftSlope, s.TopSlope, s.BottomSlope, s.Near, s.Far]; h }
// outputs start poisoned so that a field left unwritten is seen
fn psphere() -> BoundingSphere { BoundingSphere { Center: xf3([9e9; 3]), Radius: 9e9 } }
fn pbox() -> BoundingBox { BoundingBox { Center: xf3([9e9; 3]), Extents: xf3([9e9; 3]) } }
fn pobb() -> BoundingOrientedBox { BoundingOrientedBox { Center: xf3([9e9; 3]), Extents: xf3([9e9; 3]), Orientation: xf4([9e9; 4]) } }
fn pfr() -> BoundingFrustum { BoundingFrustum { Origin: xf3([9e9; 3]), Orientation: xf4([9e9; 4]), RightSlope: 9e9, LeftSlope: 9e9, TopSlope: 9e9, BottomSlope: 9e9, Near: 9e9, Far: 9e9 } }
fn near3(c: &mut Case, w: &str, g: XMFLOAT3, e: D3, tol: f64) {
    let g = a3(g);
    for i in 0..3 { c.near(w, g[i], e[i], tol); }
}
fn any_shape(c: &mut Case, k: K) -> (Sh, f64) {
    let s = scale(c);
    let sp = c.r.pick(&[0.0, 1.0, 5.0]);
    let at = [c.r.range(-1.0, 1.0) * s * sp, c.r.range(-1.0, 1.0) * s * sp, c.r.range(-1.0, 1.0) * s * sp];
    let a = shape(c, k, s, at, None);
    a.log(c);
    (a, s)
}
/// An iterator that promises nothing about its length.
#[derive(Clone)]
struct Walk<'a>(&'a [XMFLOAT3], usize);
impl<'a> Iterator for Walk<'a> {
    type Item = &'a XMFLOAT3;
    fn next(&mut self) -> Option<Self::Item> { let p = self.0.get(self.1); self.1 += 1; p }
}
/// The same points through differently shaped iterators.
macro_rules! feed {
    ($c:expr, $v:expr, $it:ident => $call:expr) => {
        match $c.r.below(6) {
            0 => { let $it = Walk(&$v, 0); $call }
            1 => { let $it = $v.iter().filter(|_| true); $call }
            2 => { let k = $c.r.below($v.len() as u32 + 1) as usize; let $it = $v[..k].iter().chain($v[k..].iter()); $call }
            _ => { let $it = $v.iter(); $call }
        }
    };
}
fn point_set(c: &mut Case) -> Vec<XMFLOAT3> {
    let n = match c.r.below(8) { 0 => 1, 1 => 2, 2 => 3, _ => 2 + c.r.below(30) } as usize;
    // now and then a long list, once one that no 16-bit counter can hold
    let n = if c.case == 11 { 70_000 } else if c.r.chance(1, 120) { 33 + c.r.below(1400) as usize } else { n };
    let s = if c.r.chance(3, 4) { c.r.range(-5.0, 5.0) } else { c.r.range(-18.0, 18.0) }.exp2();
    let off = [c.r.range(-4.0, 4.0) * s, c.r.range(-4.0, 4.0) * s, c.r.range(-4.0, 4.0) * s];
    let q = { let q = crate::col::quat(c, None); qnorm([q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]) };
    let mode = c.r.below(6);
    let ax = [c.r.range(0.05, 1.0), c.r.range(0.05, 1.0), c.r.range(0.05, 1.0)];
    let mut v = vec![];
    for _ in 0..n {
        let mut p = [c.r.range(-1.0, 1.0) * s * ax[0], c.r.range(-1.0, 1.0) * s * ax[1], c.r.range(-1.0, 1.0) * s * ax[2]];
        match mode {
            0 => p[2] = 0.0,                      // coplanar
            1 => { p[1] = 0.0; p[2] = 0.0; }      // collinear
            2 => p = p.map(|x| (x / s * 2.0).round() * s * 0.5), // lattice, repeats
            _ => {}
        }
        if c.r.chance(4, 5) { p = qrot(q, p); }
        let p = add3(p, off);
        v.push(xf3([p[0] as f32, p[1] as f32, p[2] as f32]));
    }
    if c.r.chance(1, 10) { let p = v[0]; for x in v.iter_mut() { *x = p; } } // all equal
    if c.r.chance(1, 6) { // symmetric sets with exactly diagonal (or repeated) covariances: box, square, cube, segment, cross
        let e = [c.r.pick(&[0.0, 0.25, 0.5, 1.0]) * s, c.r.pick(&[0.0, 0.25, 0.5, 1.0]) * s, c.r.pick(&[0.0, 0.25, 0.5, 1.0]) * s];
        let o = if c.coin() { [0.0; 3] } else { off };
        v = if c.coin() {
            (0..8).map(|i| xf3([(o[0] + if i & 1 == 0 { e[0] } else { -e[0] }) as f32, (o[1] + if i & 2 == 0 { e[1] } else { -e[1] }) as f32, (o[2] + if i & 4 == 0 { e[2] } else { -e[2] }) as f32])).collect()
        } else {
            (0..6).map(|i| { let mut p = o; p[i / 2] += if i % 2 == 0 { e[i / 2] } else { -e[i / 2] }; xf3([p[0] as f32, p[1] as f32, p[2] as f32]) }).collect()
        };
        // exactly diagonal-direction segment / plane sets
        if c.r.chance(1, 3) { for p in v.iter_mut() { let k = c.r.below(3); match k { 0 => p.y = p.x, 1 => p.z = p.x, _ => { p.y = p.x; p.z = -p.x; } } } }
    }
    for p in &v { for x in a3(*p) { c.log(x.to_bits()); } }
    v
}
/// Eigenvalues of a symmetric matrix in ascending order (Jacobi, f64).
fn eig3(mut a: [[f64; 3]; 3]) -> [f64; 3] {
    for _ in 0..30 {
        for (p, q) in [(0, 1), (0, 2), (1, 2)] {
            if a[p][q] == 0.0 { continue; }
            let t = 0.5 * (2.0 * a[p][q]).atan2(a[q][q] - a[p][p]);
            let (s, c) = t.sin_cos();
            for k in 0..3 { let (x, y) = (a[k][p], a[k][q]); a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
            for k in 0..3 { let (x, y) = (a[p][k], a[q][k]); a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
        }
    }
    let mut e = [a[0][0], a[1][1], a[2][2]];
    e.sort_by(|x, y| x.partial_cmp(y).unwrap());
    e
}
fn pts(v: &[XMFLOAT3]) -> G { G { v: v.iter().map(|p| f3(*p)).collect(), ..Default::default() } }
fn rigid(c: &mut Case) -> (f32, V4, V4, D44) {
    let q = crate::col::quat(c, None);
    let sc = if c.r.chance(1, 4) { 1.0 } else { c.r.range(-3.0, 3.0).exp2() as f32 };
    let j = c.junk();
    let t = [c.r.range(-20.0, 20.0) as f32, c.r.range(-20.0, 20.0) as f32, c.r.range(-20.0, 20.0) as f32, j];
    for x in q.iter().chain(&t).chain(&[sc]) { c.log(x.to_bits()); }
    let mut m = qmat(qnorm(d4(q)));
    for i in 0..3 { for k in 0..3 { m[i][k] *= sc as f64; } }
    for k in 0..3 { m[3][k] = t[k] as f64; }
    m[3][3] = 1.0;
    (sc, q, t, m)
}
fn xform(p: D3, m: &D44) -> D3 { let r = vmul(&[p[0], p[1], p[2], 1.0], m); [r[0], r[1], r[2]] }
fn hull(g: &G) -> (D3, D3) {
    let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for v in &g.v { for i in 0..3 { lo[i] = lo[i].min(v[i]); hi[i] = hi[i].max(v[i]); } }
    (lo, hi)
}
fn box_is(c: &mut Case, w: &str, b: &BoundingBox, lo: D3, hi: D3, tol: f64) {
    near3(c, w, b.Center, mul3(add3(lo, hi), 0.5), tol);
    near3(c, w, b.Extents, mul3(sub3(hi, lo), 0.5), tol);
}
fn corners_are(c: &mut Case, w: &str, got: &G, e: &[D3], tol: f64) {
    for i in 0..8 {
        let d = len3(sub3(got.v[i], e[i]));
        if d / tol > c.st.max_ratio { c.st.max_ratio = d / tol; }
        c.check(d <= tol, || format!("{}: corner {} is {:?}, expected {:?} (off by {:e}, tol {:e})", w, i, got.v[i], e[i], d, tol));
    }
}
pub fn run(m: &mut Mon) {
    let n = 3000;
    // ---- corners and planes
    const BOXC: [usize; 8] = [4, 5, 7, 6, 0, 1, 3, 2]; // documented order: (-,-,+) (+,-,+) (+,+,+) (-,+,+) then the same at -z
    m.run("BoundingBox::GetCorners", n, |c| {
        let (a, _) = any_shape(c, K::Box);
        let mut o = [xf3([9e9; 3]); 8];
        a.aabb().GetCorners(&mut o);
        let g = a.geom();
        for i in 0..8 { near3(c, "corner", o[i], g.v[BOXC[i]], 2.0 * EPS * g.size()); }
    });
    m.run("BoundingOrientedBox::GetCorners", n, |c| {
        let (a, _) = any_shape(c, K::OBox);
        let mut o = [xf3([9e9; 3]); 8];
        a.obb().GetCorners(&mut o);
        let g = a.geom();
        for i in 0..8 { near3(c, "corner", o[i], g.v[BOXC[i]], 8.0 * EPS * (g.size() + max3(dd(a.e)))); }
    });
    m.run("BoundingFrustum::GetCorners", n, |c| {
        let (a, _) = any_shape(c, K::Frustum);
        let mut o = [xf3([9e9; 3]); 8];
        a.frustum().GetCorners(&mut o);
        let g = a.geom();
        // near then far: left-top, right-top, right-bottom, left-bottom
        let ord = [2, 3, 1, 0, 6, 7, 5, 4];
        let ext = g.v.iter().map(|v| len3(sub3(*v, dd(a.p)))).fold(0.0, f64::max);
        for i in 0..8 { near3(c, "corner", o[i], g.v[ord[i]], 8.0 * EPS * (max3(dd(a.p)) + ext)); }
    });
    m.run("BoundingFrustum::GetPlanes", n, |c| {
        let (a, _) = any_shape(c, K::Frustum);
        let g = a.geom();
        let mut p = [xv([9e9; 4]); 6];
        let mask = if c.coin() { 63 } else { c.idx(64) };
        {
            let [p0, p1, p2, p3, p4, p5] = &mut p;
            let f = a.frustum();
            f.GetPlanes((mask & 1 != 0).then_some(p0), (mask & 2 != 0).then_some(p1), (mask & 4 != 0).then_some(p2), (mask & 8 != 0).then_some(p3), (mask & 16 != 0).then_some(p4), (mask & 32 != 0).then_some(p5));
        }
        let sz = max3(dd(a.p)) + (a.f[4] as f64).abs().max((a.f[5] as f64).abs());
        for i in 0..6 {
            let v = vf(p[i]);
            if mask >> i & 1 == 0 { c.check(v == [9e9; 4], || format!("plane {} written though not requested", i)); continue; }
            let (nn, d) = g.pl[i];
            for k in 0..3 { c.near("normal", v[k], nn[k], 12.0 * EPS); }
            c.near("distance", v[3], d, 20.0 * EPS * sz);
        }
    });
    // ---- merging
    m.run("BoundingSphere::CreateMerged", n, |c| {
        let (a, b) = pair(c, K::Sphere, K::Sphere);
        let mut o = psphere();
        BoundingSphere::CreateMerged(&mut o, &a.sphere(), &b.sphere());
        let g = of_sphere(&o).geom();
        let s = a.geom().size().max(b.geom().size());
        let tol = 12.0 * EPS * s;
        for x in [&a, &b] {
            let out = g.outside(&x.geom()).0;
            if out / tol > c.st.max_ratio { c.st.max_ratio = out / tol; }
            c.check(out <= tol, || format!("merged sphere {:?} misses {:?} by {:e}", o, x, out));
        }
        let d = len3(sub3(dd(a.p), dd(b.p)));
        let (r1, r2) = (a.r as f64, b.r as f64);
        c.near("radius", o.Radius, r1.max(r2).max((d + r1 + r2) * 0.5), tol);
    });
    m.run("BoundingBox::CreateMerged", n, |c| {
        let (a, b) = pair(c, K::Box, K::Box);
        let mut o = pbox();
        BoundingBox::CreateMerged(&mut o, &a.aabb(), &b.aabb());
        let (ga, gb) = (a.geom(), b.geom());
        let ((l1, h1), (l2, h2)) = (hull(&ga), hull(&gb));
        let lo = [l1[0].min(l2[0]), l1[1].min(l2[1]), l1[2].min(l2[2])];
        let hi = [h1[0].max(h2[0]), h1[1].max(h2[1]), h1[2].max(h2[2])];
        box_is(c, "merged", &o, lo, hi, 3.0 * EPS * ga.size().max(gb.size()));
    });
    // ---- conversions between volumes
    m.run("BoundingSphere::CreateFromBoundingBox", n, |c| {
        let (a, _) = any_shape(c, K::OBox);
        let l = len3(dd(a.e));
        let mut o = psphere();
        BoundingSphere::CreateFromBoundingBox(&mut o, &a.aabb());
        c.check(a3(o.Center) == a.p, || format!("center {:?}", o.Center));
        c.near("radius", o.Radius, l, 4.0 * EPS * l);
        let mut o = psphere();
        BoundingSphere::CreateFromBoundingOrientedBox(&mut o, &a.obb());
        c.check(a3(o.Center) == a.p, || format!("center {:?}", o.Center));
        c.near("radius", o.Radius, l, 4.0 * EPS * l);
    });
    m.run("BoundingSphere::CreateFromFrustum", n, |c| {
        let (a, _) = any_shape(c, K::Frustum);
        let mut o = psphere();
        BoundingSphere::CreateFromFrustum(&mut o, &a.frustum());
        let g = a.geom();
        let out = of_sphere(&o).geom().outside(&g).0;
        let tol = 24.0 * EPS * (g.size() + max3(dd(a.p)));
        if out / tol > c.st.max_ratio { c.st.max_ratio = out / tol; }
        c.check(out <= tol, || format!("sphere {:?} misses a corner of {:?} by {:e}", o, a, out));
        c.check(out >= -2.0 * tol, || format!("sphere {:?} is {:e} away from every corner of {:?}", o, -out, a));
        let mut diam = 0.0f64;
        for a in &g.v { for b in &g.v { diam = diam.max(len3(sub3(*a, *b))); } }
        c.check(o.Radius as f64 <= 0.9 * diam + tol && o.Radius as f64 >= 0.5 * diam - tol, || format!("radius {:e} for a frustum of diameter {:e}", o.Radius, diam));
    });
    m.run("BoundingBox::CreateFromSphere", n, |c| {
        let (a, _) = any_shape(c, K::Sphere);
        let mut o = pbox();
        BoundingBox::CreateFromSphere(&mut o, &a.sphere());
        let (p, r) = (dd(a.p), a.r as f64);
        box_is(c, "from sphere", &o, sub3(p, [r; 3]), add3(p, [r; 3]), 3.0 * EPS * (max3(p) + r));
    });
    m.run("BoundingOrientedBox::CreateFromBoundingBox", n / 4, |c| {
        let (a, _) = any_shape(c, K::Box);
        let mut o = pobb();
        BoundingOrientedBox::CreateFromBoundingBox(&mut o, &a.aabb());
        let h = of_obb(&o);
        c.check(h.p == a.p && h.e == a.e && h.q == [0.0, 0.0, 0.0, 1.0], || format!("got {:?} from {:?}", o, a));
    });
    // ---- from point sets
    m.run("BoundingBox::CreateFromPoints", n, |c| {
        let v = point_set(c);
        let mut o = pbox();
        feed!(c, v, it => BoundingBox::CreateFromPoints(&mut o, it));
        let g = pts(&v);
        let (lo, hi) = hull(&g);
        box_is(c, "from points", &o, lo, hi, 2.0 * EPS * g.size());
    });
    m.run("BoundingSphere::CreateFromPoints", n, |c| {
        let v = point_set(c);
        let mut o = psphere();
        feed!(c, v, it => BoundingSphere::CreateFromPoints(&mut o, it));
        let g = pts(&v);
        let out = of_sphere(&o).geom().outside(&g).0;
        let tol = 20.0 * EPS * g.size() + 1e-30;
        if out / tol > c.st.max_ratio { c.st.max_ratio = out / tol; }
        c.check(out <= tol, || format!("sphere {:?} misses a point by {:e} (size {:e})", o, out, g.size()));
        c.check(out >= -2.0 * tol, || format!("sphere {:?} is {:e} away from every point (size {:e})", o, -out, g.size()));
        let mut diam = 0.0f64;
        let k = 1 + g.v.len() / 1500;
        for a in g.v.iter().step_by(k) { for b in &g.v { diam = diam.max(len3(sub3(*a, *b))); } }
        c.check((k > 1 || o.Radius as f64 <= 0.9 * diam + tol) && o.Radius as f64 >= 0.5 * diam - tol, || format!("radius {:e} for a point set of diameter {:e}", o.Radius, diam));
    });
    m.run("BoundingOrientedBox::CreateFromPoints", n * 2, |c| {
        let v = point_set(c);
        let mut o = pobb();
        feed!(c, v, it => BoundingOrientedBox::CreateFromPoints(&mut o, it));
        let g = pts(&v);
        let h = of_obb(&o);
        let b = h.geom();
        let tol = 24.0 * EPS * g.size() + 1e-30;
        let out = b.outside(&g).0;
        if out / tol > c.st.max_ratio { c.st.max_ratio = out / tol; }
        c.check(out <= tol, || format!("box {:?} misses a point by {:e} (size {:e})", o, out, g.size()));
        let ql = lenn(&d4(h.q), 4);
        c.check((ql - 1.0).abs() < 1e-5, || format!("orientation {:?} is not a unit quaternion", h.q));
        // tight: every face touches a point
        for (nn, d) in &b.pl {
            let t = g.v.iter().map(|p| dot3(*nn, *p) + d).fold(f64::NEG_INFINITY, f64::max);
            c.check(t >= -tol, || format!("face {:?} of {:?} is {:e} away from every point", nn, o, -t));
        }
        // principal axes: the covariance is diagonal in the box frame when the spectrum is well separated
        if v.len() >= 4 {
            let nf = v.len() as f64;
            let mean = mul3(g.v.iter().fold([0.0; 3], |x, p| add3(x, *p)), 1.0 / nf);
            // rank-deficient, nearly isotropic and axis-symmetric sets have no unique axes, or take the documented fallbacks
            let cov = |ax: &[D3]| { let mut cv = [[0.0f64; 3]; 3]; for p in &g.v { let q = sub3(*p, mean); let y = [dot3(q, ax[0]), dot3(q, ax[1]), dot3(q, ax[2])]; for i in 0..3 { for j in 0..3 { cv[i][j] += y[i] * y[j] / nf; } } } cv };
            let w = cov(&[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
            let ev = eig3(w);
            // the first two rows of (C - eI) determine the axis of e only when they are well conditioned
            let cond = ev.iter().map(|e| { let x = cross3([w[0][0] - e, w[0][1], w[0][2]], [w[1][0], w[1][1] - e, w[1][2]]); len3(x) }).fold(f64::INFINITY, f64::min);
            let cv = cov(&[b.e[0], b.e[1], b.e[2]]);
            let tr = ev[0] + ev[1] + ev[2];
            let off = cv[0][1].abs().max(cv[0][2].abs()).max(cv[1][2].abs());
            let sp = max3(mean) / tr.sqrt().max(1e-30);
            if tr > 0.0 && cond > 0.01 * tr * tr && ev[0] > 0.02 * tr && ev[1] - ev[0] > 0.05 * tr && ev[2] - ev[1] > 0.05 * tr && sp < 10.0 {
                c.check(off < 0.02 * tr, || format!("box axes are not the principal axes: covariance {:?} (eigenvalues {:?}) of {:?}", cv, ev, o));
            }
        }
    });
    // an empty point set yields a volume that contains nothing
    m.run("CreateFromPoints(empty)", 1, |c| {
        let none: [XMFLOAT3; 0] = [];
        for p in [[0.0f32; 4], [1.0, 2.0, 3.0, 0.0], [1e30, 1e30, 1e30, 0.0]] {
            let mut s = BoundingSphere::default();
            BoundingSphere::CreateFromPoints(&mut s, none.iter());
            c.check(s.ContainsPoint(xv(p)) == ContainmentType::DISJOINT, || "sphere of nothing contains a point".into());
            let mut b = BoundingBox::default();
            BoundingBox::CreateFromPoints(&mut b, none.iter());
            c.check(b.ContainsPoint(xv(p)) == ContainmentType::DISJOINT, || "box of nothing contains a point".into());
            let mut o = BoundingOrientedBox::default();
            BoundingOrientedBox::CreateFromPoints(&mut o, none.iter());
            c.check(o.ContainsPoint(xv(p)) == ContainmentType::DISJOINT, || "oriented box of nothing contains a point".into());
        }
    });
    // ---- transformation
    m.run("BoundingSphere::TransformMatrix", n, |c| {
        let (a, _) = any_shape(c, K::Sphere);
        let (_, _, _, md) = rigid(c);
        let k = if c.coin() { [1.0, 1.0, 1.0] } else { [c.r.range(0.3, 2.0), c.r.range(0.3, 2.0), c.r.range(0.3, 2.0)] };
        let mut mm = md;
        for i in 0..3 { for j in 0..3 { mm[i][j] *= k[i]; } }
        let mf_ = [f4(mm[0]), f4(mm[1]), f4(mm[2]), f4(mm[3])];
        for x in mf_.iter().flatten() { c.log(x.to_bits()); }
        let md = d44(mf_);
        let mut o = psphere();
        a.sphere().TransformMatrix(&mut o, xm(mf_));
        let p = [a.p[0] as f64, a.p[1] as f64, a.p[2] as f64, 1.0];
        let mag = vabs(&p, &md);
        near3(c, "center", o.Center, xform(dd(a.p), &md), 6.0 * EPS * mag[0].max(mag[1]).max(mag[2]));
        let sc = (0..3).map(|i| len3([md[i][0], md[i][1], md[i][2]])).fold(0.0, f64::max);
        c.near("radius", o.Radius, a.r as f64 * sc, 6.0 * EPS * a.r as f64 * sc);
    });
    m.run("BoundingBox::TransformMatrix", n, |c| {
        let (a, s) = any_shape(c, K::Box);
        let mut mf_: M4 = [[0.0; 4]; 4];
        if c.coin() { let (_, _, _, md) = rigid(c); mf_ = [f4(md[0]), f4(md[1]), f4(md[2]), f4(md[3])]; }
        else { for i in 0..3 { for j in 0..3 { mf_[i][j] = c.md(); } } for j in 0..3 { mf_[3][j] = (c.r.range(-3.0, 3.0) * s) as f32; } mf_[3][3] = 1.0; }
        for x in mf_.iter().flatten() { c.log(x.to_bits()); }
        let md = d44(mf_);
        let mut o = pbox();
        a.aabb().TransformMatrix(&mut o, xm(mf_));
        let g = a.geom();
        let t = G { v: g.v.iter().map(|p| xform(*p, &md)).collect(), ..Default::default() };
        let (lo, hi) = hull(&t);
        let mut mag = 0.0f64;
        for p in &g.v { let w = vabs(&[p[0].abs() + max3(dd(a.p)), p[1].abs() + max3(dd(a.p)), p[2].abs() + max3(dd(a.p)), 1.0], &md); mag = mag.max(w[0]).max(w[1]).max(w[2]); }
        box_is(c, "transformed", &o, lo, hi, 8.0 * EPS * mag);
    });
    m.run("BoundingOrientedBox::TransformMatrix", n, |c| {
        let (mut a, s) = any_shape(c, K::OBox);
        let (_, _, _, mut md) = rigid(c);
        if c.coin() { // per-axis scale is exact only for a box aligned with the scaled axes
            a.q = [0.0, 0.0, 0.0, 1.0];
            let k = [c.r.range(0.3, 2.0), c.r.range(0.3, 2.0), c.r.range(0.3, 2.0)];
            for i in 0..3 { for j in 0..3 { md[i][j] *= k[i]; } }
        }
        let mf_ = [f4(md[0]), f4(md[1]), f4(md[2]), f4(md[3])];
        for x in mf_.iter().flatten() { c.log(x.to_bits()); }
        let md = d44(mf_);
        let mut o = pobb();
        a.obb().TransformMatrix(&mut o, xm(mf_));
        let g = a.geom();
        let e: Vec<D3> = g.v.iter().map(|p| xform(*p, &md)).collect();
        let big = 2.0 * mmax(&md) * (g.size() + s) + max3([md[3][0], md[3][1], md[3][2]]);
        corners_are(c, "transformed", &of_obb(&o).geom(), &e, 20.0 * EPS * big);
    });
    m.run("BoundingFrustum::TransformMatrix", n, |c| {
        let (a, s) = any_shape(c, K::Frustum);
        let (_, _, _, md) = rigid(c);
        let mf_ = [f4(md[0]), f4(md[1]), f4(md[2]), f4(md[3])];
        for x in mf_.iter().flatten() { c.log(x.to_bits()); }
        let md = d44(mf_);
        let mut o = pfr();
        a.frustum().TransformMatrix(&mut o, xm(mf_));
        let g = a.geom();
        let e: Vec<D3> = g.v.iter().map(|p| xform(*p, &md)).collect();
        let big = 2.0 * mmax(&md) * (g.size() + max3(dd(a.p)) + s) + max3([md[3][0], md[3][1], md[3][2]]);
        corners_are(c, "transformed", &of_fr(&o).geom(), &e, 30.0 * EPS * big);
    });
    for k in VOLS {
        m.run(&format!("{}::TransformDecomposed", bname(k)), n, |c| {
            let (a, s) = any_shape(c, k);
            let (sc, q, t, md) = rigid(c);
            let big = 2.0 * sc as f64 * (a.geom().size() + max3(dd(a.p)) + s) + max3(d3(t));
            let tol = 24.0 * EPS * big;
            let g = a.geom();
            let e: Vec<D3> = g.v.iter().map(|p| xform(*p, &md)).collect();
            match k {
                K::Sphere => {
                    let mut o = psphere();
                    a.sphere().TransformDecomposed(&mut o, sc, xv(q), xv(t));
                    near3(c, "center", o.Center, xform(dd(a.p), &md), tol);
                    c.near("radius", o.Radius, a.r as f64 * sc as f64, 2.0 * EPS * a.r as f64 * sc as f64);
                }
                K::Box => {
                    let mut o = pbox();
                    a.aabb().TransformDecomposed(&mut o, sc, xv(q), xv(t));
                    let (lo, hi) = hull(&G { v: e, ..Default::default() });
                    box_is(c, "transformed", &o, lo, hi, tol);
                }
                K::OBox => {
                    let mut o = pobb();
                    a.obb().TransformDecomposed(&mut o, sc, xv(q), xv(t));
                    corners_are(c, "transformed", &of_obb(&o).geom(), &e, tol);
                }
                _ => {
                    let mut o = pfr();
                    a.frustum().TransformDecomposed(&mut o, sc, xv(q), xv(t));
                    corners_are(c, "transformed", &of_fr(&o).geom(), &e, tol);
                }
            }
        });
    }
    // ---- frustum of a projection matrix
    m.run("BoundingFrustum::CreateFromMatrix", n, |c| {
        let rh = c.coin();
        let near = c.r.range(-5.0, 4.0).exp2();
        let ratio = c.r.range(0.5, 9.0).exp2();
        let far = near * ratio;
        let (r, t) = (c.r.range(0.1, 2.0), c.r.range(0.1, 2.0));
        let (l, b) = if c.coin() { (-r, -t) } else { (r - c.r.range(0.3, 3.0), t - c.r.range(0.3, 3.0)) };
        // slopes at unit depth; D3D style perspective projection (row vectors, depth 0..1)
        let z = if rh { -1.0 } else { 1.0 };
        let fr = far / (far - near);
        let mm: D44 = [[2.0 / (r - l), 0.0, 0.0, 0.0], [0.0, 2.0 / (t - b), 0.0, 0.0], [-z * (r + l) / (r - l), -z * (t + b) / (t - b), z * fr, z], [0.0, 0.0, -fr * near, 0.0]];
        let mf_ = [f4(mm[0]), f4(mm[1]), f4(mm[2]), f4(mm[3])];
        for x in mf_.iter().flatten() { c.log(x.to_bits()); }
        let mut o = pfr();
        BoundingFrustum::CreateFromMatrix(&mut o, xm(mf_), rh);
        let h = of_fr(&o);
        c.check(h.p == [0.0; 3] && h.q == [0.0, 0.0, 0.0, 1.0], || format!("pose {:?}", o));
        let k = EPS * 16.0;
        let sl = r.abs().max(l.abs()).max(t.abs()).max(b.abs());
        // slopes are stored per unit z, so they change sign with the viewing direction
        c.near("right", h.f[0], r * z, k * sl);
        c.near("left", h.f[1], l * z, k * sl);
        c.near("top", h.f[2], t * z, k * sl);
        c.near("bottom", h.f[3], b * z, k * sl);
        let (en, ef) = (k * near, k * far * (1.0 + ratio));
        if rh { c.near("near", h.f[4], -far, ef); c.near("far", h.f[5], -near, en); } else { c.near("near", h.f[4], near, en); c.near("far", h.f[5], far, ef); }
    });
}
