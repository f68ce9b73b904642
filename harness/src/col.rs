//! f64 reference geometry for the bounding-volume monitors: convex polytopes (separating axes over every face
//! normal and edge pair), spheres, signed containment depth, and shape generators aimed at the decision boundary.
use crate::core::*;
use directx_math::collision::*;
use crate::geo::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Sphere, Box, OBox, Frustum, Tri }
pub const VOLS: [K; 4] = [K::Sphere, K::Box, K::OBox, K::Frustum];

/// a shape exactly as it is handed to the crate (f32 fields)
#[derive(Clone, Debug)]
pub struct Sh {
    pub k: K,
    pub p: [f32; 3],
    pub e: [f32; 3],
    pub q: [f32; 4],
    pub f: [f32; 6], // right left top bottom near far
    pub t: [[f32; 3]; 3],
    pub w: [f32; 3], // ignored lanes of the triangle vertices
    pub r: f32,
}
pub fn xf3(a: [f32; 3]) -> XMFLOAT3 { XMFLOAT3 { x: a[0], y: a[1], z: a[2] } }
pub fn xf4(a: [f32; 4]) -> XMFLOAT4 { XMFLOAT4 { x: a[0], y: a[1], z: a[2], w: a[3] } }
pub fn dd(a: [f32; 3]) -> D3 { [a[0] as f64, a[1] as f64, a[2] as f64] }
impl Sh {
    pub fn sphere(&self) -> BoundingSphere { bb(BoundingSphere { Center: xf3(self.p), Radius: self.r }) }
    pub fn aabb(&self) -> BoundingBox { bb(BoundingBox { Center: xf3(self.p), Extents: xf3(self.e) }) }
    pub fn obb(&self) -> BoundingOrientedBox { bb(BoundingOrientedBox { Center: xf3(self.p), Extents: xf3(self.e), Orientation: xf4(self.q) }) }
    pub fn frustum(&self) -> BoundingFrustum {
        let f = self.f;
        bb(BoundingFrustum { Origin: xf3(self.p), Orientation: xf4(self.q), RightSlope: f[0], LeftSlope: f[1], TopSlope: f[2], BottomSlope: f[3], Near: f[4], Far: f[5] })
    }
    pub fn v(&self, i: usize) -> XMVECTOR { xv([self.t[i][0], self.t[i][1], self.t[i][2], self.w[i]]) }
    pub fn shift(&mut self, d: D3) {
        for i in 0..3 {
            self.p[i] = (self.p[i] as f64 + d[i]) as f32;
            for j in 0..3 { self.t[j][i] = (self.t[j][i] as f64 + d[i]) as f32; }
        }
    }
    pub fn log(&self, c: &mut Case) {
        for x in self.p.iter().chain(&self.e).chain(&self.q).chain(&self.f).chain(&[self.r]) { c.log(x.to_bits()); }
        if self.k == K::Tri { for x in self.t.iter().flatten() { c.log(x.to_bits()); } }
    }
    pub fn geom(&self) -> G {
        if self.k == K::Sphere { return G { ball: Some((dd(self.p), self.r as f64)), ..Default::default() }; }
        let mut g = G::default();
        let qd: D4 = if self.k == K::OBox || self.k == K::Frustum { qnorm([self.q[0] as f64, self.q[1] as f64, self.q[2] as f64, self.q[3] as f64]) } else { [0.0, 0.0, 0.0, 1.0] };
        let o = dd(self.p);
        match self.k {
            K::Box | K::OBox => {
                let e = dd(self.e);
                for i in 0..8 {
                    let s = |b: usize| if i >> b & 1 == 1 { 1.0 } else { -1.0 };
                    g.v.push(add3(o, qrot(qd, [s(0) * e[0], s(1) * e[1], s(2) * e[2]])));
                }
                for a in 0..3 {
                    let mut n = [0.0; 3];
                    n[a] = 1.0;
                    let n = qrot(qd, n);
                    g.e.push(n);
                    for s in [1.0, -1.0] {
                        let m = mul3(n, s);
                        g.pl.push((m, -dot3(m, o) - e[a]));
                    }
                }
                for a in 0..3 {
                    let (b, d) = ((a + 1) % 3, (a + 2) % 3);
                    for s in 0..2 {
                        let base = s << a;
                        let q = [base, base | 1 << b, base | 1 << b | 1 << d, base | 1 << d];
                        g.tris.push([q[0], q[1], q[2]]);
                        g.tris.push([q[0], q[2], q[3]]);
                    }
                }
            }
            K::Frustum => {
                let f = self.f.map(|x| x as f64);
                // index bits: 0 = left/right, 1 = bottom/top, 2 = near/far
                for i in 0..8 {
                    let z = if i & 4 == 4 { f[5] } else { f[4] };
                    let x = if i & 1 == 1 { f[0] } else { f[1] };
                    let y = if i & 2 == 2 { f[2] } else { f[3] };
                    g.v.push(add3(o, qrot(qd, [x * z, y * z, z])));
                }
                let pls = [([0.0, 0.0, -1.0], f[4]), ([0.0, 0.0, 1.0], -f[5]), ([1.0, 0.0, -f[0]], 0.0), ([-1.0, 0.0, f[1]], 0.0), ([0.0, 1.0, -f[2]], 0.0), ([0.0, -1.0, f[3]], 0.0)];
                for (n, d) in pls {
                    let l = len3(n);
                    let n = qrot(qd, mul3(n, 1.0 / l));
                    g.pl.push((n, d / l - dot3(n, o)));
                }
                for d in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [f[0], f[2], 1.0], [f[0], f[3], 1.0], [f[1], f[2], 1.0], [f[1], f[3], 1.0]] { g.e.push(norm3(qrot(qd, d))); }
                for a in 0..3 {
                    let (b, d) = ((a + 1) % 3, (a + 2) % 3);
                    for s in 0..2 {
                        let base = s << a;
                        let q = [base, base | 1 << b, base | 1 << b | 1 << d, base | 1 << d];
                        g.tris.push([q[0], q[1], q[2]]);
                        g.tris.push([q[0], q[2], q[3]]);
                    }
                }
            }
            K::Tri => {
                for i in 0..3 { g.v.push(dd(self.t[i])); }
                let n = norm3(cross3(sub3(g.v[1], g.v[0]), sub3(g.v[2], g.v[0])));
                g.n.push(n);
                for i in 0..3 {
                    let e = norm3(sub3(g.v[(i + 1) % 3], g.v[i]));
                    g.e.push(e);
                    g.n.push(cross3(n, e));
                }
                g.tris.push([0, 1, 2]);
            }
            _ => unreachable!(),
        }
        for (n, _) in &g.pl { g.n.push(*n); }
        g
    }
}
#[derive(Default, Clone)]
pub struct G {
    pub ball: Option<(D3, f64)>,
    pub v: Vec<D3>,
    pub n: Vec<D3>,        // separating-axis candidates from faces
    pub e: Vec<D3>,        // edge directions
    pub pl: Vec<(D3, f64)>, // outward planes (volumes only)
    pub tris: Vec<[usize; 3]>,
}
impl G {
    pub fn size(&self) -> f64 {
        match self.ball {
            Some((c, r)) => max3(c) + r.abs(),
            None => self.v.iter().fold(0.0, |m, v| m.max(max3(*v))),
        }
    }
    /// how far the worst point of b lies outside this volume (negative: contained with that clearance), and the direction
    pub fn outside(&self, b: &G) -> (f64, D3) {
        let mut best = (f64::NEG_INFINITY, [0.0; 3]);
        match self.ball {
            Some((c, r)) => match b.ball {
                Some((c2, r2)) => {
                    let d = sub3(c2, c);
                    best = (len3(d) + r2 - r, if len3(d) > 0.0 { norm3(d) } else { [1.0, 0.0, 0.0] });
                }
                None => for v in &b.v {
                    let d = sub3(*v, c);
                    if len3(d) - r > best.0 { best = (len3(d) - r, if len3(d) > 0.0 { norm3(d) } else { [1.0, 0.0, 0.0] }); }
                },
            },
            None => for (n, d) in &self.pl {
                let m = match b.ball {
                    Some((c2, r2)) => dot3(*n, c2) + d + r2,
                    None => b.v.iter().fold(f64::NEG_INFINITY, |m, v| m.max(dot3(*n, *v) + d)),
                };
                if m > best.0 { best = (m, *n); }
            },
        }
        best
    }
    /// the largest distance by which b lies entirely outside a single plane of this volume
    pub fn beyond_plane(&self, b: &G) -> (f64, D3) { beyond(&self.pl, b) }
    pub fn dist_point(&self, p: D3) -> (f64, D3) {
        // (distance to the hull, direction from the hull to p)
        if !self.pl.is_empty() && self.pl.iter().all(|(n, d)| dot3(*n, p) + d <= 0.0) { return (0.0, [0.0; 3]); }
        let mut best = (f64::INFINITY, [0.0; 3]);
        for t in &self.tris {
            let q = closest_tri(p, self.v[t[0]], self.v[t[1]], self.v[t[2]]);
            let d = sub3(p, q);
            if len3(d) < best.0 { best = (len3(d), d); }
        }
        (best.0, if best.0 > 1e-12 { norm3(best.1) } else { [0.0; 3] })
    }
}
pub fn beyond(pl: &[(D3, f64)], b: &G) -> (f64, D3) {
    let mut best = (f64::NEG_INFINITY, [0.0; 3]);
    for (n, d) in pl {
        let m = match b.ball {
            Some((c2, r2)) => dot3(*n, c2) + d - r2,
            None => b.v.iter().fold(f64::INFINITY, |m, v| m.min(dot3(*n, *v) + d)),
        };
        if m > best.0 { best = (m, *n); }
    }
    best
}
pub fn closest_tri(p: D3, a: D3, b: D3, c: D3) -> D3 {
    let (ab, ac, ap) = (sub3(b, a), sub3(c, a), sub3(p, a));
    let (d1, d2) = (dot3(ab, ap), dot3(ac, ap));
    if d1 <= 0.0 && d2 <= 0.0 { return a; }
    let bp = sub3(p, b);
    let (d3_, d4_) = (dot3(ab, bp), dot3(ac, bp));
    if d3_ >= 0.0 && d4_ <= d3_ { return b; }
    let vc = d1 * d4_ - d3_ * d2;
    if vc <= 0.0 && d1 >= 0.0 && d3_ <= 0.0 { return add3(a, mul3(ab, d1 / (d1 - d3_))); }
    let cp = sub3(p, c);
    let (d5, d6) = (dot3(ab, cp), dot3(ac, cp));
    if d6 >= 0.0 && d5 <= d6 { return c; }
    let vb = d5 * d2 - d1 * d6;
    if vb <= 0.0 && d2 >= 0.0 && d6 <= 0.0 { return add3(a, mul3(ac, d2 / (d2 - d6))); }
    let va = d3_ * d6 - d5 * d4_;
    if va <= 0.0 && d4_ - d3_ >= 0.0 && d5 - d6 >= 0.0 { return add3(b, mul3(sub3(c, b), (d4_ - d3_) / ((d4_ - d3_) + (d5 - d6)))); }
    let den = 1.0 / (va + vb + vc);
    add3(a, add3(mul3(ab, vb * den), mul3(ac, vc * den)))
}
pub struct Gap { pub all: f64, pub robust: f64, pub dir: D3, pub edge: bool }
/// signed separation of two convex shapes. `all`: over every candidate axis; `robust`: only over well conditioned axes.
pub fn gap(a: &G, b: &G) -> Gap {
    if a.ball.is_some() && b.ball.is_some() {
        let ((c1, r1), (c2, r2)) = (a.ball.unwrap(), b.ball.unwrap());
        let d = sub3(c2, c1);
        let g = len3(d) - r1 - r2;
        return Gap { all: g, robust: g, dir: if len3(d) > 0.0 { norm3(d) } else { [1.0, 0.0, 0.0] }, edge: false };
    }
    if let Some((c, r)) = a.ball {
        let (d, n) = b.dist_point(c);
        return Gap { all: d - r, robust: d - r, dir: mul3(n, -1.0), edge: false };
    }
    if let Some((c, r)) = b.ball {
        let (d, n) = a.dist_point(c);
        return Gap { all: d - r, robust: d - r, dir: n, edge: false };
    }
    let mut g = Gap { all: f64::NEG_INFINITY, robust: f64::NEG_INFINITY, dir: [1.0, 0.0, 0.0], edge: false };
    let mut test = |u: D3, rob: bool, edge: bool| {
        let (mut a0, mut a1, mut b0, mut b1) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
        for v in &a.v { let x = dot3(u, *v); a0 = a0.min(x); a1 = a1.max(x); }
        for v in &b.v { let x = dot3(u, *v); b0 = b0.min(x); b1 = b1.max(x); }
        let (s1, s2) = (b0 - a1, a0 - b1);
        let (s, d) = if s1 > s2 { (s1, u) } else { (s2, mul3(u, -1.0)) };
        if s > g.all { g.all = s; g.dir = d; g.edge = edge; }
        if rob && s > g.robust { g.robust = s; }
    };
    for n in a.n.iter().chain(&b.n) { test(*n, true, false); }
    for x in &a.e { for y in &b.e {
        let k = cross3(*x, *y);
        let l = len3(k);
        if l > 1e-8 { test(mul3(k, 1.0 / l), l > 2e-2, true); }
    } }
    g
}

// ---------------- generators
pub fn quat(c: &mut Case, other: Option<[f32; 4]>) -> [f32; 4] {
    match c.r.below(12) {
        0 | 1 => [0.0, 0.0, 0.0, 1.0],
        2 => { let s = std::f32::consts::FRAC_1_SQRT_2; let mut q = [0.0, 0.0, 0.0, s]; q[c.r.below(3) as usize] = if c.r.coin() { s } else { -s }; q }
        3 if other.is_some() => {
            let q = other.unwrap();
            match c.r.below(4) {
                0 | 1 => q,
                2 => q.map(|x| -x),
                _ => { // almost the same orientation
                    let e = c.r.range(-10.0, -3.0).exp2();
                    qnorm([0, 1, 2, 3].map(|i| q[i] as f64 + e * c.r.gauss())).map(|x| x as f32)
                }
            }
        }
        4 => { // small rotation
            let mut q = [0.0; 4]; for i in 0..3 { q[i] = c.r.range(-1.0, 1.0) * 1e-3; } q[3] = 1.0; let q = qnorm(q); q.map(|x| x as f32) }
        5 => { // about one axis, or with some components exactly zero
            let mut q = [0.0; 4];
            if c.r.coin() { q[c.r.below(3) as usize] = c.r.gauss(); q[3] = c.r.gauss(); } else { for x in q.iter_mut() { if c.r.coin() { *x = c.r.gauss(); } } }
            if lenn(&q, 4) < 0.1 { q = [0.0, 1.0, 0.0, 0.0]; }
            qnorm(q).map(|x| x as f32) }
        6 if c.r.coin() => exact_quat(c),
        _ => { let mut q = [0.0; 4]; loop { for i in 0..4 { q[i] = c.r.gauss(); } if lenn(&q, 4) > 0.1 { break; } } qnorm(q).map(|x| x as f32) }
    }
}
fn blank(k: K) -> Sh { Sh { k, p: [0.0; 3], e: [0.0; 3], q: [0.0, 0.0, 0.0, 1.0], f: [0.0; 6], t: [[0.0; 3]; 3], w: [0.0; 3], r: 0.0 } }
/// shape of kind k roughly of radius `s` around `at`
pub fn shape(c: &mut Case, k: K, s: f64, at: D3, other: Option<[f32; 4]>) -> Sh {
    let mut h = blank(k);
    for i in 0..3 { h.p[i] = at[i] as f32; }
    match k {
        K::Sphere => h.r = (s * c.r.range(0.3, 1.0)) as f32,
        K::Box | K::OBox => {
            for i in 0..3 { h.e[i] = (s * if c.r.chance(1, 5) { c.r.range(0.02, 0.2) } else if c.r.chance(1, 12) { c.r.range(-9.0, -5.0).exp2() } else { c.r.range(0.2, 1.0) }) as f32; }
            if c.r.chance(1, 16) { h.e[c.r.below(3) as usize] = 0.0; } // a flat box
            if k == K::OBox { h.q = quat(c, other); }
        }
        K::Frustum => {
            let asym = c.r.chance(1, 3);
            let r = c.r.range(0.15, 1.6);
            let l = if asym { r - c.r.range(0.3, 2.5) } else { -r };
            let t = c.r.range(0.15, 1.6);
            let b = if asym { t - c.r.range(0.3, 2.5) } else { -t };
            let far = s * c.r.range(0.5, 1.2);
            let near = far * c.r.range(0.03, 0.8);
            h.f = [r as f32, l as f32, t as f32, b as f32, near as f32, far as f32];
            h.q = quat(c, other);
            if c.r.chance(1, 10) { h.f = [-h.f[0], -h.f[1], -h.f[2], -h.f[3], -h.f[5], -h.f[4]]; } // looks down -z (right handed)
        }
        K::Tri => loop {
            let mut t = [[0.0f64; 3]; 3];
            for v in t.iter_mut() { for x in v.iter_mut() { *x = c.r.range(-1.0, 1.0) * s; } }
            if c.r.chance(1, 4) { let k = c.r.below(3) as usize; let z = t[0][k]; for v in t.iter_mut() { v[k] = z; } }
            let n = len3(cross3(sub3(t[1], t[0]), sub3(t[2], t[0])));
            let m = len3(sub3(t[1], t[0])).min(len3(sub3(t[2], t[0]))).min(len3(sub3(t[2], t[1])));
            if m > 0.1 * s && n > 0.05 * s * m {
                for i in 0..3 { for j in 0..3 { h.t[i][j] = (t[i][j] + at[j]) as f32; } }
                break;
            }
        },
    }
    if k == K::Tri { for i in 0..3 { h.w[i] = c.junk(); } }
    h
}
/// a size: usually moderate, now and then microscopic or huge
pub fn scale(c: &mut Case) -> f64 { if c.r.chance(1, 6) { c.r.range(-17.0, 17.0).exp2() } else { c.r.range(-5.0, 5.0).exp2() } }
/// two shapes placed so that the outcome is balanced between separated, overlapping and contained, often near the boundary
pub fn pair(c: &mut Case, ka: K, kb: K) -> (Sh, Sh) {
    let sa = scale(c);
    let ratio = if c.r.coin() { c.r.range(-3.0, 0.5).exp2() } else { c.r.range(-0.7, 3.0).exp2() };
    let ratio = if !(ka == K::Tri && kb == K::Tri) && c.r.chance(1, 12) { ratio * (c.r.sign() * c.r.range(1.0, 6.0)).exp2() } else { ratio };
    let sb = sa * ratio;
    let spread = c.r.pick(&[0.0, 1.0, 3.0, 10.0]);
    let at = [c.r.range(-1.0, 1.0) * spread * sa, c.r.range(-1.0, 1.0) * spread * sa, c.r.range(-1.0, 1.0) * spread * sa];
    let a = shape(c, ka, sa, at, None);
    let d = norm3([c.r.gauss() + 1e-9, c.r.gauss(), c.r.gauss()]);
    let l = c.r.range(0.0, 1.3) * (sa + sb);
    let at_b = add3(at, mul3(d, l));
    let mut b = shape(c, kb, sb, at_b, Some(a.q));
    if ka == kb && ka != K::Tri && c.r.chance(1, 12) {
        // the same volume, or one that shares the centre
        if c.r.coin() { b = a.clone(); } else { b.p = a.p; }
        a.log(c);
        b.log(c);
        return (a, b);
    }
    let mode = c.r.below(5);
    if mode < 3 {
        for _ in 0..2 {
            let (ga, gb) = (a.geom(), b.geom());
            let s = ga.size().max(gb.size());
            let t = s * c.r.range(-11.5, -3.0).exp2() * c.r.sign();
            if mode < 2 {
                let g = gap(&ga, &gb);
                b.shift(mul3(g.dir, t - g.all));
            } else if ka != K::Tri {
                let (o, n) = if ka == K::Frustum && c.r.coin() { ga.beyond_plane(&gb) } else { ga.outside(&gb) };
                b.shift(mul3(n, t - o));
            }
        }
    }
    a.log(c);
    b.log(c);
    (a, b)
}
/// orientations whose rotation matrix is exact in f32 (the rotations of a tetrahedron)
pub fn exact_quat(c: &mut Case) -> [f32; 4] {
    match c.r.below(4) {
        0 | 1 => { let mut q = [0.0; 4]; q[c.r.below(4) as usize] = if c.r.coin() { 1.0 } else { -1.0 }; q }
        _ => { let mut q = [0.5f32; 4]; for x in q.iter_mut() { if c.r.coin() { *x = -0.5; } } q }
    }
}
/// a shape on a coarse lattice (all coordinates multiples of 2^k/2): touching configurations are frequent and every
/// intermediate result of a test is exact, so the verdict is decided even when the shapes only touch
pub fn lattice(c: &mut Case, k: K, unit: f32) -> Sh {
    let mut h = blank(k);
    let z = |c: &mut Case, n: u32| (c.r.below(2 * n + 1) as f32 - n as f32) * 0.5 * unit;
    for i in 0..3 { h.p[i] = z(c, 8); }
    match k {
        K::Sphere => h.r = c.r.below(9) as f32 * 0.5 * unit,
        K::Box | K::OBox => {
            for i in 0..3 { h.e[i] = c.r.below(7) as f32 * 0.5 * unit; }
            if k == K::OBox { h.q = exact_quat(c); }
        }
        K::Frustum => {
            let s = [-2.0f32, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 2.0];
            for k in [0, 2] {
                let i = c.r.below(8) as usize;
                let j = i + 1 + c.r.below(8 - i as u32) as usize;
                h.f[k] = s[j];
                h.f[k + 1] = s[i];
            }
            h.f[4] = (1 + c.r.below(4)) as f32 * 0.5 * unit;
            h.f[5] = h.f[4] + (1 + c.r.below(6)) as f32 * 0.5 * unit;
            h.q = exact_quat(c);
        }
        _ => {
            let ax = if c.r.coin() { 3 } else { c.r.below(3) as usize };
            loop {
                for i in 0..3 { for j in 0..3 { h.t[i][j] = z(c, 8); } }
                if ax < 3 { for i in 1..3 { h.t[i][ax] = h.t[0][ax]; } }
                if len3(cross3(sub3(dd(h.t[1]), dd(h.t[0])), sub3(dd(h.t[2]), dd(h.t[0])))) > 0.0 { break; }
            }
            for i in 0..3 { h.w[i] = c.junk(); }
        }
    }
    h
}
/// a sphere that touches a lattice triangle exactly: rounding-free only at a vertex and not straight above it (the
/// projection on the plane or an edge involves a division)
pub fn inexact_touch(a: &Sh, b: &Sh) -> bool {
    if a.k != K::Sphere || b.k != K::Tri { return false; }
    let (c, r) = (dd(a.p), a.r as f64);
    let at_vertex = b.t.iter().any(|v| (len3(sub3(dd(*v), c)) - r).abs() <= 1e-9 * r);
    let n = norm3(cross3(sub3(dd(b.t[1]), dd(b.t[0])), sub3(dd(b.t[2]), dd(b.t[0]))));
    let h = dot3(n, sub3(c, dd(b.t[0]))).abs();
    !at_vertex || (h >= 0.999 * r && max3(n) < 1.0)
}
pub fn lattice_unit(c: &mut Case) -> f32 { if c.r.coin() { 1.0 } else { (c.r.below(13) as f32 - 6.0).exp2() } }
pub fn margin(a: &G, b: &G) -> f64 { 4e-5 * a.size().max(b.size()) }
pub fn bname(k: K) -> &'static str { match k { K::Sphere => "BoundingSphere", K::Box => "BoundingBox", K::OBox => "BoundingOrientedBox", K::Frustum => "BoundingFrustum", K::Tri => "triangle_tests" } }
