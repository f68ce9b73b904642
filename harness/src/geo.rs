//! f64 reference geometry shared by the oracles.
#![allow(dead_code)]
use crate::core::*;

pub type D3 = [f64; 3];
pub fn d3(a: V4) -> D3 { [a[0] as f64, a[1] as f64, a[2] as f64] }
pub fn f3(a: XMFLOAT3) -> D3 { [a.x as f64, a.y as f64, a.z as f64] }
pub fn add3(a: D3, b: D3) -> D3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub3(a: D3, b: D3) -> D3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn mul3(a: D3, s: f64) -> D3 { [a[0] * s, a[1] * s, a[2] * s] }
pub fn dot3(a: D3, b: D3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross3(a: D3, b: D3) -> D3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn len3(a: D3) -> f64 { dot3(a, a).sqrt() }
pub fn norm3(a: D3) -> D3 { mul3(a, 1.0 / len3(a)) }
pub fn max3(a: D3) -> f64 { a[0].abs().max(a[1].abs()).max(a[2].abs()) }
pub fn dotn(a: &D4, b: &D4, n: usize) -> f64 { (0..n).map(|i| a[i] * b[i]).sum() }
pub fn adotn(a: &D4, b: &D4, n: usize) -> f64 { (0..n).map(|i| (a[i] * b[i]).abs()).sum() }
pub fn lenn(a: &D4, n: usize) -> f64 { dotn(a, a, n).sqrt() }

/// Hamilton product p*q of (x,y,z,w) quaternions
pub fn qmul(p: D4, q: D4) -> D4 {
    let [a, b, c, w] = p;
    let [x, y, z, v] = q;
    [w * x + a * v + b * z - c * y, w * y - a * z + b * v + c * x, w * z + a * y - b * x + c * v, w * v - a * x - b * y - c * z]
}
pub fn qconj(q: D4) -> D4 { [-q[0], -q[1], -q[2], q[3]] }
pub fn qnorm(q: D4) -> D4 { let l = lenn(&q, 4); q.map(|x| x / l) }
/// rotate a vector by a unit quaternion: q v q*
pub fn qrot(q: D4, v: D3) -> D3 {
    let r = qmul(qmul(q, [v[0], v[1], v[2], 0.0]), qconj(q));
    [r[0], r[1], r[2]]
}
/// row-vector rotation matrix of a unit quaternion (v' = v M)
pub fn qmat(q: D4) -> D44 {
    let mut m = [[0.0; 4]; 4];
    for i in 0..3 {
        let mut e = [0.0; 3];
        e[i] = 1.0;
        let r = qrot(q, e);
        m[i] = [r[0], r[1], r[2], 0.0];
    }
    m[3][3] = 1.0;
    m
}
pub fn mmul(a: &D44, b: &D44) -> D44 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 { for j in 0..4 { r[i][j] = (0..4).map(|k| a[i][k] * b[k][j]).sum(); } }
    r
}
/// sum |a||b|: magnitude for rounding-error bounds
pub fn mabs(a: &D44, b: &D44) -> D44 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 { for j in 0..4 { r[i][j] = (0..4).map(|k| (a[i][k] * b[k][j]).abs()).sum(); } }
    r
}
pub fn mtrans(a: &D44) -> D44 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 { for j in 0..4 { r[i][j] = a[j][i]; } }
    r
}
pub fn ident() -> D44 { let mut r = [[0.0; 4]; 4]; for i in 0..4 { r[i][i] = 1.0; } r }
pub fn vmul(v: &D4, m: &D44) -> D4 { let mut r = [0.0; 4]; for j in 0..4 { r[j] = (0..4).map(|k| v[k] * m[k][j]).sum(); } r }
pub fn vabs(v: &D4, m: &D44) -> D4 { let mut r = [0.0; 4]; for j in 0..4 { r[j] = (0..4).map(|k| (v[k] * m[k][j]).abs()).sum(); } r }
pub fn det3(m: [[f64; 3]; 3]) -> f64 { dot3(m[0], cross3(m[1], m[2])) }
pub fn minor(m: &D44, i: usize, j: usize) -> f64 {
    let mut k = [[0.0; 3]; 3];
    let mut r = 0;
    for a in 0..4 { if a == i { continue; } let mut s = 0; for b in 0..4 { if b == j { continue; } k[r][s] = m[a][b]; s += 1; } r += 1; }
    det3(k)
}
pub fn det4(m: &D44) -> f64 { (0..4).map(|j| (if j % 2 == 0 { 1.0 } else { -1.0 }) * m[0][j] * minor(m, 0, j)).sum() }
pub fn minv(m: &D44) -> (D44, f64) {
    let d = det4(m);
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 { for j in 0..4 { r[j][i] = (if (i + j) % 2 == 0 { 1.0 } else { -1.0 }) * minor(m, i, j) / d; } }
    (r, d)
}
pub fn mmax(m: &D44) -> f64 { m.iter().flatten().fold(0.0, |a, x| a.max(x.abs())) }
/// matrix verdict: elementwise |got-exp| <= tol
pub fn mat_near(c: &mut Case, w: &str, g: XMMATRIX, e: &D44, tol: impl Fn(usize, usize) -> f64) {
    let g = mf(g);
    for i in 0..4 { for j in 0..4 {
        let t = tol(i, j);
        c.near(w_ij(w, i, j), g[i][j], e[i][j], t);
    } }
}
fn w_ij(w: &str, i: usize, j: usize) -> &str { let _ = (i, j); w }

/// matrices with structure that a shortcut might look for
pub fn structured(c: &mut Case) -> M4 {
    let mut m = [[0.0f32; 4]; 4];
    for i in 0..4 { m[i][i] = 1.0; }
    let rot = |c: &mut Case| qmat(qnorm(d4(c.unitn(4))));
    match c.idx(14) {
        0 => { // the identity with one or two elements changed
            for _ in 0..1 + c.r.below(2) { let (i, j) = (c.r.below(4) as usize, c.r.below(4) as usize); m[i][j] = c.md(); }
        }
        1 => { for i in 0..4 { for j in i..4 { let x = c.md(); m[i][j] = x; m[j][i] = x; } } } // symmetric
        2 => { for i in 0..4 { m[i][i] = 0.0; for j in i + 1..4 { let x = c.md(); m[i][j] = x; m[j][i] = -x; } } } // skew
        3 => { let up = c.coin(); for i in 0..4 { for j in i..4 { let x = c.md(); if up { m[i][j] = x } else { m[j][i] = x } } } } // triangular
        4 => { // rows of unit length that are not orthogonal
            for i in 0..3 { let u = c.unitn(3); for j in 0..3 { m[i][j] = u[j]; } }
            if c.coin() { for j in 0..3 { m[3][j] = c.md(); } }
        }
        5 | 6 => { // rotation or reflection, uniform scale, translation
            let r = rot(c);
            let s = if c.r.coin() { 1.0 } else { c.r.range(-6.0, 6.0).exp2() };
            let f = if c.r.coin() { -1.0 } else { 1.0 };
            for i in 0..3 { for j in 0..3 { m[i][j] = (r[i][j] * s * if i == 0 { f } else { 1.0 }) as f32; } }
            if c.coin() { for j in 0..3 { m[3][j] = c.md(); } }
        }
        7 => { for i in 0..3 { m[i][i] = c.md(); m[3][i] = c.md(); } } // scaling and translation
        8 => { // rank deficient: a row repeated, opposite or zero
            for i in 0..4 { m[i] = c.md4(); }
            let (i, j) = (c.idx(4) as usize, c.idx(4) as usize);
            let f = c.r.pick(&[1.0f32, -1.0, 0.0, 2.0]);
            m[i] = m[j].map(|x| x * f);
        }
        9 => { let r = rot(c); for i in 0..3 { for j in 0..3 { m[i][j] = r[i][j] as f32; } } for i in 0..3 { m[i][3] = c.md(); } } // rotation with a projective column
        10 => { // almost the identity
            for i in 0..4 { for j in 0..4 { m[i][j] += (c.r.sign() * c.r.range(-20.0, -8.0).exp2()) as f32; } }
        }
        11 => { let e = c.r.range(-20.0, 20.0).round().exp2() as f32; for i in 0..4 { m[i] = c.md4().map(|x| x * e); } } // one common scale
        12 => { for i in 0..4 { let e = c.r.range(-10.0, 10.0).round().exp2() as f32; m[i] = c.md4().map(|x| x * e); } } // a scale per row
        _ => { let mut k = [0usize, 1, 2, 3]; for i in (1..4).rev() { k.swap(i, c.r.below(i as u32 + 1) as usize); } for i in 0..4 { m[i] = [0.0; 4]; m[i][k[i]] = c.r.sign() as f32; } } // signed permutation
    }
    for r in &m { for x in r { c.log(x.to_bits()); } }
    m
}
