//! C15: row-vector by matrix transforms of 2-d, 3-d and 4-d points, directions and homogeneous vectors.
use crate::core::*;
use crate::geo::*;

fn mat(c: &mut Case) -> M4 {
    if c.coin() { return structured(c); }
    let k = c.idx(5);
    let mut m = [[0.0f32; 4]; 4];
    match k {
        0 => for r in 0..4 { m[r] = c.scn(4, -12.0, 12.0); },
        1 => for r in 0..4 { for j in 0..4 { m[r][j] = c.idx(9) as f32 - 4.0; } },
        2 => { for r in 0..4 { for j in 0..3 { m[r][j] = c.md(); } } m[3][3] = 1.0; }
        _ => for r in 0..4 { m[r] = c.md4(); },
    }
    m
}
fn vecn(c: &mut Case, n: usize) -> V4 { if c.coin() { c.mdn(n) } else { c.scn(n, -20.0, 20.0) } }
pub fn run(m: &mut Mon) {
    let n_ = 6000;
    type F = fn(XMVECTOR, XMMATRIX) -> XMVECTOR;
    // name, number of input components used, implied w, divide
    let fs: [(&str, F, usize, f64, bool); 7] = [
        ("XMVector2Transform", |v, m| XMVector2Transform(v, m), 2, 1.0, false),
        ("XMVector2TransformCoord", |v, m| XMVector2TransformCoord(v, m), 2, 1.0, true),
        ("XMVector2TransformNormal", |v, m| XMVector2TransformNormal(v, m), 2, 0.0, false),
        ("XMVector3Transform", |v, m| XMVector3Transform(v, m), 3, 1.0, false),
        ("XMVector3TransformCoord", |v, m| XMVector3TransformCoord(v, m), 3, 1.0, true),
        ("XMVector3TransformNormal", |v, m| XMVector3TransformNormal(v, m), 3, 0.0, false),
        ("XMVector4Transform", |v, m| XMVector4Transform(v, m), 4, 0.0, false),
    ];
    for (name, f, n, w, div) in fs {
        m.run(name, n_, |c| {
            let a = mat(c);
            let v = vecn(c, n);
            let mut x = [0.0; 4];
            for i in 0..n { x[i] = v[i] as f64; }
            if n < 4 { x[3] = w; }
            let md = d44(a);
            let (e, t) = (vmul(&x, &md), vabs(&x, &md));
            let g = f(xv(v), xm(a));
            if div {
                if e[3].abs() < 0.01 * t[3] || e[3].abs() < 1e-12 { return c.skip(); }
                let (e, t) = ([0, 1, 2, 3].map(|i| e[i] / e[3]), [0, 1, 2, 3].map(|i| 5.0 * EPS * (t[i] + (e[i] / e[3]).abs() * t[3]) / e[3].abs()));
                c.near4("coord", g, e, t);
            } else {
                c.near4("transform", g, e, t.map(|z| 4.0 * EPS * z));
            }
        });
        // junk in the unused input lanes changes nothing, and the identity is neutral
        m.run(&format!("{}[identity]", name), n_ / 4, |c| {
            let v = vecn(c, n);
            let mut x = [0.0; 4];
            x[..n].copy_from_slice(&v[..n]);
            if n < 4 { x[3] = w as f32; }
            c.ieee4("identity", f(xv(v), xm(ident().map(f4))), x);
        });
    }
    m.run("composition", n_, |c| {
        // v(AB) = (vA)B within rounding
        let (a, b) = (mat(c), mat(c));
        let v = vecn(c, 4);
        let ab = XMMatrixMultiply(xm(a), &xm(b));
        let l = vf(XMVector4Transform(xv(v), ab));
        let r = vf(XMVector4Transform(XMVector4Transform(xv(v), xm(a)), xm(b)));
        let t = vabs(&d4(v), &mabs(&d44(a), &d44(b)));
        for i in 0..4 { c.near("v(AB) vs (vA)B", l[i], r[i] as f64, 12.0 * EPS * t[i]); }
    });
}
