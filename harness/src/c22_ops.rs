//! C22: operator and conversion traits of the wrapper and storage types.
use crate::core::*;
use crate::geo::*;

fn vv(a: V4) -> XMVector { XMVector(xv(a)) }
fn mm(a: M4) -> XMMatrix { XMMatrix(xm(a)) }
fn mat(c: &mut Case) -> M4 { if c.r.chance(1, 3) { [c.any4(), c.any4(), c.any4(), c.any4()] } else if c.r.coin() { structured(c) } else { [c.md4(), c.md4(), c.md4(), c.md4()] } }
fn vec4(c: &mut Case) -> V4 { if c.r.chance(1, 2) { c.any4() } else { c.md4() } }
fn lane(f: impl Fn(f32, f32) -> f32, a: V4, b: V4) -> V4 { let mut r = [0.0; 4]; for i in 0..4 { r[i] = f(bb(a[i]), bb(b[i])); } r }
fn same(c: &mut Case, what: &str, a: XMVECTOR, b: XMVECTOR) {
    let (x, y) = (vf(a), vf(b));
    for i in 0..4 { c.check(x[i].to_bits() == y[i].to_bits() || x[i].is_nan() && y[i].is_nan(), || format!("{}[{}]: operator gives {:e}, named function {:e}", what, i, x[i], y[i])); }
}
fn rows(c: &mut Case, what: &str, got: XMMatrix, f: impl Fn(usize) -> V4) {
    let g = mf(got.0);
    for i in 0..4 { c.val4(&format!("{} row {}", what, i), xv(g[i]), f(i)); }
}
fn rows0(c: &mut Case, what: &str, got: XMMatrix, f: impl Fn(usize) -> V4) {
    let g = mf(got.0);
    for i in 0..4 { c.ieee4(&format!("{} row {}", what, i), xv(g[i]), f(i)); }
}
fn bits16(c: &mut Case, what: &str, got: &M4, exp: &M4) {
    for i in 0..4 { for j in 0..4 { c.check(got[i][j].to_bits() == exp[i][j].to_bits(), || format!("{}[{}][{}]: {:08x} expected {:08x}", what, i, j, got[i][j].to_bits(), exp[i][j].to_bits())); } }
}

macro_rules! storage {
    ($m:ident, $T:ident, $t:ty, $n:literal, $($f:ident $i:literal),*) => {
        $m.run(concat!(stringify!($T), " conversions"), 2000, |c| {
            let mut a: [$t; $n] = [Default::default(); $n];
            for i in 0..$n { let w = c.any_bits(); c.log(w); a[i] = <$t>::from_ne_bytes(w.to_ne_bytes()); }
            let ne = |x: $t| u32::from_ne_bytes(x.to_ne_bytes());
            let want: Vec<u32> = a.iter().map(|x| ne(*x)).collect();
            macro_rules! ck { ($w:literal, $got:expr) => { let g: Vec<u32> = $got; let w = &want; c.check(g == *w, || format!("{}: {:08x?} expected {:08x?}", $w, g, w)); } }
            let s = $T::from(bb(a));
            ck!("From<array> fields", vec![$(ne(s.$f)),*]);
            let s2: $T = bb(a).into();
            ck!("array.into()", vec![$(ne(s2.$f)),*]);
            let s3 = $T::set($(a[$i]),*);
            ck!("set", vec![$(ne(s3.$f)),*]);
            let back: [$t; $n] = bb(s).into();
            ck!("Into<array>", back.iter().map(|x| ne(*x)).collect());
            let r: &$T = (&a).into();
            ck!("From<&array>", vec![$(ne(r.$f)),*]);
            c.check(r as *const $T as usize == a.as_ptr() as usize, || "From<&array> is not a view".into());
            let ra: &[$t; $n] = (&s).into();
            ck!("Into<&array>", ra.iter().map(|x| ne(*x)).collect());
            c.check(ra.as_ptr() as usize == &s as *const $T as usize, || "Into<&array> is not a view".into());
            let rr: &[$t; $n] = s.as_ref();
            ck!("as_ref", rr.iter().map(|x| ne(*x)).collect());
            let mut z = s;
            let k = c.idx($n) as usize;
            let w = c.any_bits();
            { let v: &mut [$t; $n] = z.as_mut(); v[k] = <$t>::from_ne_bytes(w.to_ne_bytes()); }
            let mut e = want.clone(); e[k] = w;
            let g = vec![$(ne(z.$f)),*];
            c.check(g == e, || format!("as_mut()[{}]=: {:08x?} expected {:08x?}", k, g, e));
            let cl = z.clone();
            let g = vec![$(ne(cl.$f)),*];
            c.check(g == e, || format!("clone: {:08x?} expected {:08x?}", g, e));
            let d = $T::default();
            c.check(vec![$(ne(d.$f)),*].iter().all(|x| *x == 0), || "default is not zero".into());
            c.check(std::mem::size_of::<$T>() == $n * 4 && std::mem::align_of::<$T>() == 4, || "layout".into());
        });
    };
}
macro_rules! mstorage {
    ($m:ident, $T:ident, $r:literal, $k:literal, $n:literal) => {
        $m.run(concat!(stringify!($T), " conversions"), 2000, |c| {
            let mut a = [0f32; $n];
            for i in 0..$n { let w = c.any_bits(); c.log(w); a[i] = f32::from_bits(w); }
            let mut b = [[0f32; $k]; $r];
            for i in 0..$r { for j in 0..$k { b[i][j] = a[i * $k + j]; } }
            let want: Vec<u32> = a.iter().map(|x| x.to_bits()).collect();
            let fl = |x: &[[f32; $k]; $r]| -> Vec<u32> { x.iter().flat_map(|r| r.iter().map(|v| v.to_bits())).collect() };
            let f1 = |x: &[f32; $n]| -> Vec<u32> { x.iter().map(|v| v.to_bits()).collect() };
            macro_rules! ck { ($w:literal, $got:expr) => { let g: Vec<u32> = $got; let w = &want; c.check(g == *w, || format!("{}: {:08x?} expected {:08x?}", $w, g, w)); } }
            let s = $T::from(bb(a));
            ck!("From<flat>", fl(&s.m));
            let s2 = $T::from(bb(b));
            ck!("From<rows>", fl(&s2.m));
            let x: [f32; $n] = s.into();
            ck!("Into<flat>", f1(&x));
            let x: [[f32; $k]; $r] = s.into();
            ck!("Into<rows>", fl(&x));
            let x: &$T = (&a).into();
            ck!("From<&flat>", fl(&x.m));
            let x: &$T = (&b).into();
            ck!("From<&rows>", fl(&x.m));
            let x: &[f32; $n] = (&s).into();
            ck!("Into<&flat>", f1(x));
            let x: &[[f32; $k]; $r] = (&s).into();
            ck!("Into<&rows>", fl(x));
            let x: &[f32; $n] = s.as_ref();
            ck!("as_ref flat", f1(x));
            let x: &[[f32; $k]; $r] = s.as_ref();
            ck!("as_ref rows", fl(x));
            let i = c.idx($n) as usize;
            let w = c.any_bits();
            let mut e = want.clone(); e[i] = w;
            let mut z = s;
            { let v: &mut [f32; $n] = z.as_mut(); v[i] = f32::from_bits(w); }
            let g = fl(&z.m);
            c.check(g == e, || format!("as_mut flat [{}]: {:08x?} expected {:08x?}", i, g, e));
            let mut z = s;
            { let v: &mut [[f32; $k]; $r] = z.as_mut(); v[i / $k][i % $k] = f32::from_bits(w); }
            let g = fl(&z.m);
            c.check(g == e, || format!("as_mut rows [{}]: {:08x?} expected {:08x?}", i, g, e));
            c.check($T::default().m.iter().all(|r| r.iter().all(|v| v.to_bits() == 0)), || "default is not zero".into());
            c.check(std::mem::size_of::<$T>() == $n * 4 && std::mem::align_of::<$T>() == 4, || "layout".into());
        });
    };
}

pub fn run(m: &mut Mon) {
    macro_rules! vop { ($name:literal, $op:tt, $opa:tt, $F:ident) => {
        m.run(concat!("XMVector ", $name), 6000, |c| {
            let (a, b) = (vec4(c), vec4(c));
            let e = lane(|x, y| x $op y, a, b);
            c.val4("binary", (vv(a) $op vv(b)).0, e);
            let mut z = vv(a); z $opa vv(b);
            c.val4("assign", z.0, e);
            same(c, "named", (vv(a) $op vv(b)).0, $F(xv(a), xv(b)));
        });
    } }
    vop!("+", +, +=, XMVectorAdd);
    vop!("-", -, -=, XMVectorSubtract);
    vop!("*", *, *=, XMVectorMultiply);
    vop!("/", /, /=, XMVectorDivide);
    m.run("XMVector * f32", 6000, |c| {
        let (a, s) = (vec4(c), if c.coin() { c.any() } else { c.md() });
        let e = lane(|x, y| x * y, a, [s; 4]);
        c.val4("v * s", (vv(a) * bb(s)).0, e);
        c.val4("s * v", (bb(s) * vv(a)).0, e);
        let mut z = vv(a); z *= bb(s);
        c.val4("v *= s", z.0, e);
        same(c, "named", (vv(a) * s).0, XMVectorScale(xv(a), s));
    });
    m.run("XMVector / f32", 6000, |c| {
        let (a, s) = (vec4(c), if c.coin() { c.any() } else { c.md() });
        let e = lane(|x, y| x / y, a, [s; 4]);
        c.val4("v / s", (vv(a) / bb(s)).0, e);
        let mut z = vv(a); z /= bb(s);
        c.val4("v /= s", z.0, e);
    });
    m.run("XMVector neg", 6000, |c| {
        let a = vec4(c);
        c.ieee4("-v", (-vv(a)).0, lane(|x, _| -x, a, a));
        same(c, "named", (-vv(a)).0, XMVectorNegate(xv(a)));
    });
    m.run("XMVector ==", 6000, |c| {
        let a = vec4(c);
        let mut b = a;
        if c.r.chance(2, 3) { let i = c.idx(4) as usize; b[i] = c.any(); } else if c.r.chance(1, 4) { b = vec4(c); }
        if c.r.chance(1, 6) { let i = c.idx(4) as usize; b[i] = f32::from_bits(a[i].to_bits() ^ 0x80000000); }
        let e = (0..4).all(|i| bb(a[i]) == bb(b[i]));
        c.eq_bool("==", vv(a) == vv(b), e);
        c.eq_bool("!=", vv(a) != vv(b), !e);
        let (x, ea) = (vv(a), (0..4).all(|i| bb(a[i]) == bb(a[i])));
        let (l, r) = (std::hint::black_box(&x), std::hint::black_box(&x));
        c.eq_bool("== itself", *l == *r, ea);
        c.eq_bool("== named", vv(a) == vv(b), XMVector4Equal(xv(a), xv(b)));
    });
    m.run("XMVector conversions", 6000, |c| {
        let a = c.any4();
        c.bits4("From<&array>", XMVector::from(&bb(a)).0, b4(a));
        c.bits4("set", XMVector::set(bb(a[0]), bb(a[1]), bb(a[2]), bb(a[3])).0, b4(a));
        c.bits4("deref", *vv(a), b4(a));
        let mut z = vv(a);
        let b = c.any4();
        *z = xv(b);
        c.bits4("deref_mut", z.0, b4(b));
        c.bits4("clone", z.clone().0, b4(b));
    });
    m.run("XMVector {:?}", 800, |c| {
        let a = c.any4();
        let s = format!("{:?}", vv(a));
        c.check(s == format!("{:?}", a), || format!("printed {} for {:?}", s, a));
    });
    // only this build has the type, so it stays out of the traces that are compared across builds
    #[cfg(feature = "no_intrinsics")]
    if m.trace.is_none() && m.compare.is_none() { m.run("XMVECTOR {:?}", 400, |c| {
        // whatever the decoration, the printed components are the components in order
        let a: [f32; 4] = [c.uni(-1e3, 1e3), c.uni(-1e3, 1e3), c.uni(-1e3, 1e3), c.uni(-1e3, 1e3)];
        let s = format!("{:?}", xv(a));
        let mut at = 0;
        let mut ok = true;
        for x in a { match s[at..].find(&format!("{:?}", x)) { Some(i) => at += i + 1, None => ok = false } }
        c.check(ok, || format!("printed {} for {:?}", s, a));
    }); }

    m.run("XMMatrix +", 3000, |c| {
        let (a, b) = (mat(c), mat(c));
        rows(c, "a + b", mm(a) + mm(b), |i| lane(|x, y| x + y, a[i], b[i]));
        let mut z = mm(a); z += mm(b);
        rows(c, "a += b", z, |i| lane(|x, y| x + y, a[i], b[i]));
    });
    m.run("XMMatrix -", 3000, |c| {
        let (a, b) = (mat(c), mat(c));
        rows(c, "a - b", mm(a) - mm(b), |i| lane(|x, y| x - y, a[i], b[i]));
        let mut z = mm(a); z -= mm(b);
        rows(c, "a -= b", z, |i| lane(|x, y| x - y, a[i], b[i]));
    });
    m.run("XMMatrix * XMMatrix", 3000, |c| {
        let (a, b) = (mat(c), mat(c));
        let e = mf(XMMatrixMultiply(xm(a), &xm(b)));
        let g = mf((mm(a) * mm(b)).0);
        for i in 0..4 { same(c, "a * b", xv(g[i]), xv(e[i])); }
        let mut z = mm(a); z *= mm(b);
        let g = mf(z.0);
        for i in 0..4 { same(c, "a *= b", xv(g[i]), xv(e[i])); }
        // independent: rows times columns
        if a.iter().chain(&b).all(|r| r.iter().all(|x| x.is_finite() && x.abs() < 1e6)) {
            let g = mf((mm(a) * mm(b)).0);
            for i in 0..4 { for j in 0..4 {
                let (mut s, mut t) = (0.0f64, 0.0f64);
                for k in 0..4 { let p = a[i][k] as f64 * b[k][j] as f64; s += p; t += p.abs(); }
                c.near_nt("a * b", g[i][j], s, 8.0 * EPS * t + 1e-44);
            } }
        }
    });
    m.run("XMMatrix * f32", 3000, |c| {
        let (a, s) = (mat(c), if c.coin() { c.any() } else { c.md() });
        let e = |i: usize| lane(|x, y| x * y, a[i], [s; 4]);
        rows(c, "m * s", mm(a) * bb(s), e);
        rows(c, "s * m", bb(s) * mm(a), e);
        let mut z = mm(a); z *= bb(s);
        rows(c, "m *= s", z, e);
    });
    m.run("XMMatrix / f32", 3000, |c| {
        let (a, s) = (mat(c), if c.coin() { c.any() } else { c.md() });
        let e = |i: usize| lane(|x, y| x / y, a[i], [s; 4]);
        rows(c, "m / s", mm(a) / bb(s), e);
        let mut z = mm(a); z /= bb(s);
        rows(c, "m /= s", z, e);
    });
    m.run("XMMatrix neg", 3000, |c| {
        let a = mat(c);
        rows0(c, "-m", -mm(a), |i| lane(|x, _| -x, a[i], a[i]));
    });
    m.run("XMMatrix ==", 6000, |c| {
        let a = if c.r.chance(1, 4) { mat(c) } else { [c.md4(), c.md4(), c.md4(), c.md4()] };
        let mut b = a;
        if c.r.chance(2, 3) { let i = c.idx(16) as usize; b[i / 4][i % 4] = c.any(); } else if c.r.chance(1, 4) { b = mat(c); }
        if c.r.chance(1, 6) { let i = c.idx(16) as usize; b[i / 4][i % 4] = f32::from_bits(a[i / 4][i % 4].to_bits() ^ 0x80000000); }
        let e = (0..16).all(|i| bb(a[i / 4][i % 4]) == bb(b[i / 4][i % 4]));
        c.eq_bool("==", mm(a) == mm(b), e);
        c.eq_bool("!=", mm(a) != mm(b), !e);
        let (x, ea) = (mm(a), (0..16).all(|i| !a[i / 4][i % 4].is_nan()));
        let (l, r) = (std::hint::black_box(&x), std::hint::black_box(&x));
        c.eq_bool("== itself", *l == *r, ea);
    });
    m.run("XMMatrix conversions", 3000, |c| {
        let a = [c.any4(), c.any4(), c.any4(), c.any4()];
        let mut f = [0f32; 16];
        for i in 0..16 { f[i] = a[i / 4][i % 4]; }
        bits16(c, "From<&rows>", &mf(XMMatrix::from(&bb(a)).0), &a);
        bits16(c, "From<&flat>", &mf(XMMatrix::from(&bb(f)).0), &a);
        let x: [[f32; 4]; 4] = mm(a).into();
        bits16(c, "Into<rows>", &x, &a);
        let x: [f32; 16] = mm(a).into();
        let mut y = [[0f32; 4]; 4];
        for i in 0..16 { y[i / 4][i % 4] = x[i]; }
        bits16(c, "Into<flat>", &y, &a);
        let x = XMMatrix::set(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12], f[13], f[14], f[15]);
        bits16(c, "set", &mf(x.0), &a);
        bits16(c, "deref", &mf(*mm(a)), &a);
        let i = c.idx(4) as usize;
        let b = c.any4();
        let mut z = mm(a);
        unsafe { z.r[i] = xv(b); }
        let mut e = a; e[i] = b;
        bits16(c, "deref_mut", &mf(z.0), &e);
        bits16(c, "clone", &mf(z.clone().0), &e);
        let s = format!("{:?}", mm(a));
        c.check(s == format!("{:?}", a), || format!("printed {} for {:?}", s, a));
        let s = format!("{:?}", xm(a));
        c.check(s == format!("{:?}", a), || format!("printed {} for {:?}", s, a));
    });
    m.run("Align16", 2000, |c| {
        let (a, b) = (c.any4(), c.any4());
        let mut z = Align16::from(XMFLOAT4::from(a));
        let g = |z: &XMFLOAT4| [z.x.to_bits(), z.y.to_bits(), z.z.to_bits(), z.w.to_bits()];
        let (r0, r1) = (g(&z), g(z.as_ref()));
        c.check(r0 == b4(a) && r1 == b4(a) && g(&z.0) == b4(a), || format!("{:08x?} {:08x?}", r0, r1));
        c.check(&z as *const _ as usize % 16 == 0, || "not 16 byte aligned".into());
        *z = XMFLOAT4::from(b);
        c.check(g(&z.0) == b4(b), || "deref_mut".into());
        *z.as_mut() = XMFLOAT4::from(a);
        c.check(g(&z.0) == b4(a), || "as_mut".into());
    });
    m.run("XMVECTORF32/U32/I32/U8 deref", 2000, |c| {
        let a = c.any4();
        let u = b4(a);
        c.bits4("f32", *XMVECTORF32 { f: a }, u);
        c.bits4("u32", *XMVECTORU32 { u }, u);
        c.bits4("i32", *XMVECTORI32 { i: [u[0] as i32, u[1] as i32, u[2] as i32, u[3] as i32] }, u);
        let mut y = [0u8; 16];
        for i in 0..16 { y[i] = u[i / 4].to_le_bytes()[i % 4]; }
        c.bits4("u8", *XMVECTORU8 { u: y }, u);
        c.bits4("v", unsafe { XMVECTORF32 { f: a }.v }, u);
    });
    storage!(m, XMINT2, i32, 2, x 0, y 1);
    storage!(m, XMINT3, i32, 3, x 0, y 1, z 2);
    storage!(m, XMINT4, i32, 4, x 0, y 1, z 2, w 3);
    storage!(m, XMUINT2, u32, 2, x 0, y 1);
    storage!(m, XMUINT3, u32, 3, x 0, y 1, z 2);
    storage!(m, XMUINT4, u32, 4, x 0, y 1, z 2, w 3);
    storage!(m, XMFLOAT2, f32, 2, x 0, y 1);
    storage!(m, XMFLOAT3, f32, 3, x 0, y 1, z 2);
    storage!(m, XMFLOAT4, f32, 4, x 0, y 1, z 2, w 3);
    mstorage!(m, XMFLOAT3X3, 3, 3, 9);
    mstorage!(m, XMFLOAT3X4, 3, 4, 12);
    mstorage!(m, XMFLOAT4X3, 4, 3, 12);
    mstorage!(m, XMFLOAT4X4, 4, 4, 16);
}
