//! C03: constructors, splats, constants and component get/set are bit exact for every bit pattern and index,
//! and a component write leaves the other three components untouched.
use crate::core::*;

fn any_u4(c: &mut Case) -> [u32; 4] {
    b4(c.any4())
}
fn q(b: u32) -> u32 { b }

pub fn run(m: &mut Mon) {
    let n = 2000;
    m.run("XMVectorSet", n, |c| { let a = c.any4(); c.bits4("Set", XMVectorSet(bb(a[0]), bb(a[1]), bb(a[2]), bb(a[3])), b4(a)); });
    m.run("XMVectorSetInt", n, |c| { let a = any_u4(c); c.bits4("SetInt", XMVectorSetInt(bb(a[0]), bb(a[1]), bb(a[2]), bb(a[3])), a); });
    m.run("XMVectorReplicate", n, |c| { let a = c.any(); c.bits4("Replicate", XMVectorReplicate(bb(a)), [a.to_bits(); 4]); });
    m.run("XMVectorReplicatePtr", n, |c| { let a = c.any(); c.bits4("ReplicatePtr", XMVectorReplicatePtr(bb(&a)), [a.to_bits(); 4]); });
    m.run("XMVectorReplicateInt", n, |c| { let a = c.any().to_bits(); c.bits4("ReplicateInt", XMVectorReplicateInt(bb(a)), [a; 4]); });
    m.run_n("XMVector constants", 1, |c| {
        c.bits4("Zero", XMVectorZero(), [0; 4]);
        c.bits4("TrueInt", XMVectorTrueInt(), [!0; 4]);
        c.bits4("FalseInt", XMVectorFalseInt(), [0; 4]);
        c.bits4("SplatOne", XMVectorSplatOne(), [0x3F800000; 4]);
        c.bits4("SplatInfinity", XMVectorSplatInfinity(), [0x7F800000; 4]);
        c.bits4("SplatQNaN", XMVectorSplatQNaN(), [0x7FC00000; 4]);
        c.bits4("SplatEpsilon", XMVectorSplatEpsilon(), [0x34000000; 4]);
        c.bits4("SplatSignMask", XMVectorSplatSignMask(), [0x80000000; 4]);
        let pi = std::f64::consts::PI;
        for (n, g, e) in [("XM_PI", XM_PI, pi), ("XM_2PI", XM_2PI, 2.0 * pi), ("XM_1DIVPI", XM_1DIVPI, 1.0 / pi), ("XM_1DIV2PI", XM_1DIV2PI, 0.5 / pi), ("XM_PIDIV2", XM_PIDIV2, pi / 2.0), ("XM_PIDIV4", XM_PIDIV4, pi / 4.0)] {
            c.check(g == e as f32, || format!("{} = {:e}", n, g));
        }
        let k = [XM_SELECT_0, XM_SELECT_1, XM_PERMUTE_0X, XM_PERMUTE_0Y, XM_PERMUTE_0Z, XM_PERMUTE_0W, XM_PERMUTE_1X, XM_PERMUTE_1Y, XM_PERMUTE_1Z, XM_PERMUTE_1W, XM_SWIZZLE_X, XM_SWIZZLE_Y, XM_SWIZZLE_Z, XM_SWIZZLE_W, XM_CRMASK_CR6, XM_CRMASK_CR6TRUE, XM_CRMASK_CR6FALSE, XM_CRMASK_CR6BOUNDS];
        c.check(k == [0, !0, 0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 0xF0, 0x80, 0x20, 0x20], || format!("constants {:?}", k));
        c.log(0);
    });
    m.run("XMVectorSplat{X,Y,Z,W}", n, |c| {
        let a = any_u4(c);
        c.bits4("SplatX", XMVectorSplatX(xu(a)), [a[0]; 4]);
        c.bits4("SplatY", XMVectorSplatY(xu(a)), [a[1]; 4]);
        c.bits4("SplatZ", XMVectorSplatZ(xu(a)), [a[2]; 4]);
        c.bits4("SplatW", XMVectorSplatW(xu(a)), [a[3]; 4]);
    });
    m.run("XMVectorGet*", n, |c| {
        let a = any_u4(c);
        let v = xu(a);
        c.eq_u32("GetX", XMVectorGetX(v).to_bits(), a[0]);
        c.eq_u32("GetY", XMVectorGetY(v).to_bits(), a[1]);
        c.eq_u32("GetZ", XMVectorGetZ(v).to_bits(), a[2]);
        c.eq_u32("GetW", XMVectorGetW(v).to_bits(), a[3]);
        c.eq_u32("GetIntX", XMVectorGetIntX(v), a[0]);
        c.eq_u32("GetIntY", XMVectorGetIntY(v), a[1]);
        c.eq_u32("GetIntZ", XMVectorGetIntZ(v), a[2]);
        c.eq_u32("GetIntW", XMVectorGetIntW(v), a[3]);
        for i in 0..4 {
            c.eq_u32("GetByIndex", XMVectorGetByIndex(v, bb(i)).to_bits(), a[i]);
            c.eq_u32("GetIntByIndex", XMVectorGetIntByIndex(v, bb(i)), a[i]);
        }
        let mut b = [f32::from_bits(0xC0DEC0DE); 12];
        XMVectorGetXPtr(&mut b[1], v);
        XMVectorGetYPtr(&mut b[4], v);
        XMVectorGetZPtr(&mut b[7], v);
        XMVectorGetWPtr(&mut b[10], v);
        let b = bb(b);
        for i in 0..12 {
            let e = if i % 3 == 1 { a[i / 3] } else { 0xC0DEC0DE };
            c.check(b[i].to_bits() == e, || format!("Get?Ptr word {} = {:08x} expected {:08x}", i, b[i].to_bits(), e));
        }
    });
    m.run("XMVectorSet?", n, |c| {
        let a = any_u4(c);
        let f = c.any();
        let u = f.to_bits();
        let v = xu(a);
        let with = |i: usize| { let mut e = a; e[i] = u; e };
        c.bits4("SetX", XMVectorSetX(v, bb(f)), with(0));
        c.bits4("SetY", XMVectorSetY(v, bb(f)), with(1));
        c.bits4("SetZ", XMVectorSetZ(v, bb(f)), with(2));
        c.bits4("SetW", XMVectorSetW(v, bb(f)), with(3));
        c.bits4("SetIntX", XMVectorSetIntX(v, bb(u)), with(0));
        c.bits4("SetIntY", XMVectorSetIntY(v, bb(u)), with(1));
        c.bits4("SetIntZ", XMVectorSetIntZ(v, bb(u)), with(2));
        c.bits4("SetIntW", XMVectorSetIntW(v, bb(u)), with(3));
        for i in 0..4 {
            c.bits4("SetByIndex", XMVectorSetByIndex(v, bb(f), bb(i)), with(i));
            c.bits4("SetIntByIndex", XMVectorSetIntByIndex(v, bb(u), bb(i)), with(i));
        }
    });
    m.run("XMVectorSetBinaryConstant", 400, |c| {
        let a = [c.idx(2), c.idx(2), c.idx(2), c.idx(2)];
        c.bits4("SetBinaryConstant", XMVectorSetBinaryConstant(bb(a[0]), bb(a[1]), bb(a[2]), bb(a[3])), [a[0] * 0x3F800000, a[1] * 0x3F800000, a[2] * 0x3F800000, a[3] * 0x3F800000]);
    });
    m.run_n("XMVectorSplatConstant", 32 * 32, |c| {
        let (i, e) = (c.case as i32 / 32 - 16, c.case as u32 % 32);
        c.log(i as u32); c.log(e);
        let x = (i as f64 / (1u64 << e) as f64) as f32;
        c.bits4("SplatConstant", XMVectorSplatConstant(bb(i), bb(e)), [x.to_bits(); 4]);
        c.bits4("SplatConstantInt", XMVectorSplatConstantInt(bb(i)), [i as u32; 4]);
    });
    m.run("XMConvertToRadians/Degrees", n, |c| {
        let a = c.logu(-30.0, 30.0);
        c.near("rad", XMConvertToRadians(bb(a)), a as f64 * std::f64::consts::PI / 180.0, (a as f64).abs() * 0.0175 * 4.0 * EPS);
        c.near("deg", XMConvertToDegrees(bb(a)), a as f64 * 180.0 / std::f64::consts::PI, (a as f64).abs() * 57.3 * 4.0 * EPS);
    });
    m.run("XMMin/XMMax", n, |c| {
        let (a, b) = (c.fin(), c.fin());
        c.check(XMMin(bb(a), bb(b)) == if a < b { a } else { b }, || "XMMin f32".into());
        c.check(XMMax(bb(a), bb(b)) == if a > b { a } else { b }, || "XMMax f32".into());
        let (i, j) = (a.to_bits() as i32, b.to_bits() as i32);
        c.check(XMMin(bb(i), bb(j)) == i.min(j), || "XMMin i32".into());
        c.check(XMMax(bb(i), bb(j)) == i.max(j), || "XMMax i32".into());
    });
    m.run("Align16", 200, |c| {
        let a = c.any4();
        let mut x = Align16(XMFLOAT4::from(a));
        let addr = &x as *const _ as usize;
        c.check(addr % 16 == 0 && std::mem::size_of::<Align16<XMFLOAT3>>() == 16, || "alignment".into());
        c.check(b4((*x).into()) == b4(a), || "deref".into());
        c.check(b4((*x.as_ref()).into()) == b4(a), || "as_ref".into());
        x.y = a[0];
        x.as_mut().z = a[1];
        let y: Align16<XMFLOAT4> = Align16::from(*x);
        c.check(b4((*y).into()) == b4([a[0], a[0], a[1], a[3]]), || "deref_mut".into());
    });
    m.run("XMVECTOR constant unions", 200, |c| {
        let a = c.any4();
        let f = XMVECTORF32 { f: a };
        let i = XMVECTORI32 { i: [a[0].to_bits() as i32, a[1].to_bits() as i32, a[2].to_bits() as i32, a[3].to_bits() as i32] };
        let u = XMVECTORU32 { u: b4(a) };
        let u8s = XMVECTORU8 { u: unsafe { std::mem::transmute::<[f32; 4], [u8; 16]>(a) } };
        c.bits4("F32", *f, b4(a));
        c.bits4("I32", *i, b4(a));
        c.bits4("U32", *u, b4(a));
        c.bits4("U8", *u8s, b4(a));
    });
}
