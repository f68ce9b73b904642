//! C08: number format conversions. Half->float is swept exhaustively, float->half over every rounding boundary
//! (thorough: all 2^32 patterns), int/uint conversions against exact integer/real arithmetic.
use crate::core::*;

/// correctly rounded (nearest even) binary16 pattern of an f32; NaN -> None
fn to_half(x: f32) -> Option<u16> {
    if x.is_nan() { return None; }
    let s = ((x.to_bits() >> 31) as u16) << 15;
    let a = x.abs() as f64;
    if a >= 65520.0 { return Some(s | 0x7C00); }
    let e = if a < 6.103515625e-5 { -24 } else { (a.to_bits() >> 52) as i32 - 1023 - 10 };
    let q = a / (e as f64).exp2(); // exact: power of two scaling
    let f = q.floor();
    let r = q - f;
    let mut n = f as u32;
    if r > 0.5 || (r == 0.5 && n & 1 == 1) { n += 1; }
    // n in units of 2^e
    let h = if a < 6.103515625e-5 { n } else { (((e + 10 + 15) as u32) << 10) + (n - 1024) };
    Some(s | h as u16)
}
fn from_half(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 0x3FF) as f64;
    if e == 31 { return if m == 0.0 { s * f64::INFINITY } else { f64::NAN }; }
    if e == 0 { return s * m * (-24f64).exp2(); }
    s * (1.0 + m / 1024.0) * ((e - 15) as f64).exp2()
}
fn half_check(c: &mut Case, b: u32) {
    let x = f32::from_bits(b);
    let g = XMConvertFloatToHalf(bb(x));
    match to_half(x) {
        Some(e) => c.check(g == e, || format!("float->half {:e} ({:08x}): got {:04x} expected {:04x}", x, b, g, e)),
        None => c.check(g & 0x7C00 == 0x7C00 && g & 0x3FF != 0 && (g >> 15) as u32 == b >> 31, || format!("float->half NaN {:08x}: got {:04x}", b, g)),
    }
}

pub fn run(m: &mut Mon) {
    m.run_n("XMConvertHalfToFloat(all 65536)", 65536, |c| {
        let h = c.case as u16;
        c.log(h as u32);
        let g = XMConvertHalfToFloat(bb(h));
        let e = from_half(h);
        if e.is_nan() {
            c.check(g.is_nan(), || format!("half {:04x}: got {:e} expected NaN", h, g));
        } else {
            c.check(g.to_bits() == (e as f32).to_bits(), || format!("half {:04x}: got {:e} expected {:e}", h, g, e));
            let r = XMConvertFloatToHalf(bb(g));
            c.check(r == h, || format!("half {:04x} does not round-trip: {:04x}", h, r));
        }
    });
    // every half value, every midpoint between neighbours, and one f32 step to each side; both signs
    m.run_n("XMConvertFloatToHalf(rounding boundaries)", 31744, |c| {
        let h = c.case as u16;
        let lo = from_half(h);
        let hi = if h == 0x7BFF { 65536.0 } else { from_half(h + 1) };
        for v in [lo, (lo + hi) / 2.0] {
            let b = (v as f32).to_bits();
            for d in [-2i32, -1, 0, 1, 2] {
                let k = (b as i32 + d).max(0) as u32;
                c.log(k);
                half_check(c, k);
                half_check(c, k | 0x80000000);
            }
        }
    });
    m.run("XMConvertFloatToHalf", 100000, |c| {
        let b = match c.r.below(4) { 0 => c.any_bits(), 1 => c.r.u32(), _ => (c.logu(-30.0, 18.0)).to_bits() };
        c.log(b);
        half_check(c, b);
    });
    if m.scale >= 20.0 {
        // thorough tier: all 2^32 patterns, one case per 2^16 block
        m.run_n("XMConvertFloatToHalf(all 2^32)", 65536, |c| {
            let hi = (c.case as u32) << 16;
            c.log(hi);
            for lo in 0..65536u32 {
                let b = hi | lo;
                let x = f32::from_bits(b);
                let g = XMConvertFloatToHalf(x);
                let ok = match to_half(x) { Some(e) => g == e, None => g & 0x7C00 == 0x7C00 && g & 0x3FF != 0 };
                if !ok { half_check(c, b); }
            }
            c.nchecks += 65536;
        });
    }
    fn ints(c: &mut Case) -> [u32; 4] {
        let mut a = [0u32; 4];
        for i in 0..4 {
            a[i] = match c.r.below(4) {
                0 => c.r.pick(&[0, 1, 2, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0x00FFFFFF, 0x01000000, 0x01000001, 0x7FFFFFC0, 0x7FFFFF80, 0xFFFFFF80, 0xFFFFFF7F, 0xFF000000, 0x80000080, 0x80000100]),
                1 => c.r.u32() >> c.r.below(32),
                2 => (1u32 << c.r.below(32)).wrapping_add(c.r.below(5)).wrapping_sub(2),
                _ => c.r.u32(),
            };
            c.log(a[i]);
        }
        a
    }
    m.run("XMConvertVectorIntToFloat", 40000, |c| {
        let a = ints(c);
        let d = c.idx(32);
        let g = vf(XMConvertVectorIntToFloat(xu(a), d));
        c.trace(&g, &[-1.0; 4]);
        for i in 0..4 {
            // int -> nearest float, then an exact power-of-two scaling
            let e = (a[i] as i32 as f32) as f64 / (1u64 << d) as f64;
            c.near_nt(&format!("lane {} of {:08x}/2^{}", i, a[i], d), g[i], e, 0.0);
        }
    });
    m.run("XMConvertVectorUIntToFloat", 40000, |c| {
        let a = ints(c);
        let d = c.idx(32);
        let g = vf(XMConvertVectorUIntToFloat(xu(a), d));
        for i in 0..4 {
            let e = a[i] as f64 / (1u64 << d) as f64;
            let t = if a[i] < 1 << 24 { 0.0 } else { e * EPS };
            c.near(&format!("lane {} of {:08x}/2^{}", i, a[i], d), g[i], e, t);
        }
    });
    fn scaled(c: &mut Case, d: u32) -> V4 {
        let mut a = [0f32; 4];
        for i in 0..4 {
            a[i] = match c.r.below(5) {
                0 => c.any(),
                1 => c.logu(-3.0 - d as f64, 34.0 - d as f64),
                2 => {
                    // neighbourhood of the saturation limits
                    let lim = c.r.pick(&[2147483648f32, 4294967296.0, -2147483648.0, -4294967296.0, 0.0, 1.0, -1.0]);
                    let b = (lim / (1u64 << d) as f32).to_bits();
                    let x = f32::from_bits((b as i64 + c.r.below(7) as i64 - 3) as u32);
                    c.log(x.to_bits());
                    x
                }
                3 => (c.idx(2000) as f32 - 1000.0) / 4.0,
                _ => c.logu(-2.0 - d as f64, 31.9 - d as f64),
            };
        }
        a
    }
    m.run("XMConvertVectorFloatToInt", 60000, |c| {
        let d = c.idx(32);
        let a = scaled(c, d);
        let g = vu(XMConvertVectorFloatToInt(xv(a), d));
        for i in 0..4 {
            let v = (a[i] * (1u64 << d) as f32) as f64; // f32 product: exact or overflow to infinity
            if v.is_nan() { continue; } // NaN has no integer value: unspecified
            let e = if v >= 2147483648.0 { 0x7FFFFFFF } else if v <= -2147483648.0 { 0x80000000 } else { v.trunc() as i32 as u32 };
            c.eq_u32(&format!("lane {} of {:e}*2^{}", i, a[i], d), g[i], e);
        }
    });
    m.run("XMConvertVectorFloatToUInt", 60000, |c| {
        let d = c.idx(32);
        let a = scaled(c, d);
        let g = vu(XMConvertVectorFloatToUInt(xv(a), d));
        for i in 0..4 {
            let v = (a[i] * (1u64 << d) as f32) as f64;
            let e = if v.is_nan() { 0 } else if v >= 4294967296.0 { 0xFFFFFFFF } else if v <= 0.0 { 0 } else { v.trunc() as u32 };
            c.eq_u32(&format!("lane {} of {:e}*2^{}", i, a[i], d), g[i], e);
        }
    });
    // exact round trips
    m.run("int round trip", 20000, |c| {
        let d = c.idx(16);
        let mut a = [0u32; 4];
        for i in 0..4 { a[i] = (c.idx(1 << 25) as i32 - (1 << 24)) as u32; }
        let f = XMConvertVectorIntToFloat(xu(a), d);
        c.bits4("int->float->int", XMConvertVectorFloatToInt(f, d), a);
        let u = a.map(|x| x & 0xFFFFFF);
        let f = XMConvertVectorUIntToFloat(xu(u), d);
        c.bits4("uint->float->uint", XMConvertVectorFloatToUInt(f, d), u);
    });
}
