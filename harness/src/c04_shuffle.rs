//! C04: swizzle, permute, select, merge, shift, rotate, insert (function and trait forms) are exact bit
//! rearrangements; all index combinations are enumerated.
use crate::core::*;
use directx_math as dx;

fn sw<X: dx::Swizzle, Y: dx::Swizzle, Z: dx::Swizzle, W: dx::Swizzle>(c: &mut Case, a: [u32; 4]) {
    let e = [X::SWIZZLE as usize, Y::SWIZZLE as usize, Z::SWIZZLE as usize, W::SWIZZLE as usize];
    let g = <(X, Y, Z, W) as dx::XMVectorSwizzle>::XMVectorSwizzle(xu(a));
    c.bits4(&format!("Swizzle<{:?}>", e), g, [a[e[0]], a[e[1]], a[e[2]], a[e[3]]]);
}
macro_rules! each4 { ($f:ident, $c:ident, $a:ident, [$($p:ty),*]) => {
    $f::<$($p,)* dx::SwizzleX>($c, $a); $f::<$($p,)* dx::SwizzleY>($c, $a); $f::<$($p,)* dx::SwizzleZ>($c, $a); $f::<$($p,)* dx::SwizzleW>($c, $a);
} }
fn sw3<X: dx::Swizzle, Y: dx::Swizzle, Z: dx::Swizzle>(c: &mut Case, a: [u32; 4]) { each4!(sw, c, a, [X, Y, Z]); }
fn sw2<X: dx::Swizzle, Y: dx::Swizzle>(c: &mut Case, a: [u32; 4]) { each4!(sw3, c, a, [X, Y]); }
fn sw1<X: dx::Swizzle>(c: &mut Case, a: [u32; 4]) { each4!(sw2, c, a, [X]); }
// the concrete tuple impls (chosen by specialization on nightly) need concrete types
macro_rules! sw_conc { ($c:ident, $a:ident, $(($x:ident $y:ident $z:ident $w:ident : $e:expr)),*) => { $(
    let g = <(dx::$x, dx::$y, dx::$z, dx::$w)>::XMVectorSwizzle(xu($a));
    let e: [usize; 4] = $e;
    $c.bits4(stringify!($x $y $z $w), g, [$a[e[0]], $a[e[1]], $a[e[2]], $a[e[3]]]);
)* } }

fn pm<X: dx::Permute, Y: dx::Permute, Z: dx::Permute, W: dx::Permute>(c: &mut Case, a: [u32; 8]) {
    let e = [X::PERMUTE as usize, Y::PERMUTE as usize, Z::PERMUTE as usize, W::PERMUTE as usize];
    let g = <(X, Y, Z, W) as dx::XMVectorPermute>::XMVectorPermute(xu([a[0], a[1], a[2], a[3]]), xu([a[4], a[5], a[6], a[7]]));
    let g = vu(g);
    c.nchecks += 1;
    if g != [a[e[0]], a[e[1]], a[e[2]], a[e[3]]] { c.fail(format!("Permute<{:?}> got {:08x?}", e, g)); }
}
macro_rules! each8 { ($f:ident, $c:ident, $a:ident, [$($p:ty),*]) => {
    $f::<$($p,)* dx::Permute0X>($c, $a); $f::<$($p,)* dx::Permute0Y>($c, $a); $f::<$($p,)* dx::Permute0Z>($c, $a); $f::<$($p,)* dx::Permute0W>($c, $a);
    $f::<$($p,)* dx::Permute1X>($c, $a); $f::<$($p,)* dx::Permute1Y>($c, $a); $f::<$($p,)* dx::Permute1Z>($c, $a); $f::<$($p,)* dx::Permute1W>($c, $a);
} }
// every value of every slot, every pair of the first two slots, and the concrete tuples with their own impl
fn pm2<X: dx::Permute, Y: dx::Permute>(c: &mut Case, a: [u32; 8]) {
    pm::<X, Y, dx::Permute0W, dx::Permute1Z>(c, a);
    pm::<dx::Permute1Y, dx::Permute0Z, X, Y>(c, a);
    pm::<X, dx::Permute1X, Y, dx::Permute0X>(c, a);
    pm::<dx::Permute0Y, X, dx::Permute1W, Y>(c, a);
}
fn pm1<X: dx::Permute>(c: &mut Case, a: [u32; 8]) { each8!(pm2, c, a, [X]); }
macro_rules! pm_conc { ($c:ident, $a:ident, $(($x:ident $y:ident $z:ident $w:ident : $e:expr)),*) => { $(
    let g = <(dx::$x, dx::$y, dx::$z, dx::$w)>::XMVectorPermute(xu([$a[0], $a[1], $a[2], $a[3]]), xu([$a[4], $a[5], $a[6], $a[7]]));
    let e: [usize; 4] = $e;
    $c.bits4(stringify!($x $y $z $w), g, [$a[e[0]], $a[e[1]], $a[e[2]], $a[e[3]]]);
)* } }

fn u4(c: &mut Case) -> [u32; 4] { b4(c.any4()) }

pub fn run(m: &mut Mon) {
    m.run_n("XMVectorSwizzle", 256 * 8, |c| {
        let k = c.case as usize % 256;
        c.log(k as u32);
        let e = [k & 3, (k >> 2) & 3, (k >> 4) & 3, k >> 6];
        let a = u4(c);
        let g = XMVectorSwizzle(xu(a), bb(e[0] as u32), bb(e[1] as u32), bb(e[2] as u32), bb(e[3] as u32));
        c.bits4("Swizzle", g, [a[e[0]], a[e[1]], a[e[2]], a[e[3]]]);
    });
    m.run_n("XMVectorPermute", 4096 * 2, |c| {
        let k = c.case as usize % 4096;
        c.log(k as u32);
        let e = [k & 7, (k >> 3) & 7, (k >> 6) & 7, k >> 9];
        let (a, b) = (u4(c), u4(c));
        let ab = [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]];
        let g = XMVectorPermute(xu(a), xu(b), bb(e[0] as u32), bb(e[1] as u32), bb(e[2] as u32), bb(e[3] as u32));
        c.bits4("Permute", g, [ab[e[0]], ab[e[1]], ab[e[2]], ab[e[3]]]);
    });
    m.run("trait XMVectorSwizzle", 40, |c| {
        let a = u4(c);
        sw1::<dx::SwizzleX>(c, a); sw1::<dx::SwizzleY>(c, a); sw1::<dx::SwizzleZ>(c, a); sw1::<dx::SwizzleW>(c, a);
        use dx::XMVectorSwizzle;
        sw_conc!(c, a, (SwizzleX SwizzleY SwizzleX SwizzleY : [0,1,0,1]), (SwizzleZ SwizzleW SwizzleZ SwizzleW : [2,3,2,3]),
            (SwizzleX SwizzleX SwizzleY SwizzleY : [0,0,1,1]), (SwizzleZ SwizzleZ SwizzleW SwizzleW : [2,2,3,3]), (SwizzleX SwizzleY SwizzleZ SwizzleW : [0,1,2,3]),
            (SwizzleW SwizzleZ SwizzleY SwizzleX : [3,2,1,0]), (SwizzleX SwizzleX SwizzleZ SwizzleZ : [0,0,2,2]), (SwizzleY SwizzleY SwizzleW SwizzleW : [1,1,3,3]));
    });
    m.run("trait XMVectorPermute", 40, |c| {
        let (a, b) = (u4(c), u4(c));
        let ab = [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]];
        each8!(pm1, c, ab, []);
        use dx::XMVectorPermute;
        pm_conc!(c, ab, (Permute0X Permute0Y Permute0Z Permute0W : [0,1,2,3]), (Permute1X Permute1Y Permute1Z Permute1W : [4,5,6,7]),
            (Permute0X Permute0Y Permute1X Permute1Y : [0,1,4,5]), (Permute1Z Permute1W Permute0Z Permute0W : [6,7,2,3]),
            (Permute0Z Permute0W Permute1Z Permute1W : [2,3,6,7]), (Permute0X Permute1X Permute0Y Permute1Y : [0,4,1,5]), (Permute0Z Permute1Z Permute0W Permute1W : [2,6,3,7]));
    });
    m.run_n("XMVectorSelectControl", 16, |c| {
        let k = c.case as u32;
        c.log(k);
        let e = [k & 1, (k >> 1) & 1, (k >> 2) & 1, k >> 3];
        let g = XMVectorSelectControl(bb(e[0]), bb(e[1]), bb(e[2]), bb(e[3]));
        c.bits4("SelectControl", g, [e[0].wrapping_neg(), e[1].wrapping_neg(), e[2].wrapping_neg(), e[3].wrapping_neg()]);
    });
    m.run("XMVectorSelect", 3000, |c| {
        let (a, b) = (u4(c), u4(c));
        let k = if c.coin() { u4(c) } else { [c.idx(2).wrapping_neg(), c.idx(2).wrapping_neg(), c.idx(2).wrapping_neg(), c.idx(2).wrapping_neg()] };
        let mut e = [0; 4];
        for i in 0..4 { e[i] = (a[i] & !k[i]) | (b[i] & k[i]); }
        c.bits4("Select", XMVectorSelect(xu(a), xu(b), xu(k)), e);
    });
    m.run("XMVectorMergeXY/ZW", 2000, |c| {
        let (a, b) = (u4(c), u4(c));
        c.bits4("MergeXY", XMVectorMergeXY(xu(a), xu(b)), [a[0], b[0], a[1], b[1]]);
        c.bits4("MergeZW", XMVectorMergeZW(xu(a), xu(b)), [a[2], b[2], a[3], b[3]]);
    });
    m.run("XMVectorShiftLeft/Rotate", 1500, |c| {
        let (a, b) = (u4(c), u4(c));
        let ab = [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]];
        for n in 0..4usize {
            c.bits4("ShiftLeft", XMVectorShiftLeft(xu(a), xu(b), bb(n as u32)), [ab[n], ab[n + 1], ab[n + 2], ab[n + 3]]);
            c.bits4("RotateLeft", XMVectorRotateLeft(xu(a), bb(n as u32)), [a[n & 3], a[(n + 1) & 3], a[(n + 2) & 3], a[(n + 3) & 3]]);
            c.bits4("RotateRight", XMVectorRotateRight(xu(a), bb(n as u32)), [a[(4 - n) & 3], a[(5 - n) & 3], a[(6 - n) & 3], a[(7 - n) & 3]]);
        }
    });
    m.run_n("XMVectorInsert", 64 * 16, |c| {
        let k = c.case as usize % 64;
        c.log(k as u32);
        let (n, s) = (k & 3, k >> 2);
        let (a, b) = (u4(c), u4(c));
        let mut e = a;
        for i in 0..4 { if (s >> i) & 1 == 1 { e[i] = b[(i + n) & 3]; } }
        let g = XMVectorInsert(xu(a), xu(b), bb(n as u32), bb(s as u32 & 1), bb((s as u32 >> 1) & 1), bb((s as u32 >> 2) & 1), bb(s as u32 >> 3));
        c.bits4("Insert", g, e);
    });
}
