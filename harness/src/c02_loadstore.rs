//! C02: loads, stores and memory layout conversions move every component exactly, to the documented place,
//! fill the missing lanes with their documented defaults and touch nothing else.
use crate::core::*;

const CAN: u32 = 0xC0DEC0DE;

/// three pages; objects are laid at every word offset of a cache line, often across a line or page boundary
#[repr(C, align(4096))]
struct Arena([u32; 3072]);
thread_local! { static ARENA: std::cell::UnsafeCell<Box<Arena>> = std::cell::UnsafeCell::new(Box::new(Arena([0; 3072]))); }
const GUARD: usize = 20;

/// a word offset in the arena: anywhere, around a page boundary, or in the first line of a page (16-aligned if `al`)
fn place(c: &mut Case, al: bool) -> usize {
    let o = match c.idx(4) {
        0 => 1024 + c.idx(17) as usize - 16,
        1 => 2048 + c.idx(17) as usize - 16,
        2 => 1024 + c.idx(16) as usize,
        _ => 64 + c.idx(2900) as usize,
    };
    if al { o & !3 } else { o }
}
fn window<R>(off: usize, n: usize, f: impl FnOnce(*mut u32, std::ops::Range<usize>) -> R) -> R {
    ARENA.with(|a| f(unsafe { (*a.get()).0.as_mut_ptr() }, off - GUARD..off + n + GUARD))
}
fn with_src<T, R>(off: usize, words: &[u32], f: impl FnOnce(&T) -> R) -> R {
    assert!(std::mem::size_of::<T>() <= 4 * (words.len() + GUARD));
    window(off, words.len(), |p, w| unsafe {
        for i in w { *p.add(i) = 0x7FC0BEEF; }
        for (i, x) in words.iter().enumerate() { *p.add(off + i) = *x; }
        f(&*(bb(p.add(off)) as *const T))
    })
}
/// run a store into a canary-filled window; returns the words of the destination and whether all canaries survived
fn with_dst<T>(off: usize, n: usize, pad: usize, f: impl FnOnce(&mut T)) -> (Vec<u32>, bool) {
    window(off, n, |p, w| unsafe {
        for i in w.clone() { *p.add(i) = CAN; }
        f(&mut *(bb(p.add(off)) as *mut T));
        let p = bb(p);
        let ok = w.into_iter().all(|i| (i >= off && i < off + n + pad) || *p.add(i) == CAN);
        ((off..off + n).map(|i| *p.add(i)).collect(), ok)
    })
}

fn words(c: &mut Case, n: usize) -> Vec<u32> {
    (0..n).map(|_| { let x = c.any(); x.to_bits() }).collect()
}
fn same(a: u32, b: u32) -> bool {
    // a value survives: same bits, or a NaN stays a NaN, or a zero stays a zero (sign of zero may be lost where
    // the implementation combines rows by addition)
    let (x, y) = (f32::from_bits(a), f32::from_bits(b));
    a == b || (x.is_nan() && y.is_nan()) || (x == 0.0 && y == 0.0)
}

macro_rules! load_vec {
    ($m:ident, $name:ident, $T:ty, $n:expr, $al:expr) => {
        $m.run(stringify!($name), 3000, |c| {
            let w = words(c, $n);
            let off = place(c, $al);
            let v = with_src::<$T, _>(off, &w, |p| $name(p));
            let mut e = [0u32; 4];
            e[..$n].copy_from_slice(&w);
            c.bits4(stringify!($name), v, e);
        });
    };
}
macro_rules! store_vec {
    ($m:ident, $name:ident, $T:ty, $n:expr, $pad:expr, $al:expr) => {
        $m.run(stringify!($name), 3000, |c| {
            let w = words(c, 4);
            let off = place(c, $al);
            let v = xu([w[0], w[1], w[2], w[3]]);
            let (got, ok) = with_dst::<$T>(off, $n, $pad, |p| $name(p, v));
            c.check(ok, || "wrote outside the destination".into());
            c.check(got[..] == w[..$n], || format!("got {:08x?} expected {:08x?}", got, &w[..$n]));
        });
    };
}
macro_rules! load_mat {
    ($m:ident, $name:ident, $T:ty, $R:expr, $C:expr, $tr:expr, $al:expr) => {
        $m.run(stringify!($name), 3000, |c| {
            let w = words(c, $R * $C);
            let off = place(c, $al);
            let got = mf(with_src::<$T, _>(off, &w, |p| $name(p)));
            let mut e = [[0u32; 4]; 4];
            e[3][3] = 1.0f32.to_bits();
            for i in 0..$R {
                for j in 0..$C {
                    if $tr { e[j][i] = w[i * $C + j]; } else { e[i][j] = w[i * $C + j]; }
                }
            }
            for i in 0..4 {
                for j in 0..4 {
                    let g = got[i][j].to_bits();
                    c.trace(&[got[i][j]], &[1e-60]);
                    c.check(same(g, e[i][j]), || format!("[{}][{}] got {:08x} expected {:08x}", i, j, g, e[i][j]));
                }
            }
        });
    };
}
macro_rules! store_mat {
    ($m:ident, $name:ident, $T:ty, $R:expr, $C:expr, $tr:expr, $al:expr) => {
        $m.run(stringify!($name), 3000, |c| {
            let w = words(c, 16);
            let off = place(c, $al);
            let mut mm = [[0f32; 4]; 4];
            for i in 0..16 { mm[i / 4][i % 4] = f32::from_bits(w[i]); }
            let x = xm(mm);
            let (got, ok) = with_dst::<$T>(off, $R * $C, 0, |p| $name(p, x));
            c.check(ok, || "wrote outside the destination".into());
            for i in 0..$R {
                for j in 0..$C {
                    let e = if $tr { w[j * 4 + i] } else { w[i * 4 + j] };
                    let g = got[i * $C + j];
                    c.check(same(g, e), || format!("[{}][{}] got {:08x} expected {:08x}", i, j, g, e));
                }
            }
        });
    };
}

macro_rules! xms {
    ($m:ident, $T:ident, $t:ty, $n:expr, $($f:ident),*) => {
        $m.run(stringify!($T), 1000, |c| {
            let w = words(c, $n);
            let a: [$t; $n] = unsafe { std::mem::transmute_copy(bb(&*(w.as_ptr() as *const [u32; $n]))) };
            let bits = |x: &[$t; $n]| -> Vec<u32> { (0..$n).map(|i| unsafe { std::mem::transmute_copy::<$t, u32>(&x[i]) }).collect() };
            let s: $T = <$T>::from(a);
            let fields: Vec<$t> = vec![$(s.$f),*];
            let fb: Vec<u32> = fields.iter().map(|x| unsafe { std::mem::transmute_copy::<$t, u32>(x) }).collect();
            c.check(fb == w, || format!("From<[T;N]> fields {:08x?} expected {:08x?}", fb, w));
            let back: [$t; $n] = s.into();
            c.check(bits(&back) == w, || "Into<[T;N]>".into());
            let r: &$T = (&a).into();
            let rb: Vec<u32> = vec![$( unsafe { std::mem::transmute_copy::<$t, u32>(&r.$f) } ),*];
            c.check(rb == w, || "From<&[T;N]>".into());
            let ra: &[$t; $n] = (&s).into();
            c.check(bits(ra) == w, || "Into<&[T;N]>".into());
            c.check(bits(s.as_ref()) == w, || "AsRef".into());
            let mut s2 = s;
            { let mm: &mut [$t; $n] = s2.as_mut(); let t = mm[0]; mm[0] = mm[$n - 1]; mm[$n - 1] = t; }
            let mut ew = w.clone(); ew.swap(0, $n - 1);
            let gb: Vec<u32> = vec![$( unsafe { std::mem::transmute_copy::<$t, u32>(&s2.$f) } ),*];
            c.check(gb == ew, || "AsMut".into());
            let mut it = a.iter();
            $( let $f = *it.next().unwrap(); )*
            let s3 = <$T>::set($($f),*);
            let gb: Vec<u32> = vec![$( unsafe { std::mem::transmute_copy::<$t, u32>(&s3.$f) } ),*];
            c.check(gb == w, || "set".into());
        });
    };
}
macro_rules! xmmat {
    ($m:ident, $T:ident, $R:expr, $C:expr) => {
        $m.run(stringify!($T), 1000, |c| {
            const N: usize = $R * $C;
            let w = words(c, N);
            let flat: [f32; N] = { let mut f = [0f32; N]; for i in 0..N { f[i] = f32::from_bits(w[i]); } bb(f) };
            let nest: [[f32; $C]; $R] = { let mut f = [[0f32; $C]; $R]; for i in 0..N { f[i / $C][i % $C] = f32::from_bits(w[i]); } bb(f) };
            let fl = |x: &[f32; N]| -> Vec<u32> { x.iter().map(|v| v.to_bits()).collect() };
            let nl = |x: &[[f32; $C]; $R]| -> Vec<u32> { x.iter().flat_map(|r| r.iter().map(|v| v.to_bits())).collect() };
            let s = <$T>::from(flat);
            c.check(nl(&s.m) == w, || "From<flat>".into());
            let s1 = <$T>::from(nest);
            c.check(nl(&s1.m) == w, || "From<nested>".into());
            let o: [f32; N] = s.into(); c.check(fl(&o) == w, || "Into<flat>".into());
            let o: [[f32; $C]; $R] = s.into(); c.check(nl(&o) == w, || "Into<nested>".into());
            let r: &$T = (&flat).into(); c.check(nl(&r.m) == w, || "From<&flat>".into());
            let r: &$T = (&nest).into(); c.check(nl(&r.m) == w, || "From<&nested>".into());
            let r: &[f32; N] = (&s).into(); c.check(fl(r) == w, || "Into<&flat>".into());
            let r: &[[f32; $C]; $R] = (&s).into(); c.check(nl(r) == w, || "Into<&nested>".into());
            let r: &[f32; N] = s.as_ref(); c.check(fl(r) == w, || "AsRef<flat>".into());
            let r: &[[f32; $C]; $R] = s.as_ref(); c.check(nl(r) == w, || "AsRef<nested>".into());
            let mut s2 = s; { let r: &mut [f32; N] = s2.as_mut(); r.swap(1, N - 2); }
            let mut e = w.clone(); e.swap(1, N - 2);
            c.check(nl(&s2.m) == e, || "AsMut<flat>".into());
            let mut s2 = s; { let r: &mut [[f32; $C]; $R] = s2.as_mut(); let t = r[0][$C - 1]; r[0][$C - 1] = r[$R - 1][0]; r[$R - 1][0] = t; }
            let mut e = w.clone(); e.swap($C - 1, ($R - 1) * $C);
            c.check(nl(&s2.m) == e, || "AsMut<nested>".into());
        });
    };
}

pub fn run(m: &mut Mon) {
    load_vec!(m, XMLoadInt2, [u32; 2], 2, false);
    load_vec!(m, XMLoadInt3, [u32; 3], 3, false);
    load_vec!(m, XMLoadInt4, [u32; 4], 4, false);
    load_vec!(m, XMLoadFloat2, XMFLOAT2, 2, false);
    load_vec!(m, XMLoadFloat3, XMFLOAT3, 3, false);
    load_vec!(m, XMLoadFloat3A, Align16<XMFLOAT3>, 3, true);
    load_vec!(m, XMLoadFloat4, XMFLOAT4, 4, false);
    load_vec!(m, XMLoadFloat4A, Align16<XMFLOAT4>, 4, true);
    load_mat!(m, XMLoadFloat3x3, XMFLOAT3X3, 3, 3, false, false);
    load_mat!(m, XMLoadFloat4x3, XMFLOAT4X3, 4, 3, false, false);
    load_mat!(m, XMLoadFloat3x4, XMFLOAT3X4, 3, 4, true, false);
    load_mat!(m, XMLoadFloat4x4, XMFLOAT4X4, 4, 4, false, false);
    load_mat!(m, XMLoadFloat4x4A, Align16<XMFLOAT4X4>, 4, 4, false, true);
    store_vec!(m, XMStoreFloat, f32, 1, 0, false);
    store_vec!(m, XMStoreInt2, [u32; 2], 2, 0, false);
    store_vec!(m, XMStoreInt3, [u32; 3], 3, 0, false);
    store_vec!(m, XMStoreInt4, [u32; 4], 4, 0, false);
    store_vec!(m, XMStoreFloat2, XMFLOAT2, 2, 0, false);
    store_vec!(m, XMStoreFloat3, XMFLOAT3, 3, 0, false);
    store_vec!(m, XMStoreFloat3A, Align16<XMFLOAT3>, 3, 1, true);
    store_vec!(m, XMStoreFloat4, XMFLOAT4, 4, 0, false);
    store_vec!(m, XMStoreFloat4A, Align16<XMFLOAT4>, 4, 0, true);
    store_mat!(m, XMStoreFloat3x3, XMFLOAT3X3, 3, 3, false, false);
    store_mat!(m, XMStoreFloat4x3, XMFLOAT4X3, 4, 3, false, false);
    store_mat!(m, XMStoreFloat3x4, XMFLOAT3X4, 3, 4, true, false);
    store_mat!(m, XMStoreFloat4x4, XMFLOAT4X4, 4, 4, false, false);
    store_mat!(m, XMStoreFloat4x4A, Align16<XMFLOAT4X4>, 4, 4, false, true);

    xms!(m, XMINT2, i32, 2, x, y);
    xms!(m, XMINT3, i32, 3, x, y, z);
    xms!(m, XMINT4, i32, 4, x, y, z, w);
    xms!(m, XMUINT2, u32, 2, x, y);
    xms!(m, XMUINT3, u32, 3, x, y, z);
    xms!(m, XMUINT4, u32, 4, x, y, z, w);
    xms!(m, XMFLOAT2, f32, 2, x, y);
    xms!(m, XMFLOAT3, f32, 3, x, y, z);
    xms!(m, XMFLOAT4, f32, 4, x, y, z, w);
    xmmat!(m, XMFLOAT3X3, 3, 3);
    xmmat!(m, XMFLOAT4X3, 4, 3);
    xmmat!(m, XMFLOAT3X4, 3, 4);
    xmmat!(m, XMFLOAT4X4, 4, 4);

    // full round trips through the public API only
    m.run("roundtrip", 3000, |c| {
        let w = words(c, 16);
        let mut mm = [[0f32; 4]; 4];
        for i in 0..16 { mm[i / 4][i % 4] = f32::from_bits(w[i]); }
        let mut o = XMFLOAT4X4::default();
        XMStoreFloat4x4(&mut o, XMLoadFloat4x4(&XMFLOAT4X4 { m: mm }));
        let mut oa = Align16(XMFLOAT4X4::default());
        XMStoreFloat4x4A(&mut oa, XMLoadFloat4x4A(&Align16(XMFLOAT4X4 { m: mm })));
        for i in 0..16 {
            c.check(o.m[i / 4][i % 4].to_bits() == w[i], || format!("4x4 [{}]", i));
            c.check(oa.m[i / 4][i % 4].to_bits() == w[i], || format!("4x4A [{}]", i));
        }
        let s43 = XMFLOAT4X3 { m: [[mm[0][0], mm[0][1], mm[0][2]], [mm[1][0], mm[1][1], mm[1][2]], [mm[2][0], mm[2][1], mm[2][2]], [mm[3][0], mm[3][1], mm[3][2]]] };
        let mut o = XMFLOAT4X3::default();
        XMStoreFloat4x3(&mut o, XMLoadFloat4x3(&s43));
        let s34 = XMFLOAT3X4 { m: [mm[0], mm[1], mm[2]] };
        let mut o34 = XMFLOAT3X4::default();
        XMStoreFloat3x4(&mut o34, XMLoadFloat3x4(&s34));
        for i in 0..12 {
            c.check(same(o.m[i / 3][i % 3].to_bits(), s43.m[i / 3][i % 3].to_bits()), || format!("4x3 [{}]", i));
            c.check(same(o34.m[i / 4][i % 4].to_bits(), s34.m[i / 4][i % 4].to_bits()), || format!("3x4 [{}]", i));
        }
        let s33 = XMFLOAT3X3 { m: [s43.m[0], s43.m[1], s43.m[2]] };
        let mut o = XMFLOAT3X3::default();
        XMStoreFloat3x3(&mut o, XMLoadFloat3x3(&s33));
        for i in 0..9 {
            c.check(same(o.m[i / 3][i % 3].to_bits(), s33.m[i / 3][i % 3].to_bits()), || format!("3x3 [{}]", i));
        }
    });
}
