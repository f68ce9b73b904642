//! A call of every public function with arguments generated by type. Used by the totality (C24), purity (C23)
//! and memory (C01) monitors, which need no knowledge of what the function computes.
use crate::core::*;
use directx_math::collision::*;

pub struct G<'a, 'b> { pub c: &'a mut Case<'b>, pub mode: u32, pub vals: Vec<u32>, pub over: Vec<(usize, u32)>, pub out: Rng, pub slot: usize }
pub struct O(pub Vec<u32>);
impl O { pub fn new() -> O { O(Vec::with_capacity(16)) } pub fn put(&mut self, x: impl Put) { x.put(&mut self.0) }
    /// an argument passed by shared reference is the same after the call
    pub fn same<T: Put>(&mut self, a: T, b: T) { let (mut x, mut y) = (vec![], vec![]); a.put(&mut x); b.put(&mut y); if x != y { panic!("argument changed from {:08x?} to {:08x?}", x, y) } }
}
pub trait Put { fn put(self, o: &mut Vec<u32>); }
impl Put for XMVECTOR { fn put(self, o: &mut Vec<u32>) { o.extend(vu(self)) } }
impl Put for XMMATRIX { fn put(self, o: &mut Vec<u32>) { for r in mf(self) { o.extend(b4(r)) } } }
impl Put for f32 { fn put(self, o: &mut Vec<u32>) { o.push(self.to_bits()) } }
impl Put for u32 { fn put(self, o: &mut Vec<u32>) { o.push(self) } }
impl Put for u16 { fn put(self, o: &mut Vec<u32>) { o.push(self as u32) } }
impl Put for bool { fn put(self, o: &mut Vec<u32>) { o.push(unsafe { std::mem::transmute::<bool, u8>(self) } as u32) } }
impl Put for ContainmentType { fn put(self, o: &mut Vec<u32>) { o.push(self as u32) } }
impl Put for PlaneIntersectionType { fn put(self, o: &mut Vec<u32>) { o.push(self as u32) } }
impl<const N: usize> Put for [u32; N] { fn put(self, o: &mut Vec<u32>) { o.extend(self) } }
impl<const N: usize> Put for [XMFLOAT3; N] { fn put(self, o: &mut Vec<u32>) { for p in self { p.put(o) } } }
impl<T: Put> Put for Align16<T> { fn put(self, o: &mut Vec<u32>) { self.0.put(o) } }
macro_rules! putf { ($($T:ident $n:literal),*) => { $( impl Put for $T { fn put(self, o: &mut Vec<u32>) { let a: [f32; $n] = self.into(); for x in a { o.push(x.to_bits()) } } } )* } }
putf!(XMFLOAT2 2, XMFLOAT3 3, XMFLOAT4 4, XMFLOAT3X3 9, XMFLOAT3X4 12, XMFLOAT4X3 12, XMFLOAT4X4 16);
impl Put for BoundingSphere { fn put(self, o: &mut Vec<u32>) { self.Center.put(o); self.Radius.put(o) } }
impl Put for BoundingBox { fn put(self, o: &mut Vec<u32>) { self.Center.put(o); self.Extents.put(o) } }
impl Put for BoundingOrientedBox { fn put(self, o: &mut Vec<u32>) { self.Center.put(o); self.Extents.put(o); self.Orientation.put(o) } }
impl Put for BoundingFrustum { fn put(self, o: &mut Vec<u32>) {
    self.Origin.put(o); self.Orientation.put(o);
    for x in [self.RightSlope, self.LeftSlope, self.TopSlope, self.BottomSlope, self.Near, self.Far] { x.put(o) }
} }

#[allow(non_snake_case)]
impl<'a, 'b> G<'a, 'b> {
    pub fn new(c: &'a mut Case<'b>) -> G<'a, 'b> { let mode = c.idx(4); arena::reset(); G { c, mode, vals: vec![], over: vec![], out: Rng::new(0), slot: 0 } }
    // previous content of out parameters: not an input of the call
    pub fn ou(&mut self) -> u32 { match self.out.below(3) { 0 => 0x7FC00000, 1 => 0, _ => self.out.u32() } }
    pub fn of(&mut self) -> f32 { f32::from_bits(self.ou()) }
    pub fn ous<const N: usize>(&mut self) -> [u32; N] { let mut a = [0; N]; for i in 0..N { a[i] = self.ou(); } a }
    pub fn ofs<const N: usize>(&mut self) -> [f32; N] { let mut a = [0.0; N]; for i in 0..N { a[i] = self.of(); } a }
    pub fn ov(&mut self) -> XMVECTOR { xu(self.ous::<4>()) }
    pub fn oBoundingSphere(&mut self) -> BoundingSphere { BoundingSphere { Center: self.ofs::<3>().into(), Radius: self.of() } }
    pub fn oBoundingBox(&mut self) -> BoundingBox { BoundingBox { Center: self.ofs::<3>().into(), Extents: self.ofs::<3>().into() } }
    pub fn oBoundingOrientedBox(&mut self) -> BoundingOrientedBox { BoundingOrientedBox { Center: self.ofs::<3>().into(), Extents: self.ofs::<3>().into(), Orientation: self.ofs::<4>().into() } }
    pub fn oBoundingFrustum(&mut self) -> BoundingFrustum {
        BoundingFrustum { Origin: self.ofs::<3>().into(), Orientation: self.ofs::<4>().into(), RightSlope: self.of(), LeftSlope: self.of(), TopSlope: self.of(), BottomSlope: self.of(), Near: self.of(), Far: self.of() }
    }
    pub fn f(&mut self) -> f32 {
        let x = match self.mode { 0 => self.c.any(), 1 => self.c.md(), 2 => self.c.fin(), _ => if self.c.r.coin() { self.c.any() } else { self.c.md() } };
        f32::from_bits(self.arg(x.to_bits()))
    }
    /// every argument word passes here: recorded, and replaced in a neighbouring call (C23)
    fn arg(&mut self, w: u32) -> u32 {
        let k = self.vals.len();
        let w = self.over.iter().find(|o| o.0 == k).map_or(w, |o| o.1);
        self.vals.push(w);
        w
    }
    fn unit(&mut self, n: usize) -> [f32; 4] { let q = self.c.unitn(n); q.map(|x| f32::from_bits(self.arg(x.to_bits()))) }
    pub fn fs<const N: usize>(&mut self) -> [f32; N] { let mut a = [0.0; N]; for i in 0..N { a[i] = self.f(); } a }
    pub fn v(&mut self) -> XMVECTOR {
        if self.mode == 1 && self.c.r.chance(1, 3) { let q = self.unit(4); return xv(q); }
        if self.mode == 1 && self.c.r.chance(1, 4) { let q = self.unit(3); return xv(q); }
        let a = self.fs::<4>(); xv(a)
    }
    pub fn m(&mut self) -> XMMATRIX { xm([self.fs(), self.fs(), self.fs(), self.fs()]) }
    pub fn u(&mut self) -> u32 { let w = self.c.any_bits(); let w = self.arg(w); self.c.log(w); w }
    pub fn us<const N: usize>(&mut self) -> [u32; N] { let mut a = [0; N]; for i in 0..N { a[i] = self.u(); } a }
    pub fn idx(&mut self, n: u32) -> u32 { self.c.idx(n) }
    fn quat(&mut self) -> XMFLOAT4 { if self.mode == 1 || self.c.r.chance(2, 3) { self.unit(4).into() } else { self.fs::<4>().into() } }
    fn pos(&mut self) -> f32 { if self.mode == 1 { self.f().abs() + 0.01 } else { self.f() } }
    pub fn BoundingSphere(&mut self) -> BoundingSphere { BoundingSphere { Center: self.fs::<3>().into(), Radius: self.pos() } }
    pub fn BoundingBox(&mut self) -> BoundingBox { BoundingBox { Center: self.fs::<3>().into(), Extents: [self.pos(), self.pos(), self.pos()].into() } }
    pub fn BoundingOrientedBox(&mut self) -> BoundingOrientedBox {
        BoundingOrientedBox { Center: self.fs::<3>().into(), Extents: [self.pos(), self.pos(), self.pos()].into(), Orientation: self.quat() }
    }
    pub fn BoundingFrustum(&mut self) -> BoundingFrustum {
        let n = self.pos();
        let w = self.pos();
        BoundingFrustum { Origin: self.fs::<3>().into(), Orientation: self.quat(), RightSlope: self.pos(), LeftSlope: -self.pos(), TopSlope: self.pos(), BottomSlope: -self.pos(), Near: n, Far: n + w }
    }
    pub fn pts(&mut self) -> Vec<XMFLOAT3> {
        let n = if self.c.r.chance(1, 8) { self.idx(150) } else { self.idx(9) } as usize;
        (0..n).map(|_| self.fs::<3>().into()).collect()
    }
}
// ---- placement of objects passed by reference
// Ordinary builds: every object sits in its own page between two inaccessible pages, flush with either end or at an
// address with no more alignment than its type demands; an access outside of it faults. Under Miri and AddressSanitizer
// (--cfg asan) it is a heap block of exactly its size.
#[cfg(not(any(miri, asan)))]
mod arena {
    extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
    pub const SLOTS: usize = 16;
    thread_local! { static A: std::cell::Cell<*mut u8> = const { std::cell::Cell::new(std::ptr::null_mut()) }; }
    pub fn slot(k: usize) -> *mut u8 {
        A.with(|a| {
            if a.get().is_null() {
                unsafe {
                    let n = (2 * SLOTS + 1) * 4096;
                    let p = mmap(std::ptr::null_mut(), n, 0, 0x22, -1, 0); // PROT_NONE, private anonymous
                    assert!(p as isize != -1);
                    for i in 0..SLOTS { assert!(mprotect(p.add((2 * i + 1) * 4096), 4096, 3) == 0); }
                    a.set(p);
                }
            }
            unsafe { a.get().add((2 * (k % SLOTS) + 1) * 4096) }
        })
    }
    pub fn alloc(k: usize, size: usize, align: usize, how: u32) -> *mut u8 {
        let p = slot(k);
        unsafe {
            match how % 4 {
                0 | 1 => p.add((4096 - size) & !(align - 1)),
                2 => p,
                _ => p.add(align * (1 + (how as usize >> 2) % 15)),
            }
        }
    }
    pub fn reset() {}
}
#[cfg(any(miri, asan))]
mod arena {
    thread_local! { static A: std::cell::RefCell<Vec<(*mut u8, std::alloc::Layout)>> = const { std::cell::RefCell::new(Vec::new()) }; }
    pub fn alloc(_k: usize, size: usize, align: usize, _how: u32) -> *mut u8 {
        let l = std::alloc::Layout::from_size_align(size.max(1), align).unwrap();
        let p = unsafe { std::alloc::alloc(l) };
        A.with(|a| a.borrow_mut().push((p, l)));
        p
    }
    pub fn reset() { A.with(|a| for (p, l) in a.borrow_mut().drain(..) { unsafe { std::alloc::dealloc(p, l) } }); }
}
impl<'a, 'b> G<'a, 'b> {
    pub fn place<T: Copy>(&mut self, x: T) -> &'static mut T {
        let how = self.out.u32();
        let p = arena::alloc(self.slot, std::mem::size_of::<T>(), std::mem::align_of::<T>(), how) as *mut T;
        self.slot += 1;
        unsafe { p.write(x); &mut *p }
    }
    pub fn place_slice<T: Copy>(&mut self, x: &[T]) -> &'static [T] {
        let how = self.out.u32();
        let p = arena::alloc(self.slot, std::mem::size_of::<T>() * x.len(), std::mem::align_of::<T>(), how) as *mut T;
        self.slot += 1;
        unsafe { for (i, v) in x.iter().enumerate() { p.add(i).write(*v); } std::slice::from_raw_parts(p, x.len()) }
    }
}
include!("calls_table.rs");
/// compile-time controlled forms and operators
pub const EXTRA: &[(&str, bool, fn(&mut G) -> Vec<u32>)] = &[
    ("XMVectorInsert", true, |g| { let mut o = O::new(); let (a, b, r) = (g.v(), g.v(), g.idx(4)); let s = [g.idx(2), g.idx(2), g.idx(2), g.idx(2)]; o.put(XMVectorInsert(a, b, r, s[0], s[1], s[2], s[3])); o.0 }),
    ("swizzle<const>", false, |g| { let mut o = O::new(); let a = g.v(); o.put(<(XM_SWIZZLE_W, XM_SWIZZLE_Y, XM_SWIZZLE_X, XM_SWIZZLE_Z)>::XMVectorSwizzle(a)); o.put(<(XM_SWIZZLE_X, XM_SWIZZLE_X, XM_SWIZZLE_Y, XM_SWIZZLE_W)>::XMVectorSwizzle(a)); o.0 }),
    ("permute<const>", false, |g| { let mut o = O::new(); let (a, b) = (g.v(), g.v()); o.put(<(XM_PERMUTE_1X, XM_PERMUTE_0Y, XM_PERMUTE_1W, XM_PERMUTE_0Z)>::XMVectorPermute(a, b)); o.put(<(XM_PERMUTE_0X, XM_PERMUTE_1X, XM_PERMUTE_0Y, XM_PERMUTE_1Y)>::XMVectorPermute(a, b)); o.0 }),
    ("XMVector operators", false, |g| { let mut o = O::new(); let (a, b, s) = (XMVector(g.v()), XMVector(g.v()), g.f()); for r in [a + b, a - b, a * b, a / b, a * s, s * a, a / s, -a] { o.put(r.0); } o.put(a == b); o.0 }),
    ("XMMatrix operators", false, |g| { let mut o = O::new(); let (a, b, s) = (XMMatrix(g.m()), XMMatrix(g.m()), g.f()); for r in [a + b, a - b, a * b, a * s, s * a, a / s, -a] { o.put(r.0); } let mut z = a; z += b; z *= b; z -= a; z /= s; o.put(z.0); o.put(a == b); o.0 }),
];
