//! Symbolic inputs and verdicts. Under `--cfg symex` the primitives are
//! declarations that the symbolic executor implements; natively they read the
//! bytes of a concrete input, so that every path can be replayed.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout};

#[cfg(symex)]
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_cover(id: u32);
    fn sym_observe(v: u64);
    fn sym_known(id: u32);
    fn sym_alloc(n: usize, align: usize) -> *mut u8;
    fn sym_dealloc(p: *mut u8, n: usize, align: usize);
    fn sym_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
    fn sym_check_init(p: *const u8, n: usize);
    fn sym_concrete(v: u64) -> u64;
    fn sym_live() -> usize;
}

#[cfg(not(symex))]
pub mod native {
    //! State of the single run in this process.
    use std::cell::UnsafeCell;
    pub struct St {
        pub input: Vec<u8>,
        pub pos: usize,
        pub trace: u64,
        pub live: usize,
        pub on: bool,
        pub end: fn(&str) -> !,
    }
    pub struct G(pub UnsafeCell<St>);
    unsafe impl Sync for G {}
    fn stop(_: &str) -> ! {
        std::process::abort()
    }
    pub static ST: G = G(UnsafeCell::new(St {
        input: Vec::new(),
        pos: 0,
        trace: 0xcbf2_9ce4_8422_2325,
        live: 0,
        on: false,
        end: stop,
    }));
    pub fn st() -> &'static mut St {
        unsafe { &mut *ST.0.get() }
    }
    pub fn mix(v: u64) {
        for b in v.to_le_bytes() {
            st().trace = (st().trace ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

#[cfg(not(symex))]
mod prim {
    use super::native::*;
    use std::alloc::{GlobalAlloc, Layout, System};
    const MAGIC: u64 = 0x6d75_736c_695f_7668;

    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        let s = st();
        for i in 0..n {
            *p.add(i) = s.input.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
        }
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            (st().end)("assume")
        }
    }
    pub unsafe fn sym_cover(id: u32) {
        mix(id as u64)
    }
    pub unsafe fn sym_observe(v: u64) {
        mix(v)
    }
    pub unsafe fn sym_known(id: u32) {
        (st().end)(&format!("known {id}"))
    }
    // Layout of a tracked allocation: [pad.. base size align magic][user][8 bytes canary]
    pub unsafe fn sym_alloc(n: usize, align: usize) -> *mut u8 {
        if n == 0 {
            (st().end)("violation heap: allocation of no bytes")
        }
        // No better aligned than asked for, as in the symbolic memory.
        let Ok(l) = Layout::from_size_align(n.wrapping_add(64 + 4096 + align + 8), 4096.max(align)) else {
            return std::ptr::null_mut();
        };
        let b = System.alloc(l);
        if b.is_null() {
            return b;
        }
        let u = b.add(4096 + align);
        std::ptr::write_bytes(u, 0xa5, n);
        (u.sub(32) as *mut u64).write_unaligned(n as u64);
        (u.sub(24) as *mut u64).write_unaligned(align as u64);
        (u.sub(16) as *mut u64).write_unaligned(MAGIC);
        (u.sub(8) as *mut u64).write_unaligned(!MAGIC);
        (u.add(n) as *mut u64).write_unaligned(MAGIC ^ 0x55);
        st().live += 1;
        u
    }
    pub unsafe fn sym_dealloc(u: *mut u8, n: usize, align: usize) {
        let rd = |p: *mut u8| (p as *mut u64).read_unaligned();
        if rd(u.sub(16)) != MAGIC || rd(u.sub(8)) != !MAGIC {
            (st().end)("violation heap: free of memory that is not allocated")
        }
        if rd(u.sub(32)) != n as u64 || rd(u.sub(24)) != align as u64 {
            (st().end)("violation heap: freed with another layout than allocated")
        }
        if rd(u.add(n)) != MAGIC ^ 0x55 {
            (st().end)("violation heap: write past the end of an allocation")
        }
        (u.sub(16) as *mut u64).write_unaligned(0xdead);
        std::ptr::write_bytes(u, 0x5a, n);
        st().live -= 1;
        // Freed memory is not reused: the process lives for one input only.
    }
    pub unsafe fn sym_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8 {
        let r = sym_alloc(new, align);
        if !r.is_null() {
            std::ptr::copy_nonoverlapping(p, r, old.min(new));
            sym_dealloc(p, old, align);
        }
        r
    }
    pub unsafe fn sym_check_init(_: *const u8, _: usize) {}
    pub unsafe fn sym_concrete(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_live() -> usize {
        st().live
    }
}
#[cfg(not(symex))]
use prim::*;

pub struct Heap;

#[cfg(symex)]
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sym_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sym_realloc(p, l.size(), l.align(), n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = sym_alloc(l.size(), l.align());
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
}

#[cfg(not(symex))]
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !native::st().on {
            std::alloc::System.alloc(l)
        } else if cfg!(miri) {
            native::st().live += 1;
            std::alloc::System.alloc(l)
        } else {
            sym_alloc(l.size(), l.align())
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !native::st().on {
            std::alloc::System.dealloc(p, l)
        } else if cfg!(miri) {
            native::st().live -= 1;
            std::alloc::System.dealloc(p, l)
        } else {
            sym_dealloc(p, l.size(), l.align())
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if native::st().on && !cfg!(miri) {
            sym_realloc(p, l.size(), l.align(), n)
        } else {
            std::alloc::System.realloc(p, l, n)
        }
    }
}

#[global_allocator]
static HEAP: Heap = Heap;

// ----- what harnesses use -----

/// N unconstrained bytes.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) };
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) };
}
/// Marks a situation that must be reachable (guards against vacuity).
pub fn cover(id: u32) {
    unsafe { sym_cover(id) };
}
/// A value that the symbolic and the native run of a path must agree on.
pub fn observe(v: u64) {
    unsafe { sym_observe(v) };
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}
/// Ends the path: the property fails here as recorded in known-findings.
pub fn known(id: u32) {
    unsafe { sym_known(id) };
}
pub fn check_init(b: &[u8]) {
    unsafe { sym_check_init(b.as_ptr(), b.len()) };
}
pub fn concrete(v: usize) -> usize {
    unsafe { sym_concrete(v as u64) as usize }
}
/// Number of live heap allocations.
pub fn live() -> usize {
    unsafe { sym_live() }
}

macro_rules! ints {
    ($($t:ident),*) => {$(
        pub fn $t() -> $t {
            $t::from_ne_bytes(bytes())
        }
    )*}
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);

pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// A symbolic number below `n`.
pub fn below(n: u8) -> u8 {
    let b = u8();
    assume(b < n);
    b
}
/// A number below `n`, one path for each.
pub fn pick(n: u8) -> usize {
    concrete(below(n) as usize)
}
pub fn f32() -> f32 {
    f32::from_bits(u32())
}
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
/// Any character.
pub fn char() -> char {
    let v = u32();
    match char::from_u32(v) {
        Some(c) => c,
        None => {
            assume(false);
            'x'
        }
    }
}
/// Any UTF-8 string of at most N bytes.
pub struct Str<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
pub fn string<const N: usize>() -> Str<N> {
    let b = bytes::<N>();
    let n = pick(N as u8 + 1);
    assume(std::str::from_utf8(&b[..n]).is_ok());
    Str { b, n }
}
impl<const N: usize> Str<N> {
    pub fn get(&self) -> &str {
        // checked in `string`
        unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
}
pub fn ascii<const N: usize>() -> Str<N> {
    let b = bytes::<N>();
    let n = pick(N as u8 + 1);
    for i in 0..n {
        assume(b[i] < 128);
    }
    Str { b, n }
}
/// At most N bytes of input, each length explored.
pub struct Buf<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
pub fn slice<const N: usize>() -> Buf<N> {
    let b = bytes::<N>();
    let n = pick(N as u8 + 1);
    Buf { b, n }
}
impl<const N: usize> Buf<N> {
    pub fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
}

/// Symbolic values by type.
pub trait Sym: Sized {
    fn sym() -> Self;
}
macro_rules! symi {
    ($($t:ident),*) => {$( impl Sym for $t { fn sym() -> $t { $t() } } )*}
}
symi!(f32, f64, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize, bool, char);
impl<T: Sym> Sym for Option<T> {
    fn sym() -> Self {
        if bool() {
            Some(T::sym())
        } else {
            None
        }
    }
}
impl<T: Sym, const N: usize> Sym for [T; N] {
    fn sym() -> Self {
        std::array::from_fn(|_| T::sym())
    }
}
impl Sym for () {
    fn sym() {}
}
impl<A: Sym, B: Sym> Sym for (A, B) {
    fn sym() -> Self {
        (A::sym(), B::sym())
    }
}
impl<A: Sym, B: Sym, C: Sym> Sym for (A, B, C) {
    fn sym() -> Self {
        (A::sym(), B::sym(), C::sym())
    }
}
pub fn any<T: Sym>() -> T {
    T::sym()
}
