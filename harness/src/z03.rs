//! Z03: values in an explicit byte order have their bytes in that order, and
//! come back from it.
use crate::{same, sym};
use core::num::*;
use musli_zerocopy::endian::{self, Big, ByteOrder, Endian, Little, Native};
use musli_zerocopy::{OwnedBuf, ZeroCopy};

/// The bytes of a value in memory.
fn raw<T: ZeroCopy>(v: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts(v as *const T as *const u8, core::mem::size_of::<T>()) }
}

/// `le` are the bytes of `v` in little endian.
#[inline(never)]
fn scalar<T: ZeroCopy + Copy>(v: T, le: &[u8]) {
    let n = le.len();
    let l = Endian::<T, Little>::new(v);
    let b = Endian::<T, Big>::new(v);
    for k in 0..n {
        if raw(&l)[k] != le[k] || raw(&b)[k] != le[n - 1 - k] {
            panic!("not in byte order");
        }
    }
    fn eq<T: ZeroCopy>(a: &T, b: &T, what: &'static str) {
        let (a, b) = (raw(a), raw(b));
        for k in 0..a.len() {
            if a[k] != b[k] {
                crate::differ(what);
            }
        }
    }
    eq(&l.to_ne(), &v, "from little endian");
    eq(&b.to_ne(), &v, "from big endian");
    eq(&Endian::le(v).to_ne(), &v, "from little endian");
    eq(&Endian::be(v).to_ne(), &v, "from big endian");
    eq(&v.swap_bytes::<Big>().swap_bytes::<Big>(), &v, "twice big");
    eq(&v.swap_bytes::<Little>().swap_bytes::<Little>(), &v, "twice little");
    eq(&endian::from_be(b.to_raw()), &v, "from_be");
    eq(&endian::from_le(l.to_raw()), &v, "from_le");
    eq(&endian::from_endian::<T, Native>(v), &v, "from native");
    eq(&*Endian::<T, Native>::new(v), &v, "native");
}

macro_rules! num {
    ($t:ident) => {{
        let v = sym::$t();
        scalar(v, &v.to_le_bytes());
    }};
}
macro_rules! nonzero {
    ($t:ident, $n:ident) => {{
        let v = sym::$t();
        match <$n>::new(v) {
            Some(n) => {
                scalar(n, &v.to_le_bytes());
                // The check for valid enums that this rustc adds to transmutes
                // in debug builds takes negative numbers for an invalid
                // Option<NonZeroI*>, which they are not: leave those out.
                #[allow(unused_comparisons)]
                if v >= 0 && v.swap_bytes() >= 0 {
                    scalar(Some(n), &v.to_le_bytes());
                }
            }
            None => scalar(None::<$n>, &v.to_le_bytes()),
        }
    }};
}

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Inner {
    a: u16,
    b: [u8; 2],
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Outer {
    x: u32,
    y: [u16; 2],
    i: Inner,
    f: f32,
    z: i64,
    k: Wrapping<u32>,
    n: Option<NonZeroU16>,
    s: bool,
    t: i8,
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C, packed)]
struct Packed {
    a: u8,
    b: u32,
    c: i16,
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(transparent)]
struct Wrap(u64);
#[derive(ZeroCopy)]
#[repr(C)]
struct Mixed<E: ByteOrder> {
    a: Endian<u32, E>,
    b: Endian<Inner, E>,
    c: u16,
}

#[derive(ZeroCopy, PartialEq, Debug, Clone, Copy)]
#[repr(u16)]
#[zero_copy(swap_bytes)]
enum En {
    A { f: u16 } = 1,
    #[zero_copy(swap = A)]
    Aa { f: u16 } = u16::swap_bytes(1),
    B { g: u16 } = 0x102,
    #[zero_copy(swap = B)]
    Bb { g: u16 } = u16::swap_bytes(0x102),
}

fn structure<E: ByteOrder>(big: bool) {
    let i = Inner { a: sym::u16(), b: sym::bytes() };
    let o = Outer {
        x: sym::u32(), y: [sym::u16(), sym::u16()], i, f: f32::from_bits(sym::u32()), z: sym::i64(),
        k: Wrapping(sym::u32()), n: NonZeroU16::new(sym::u16()), s: sym::bool(), t: sym::i8(),
    };
    let e = Endian::<Outer, E>::new(o);
    let r = e.to_raw();
    macro_rules! field {
        ($v:expr, $w:expr, $($m:tt)*) => {{
            let (v, w) = ($v$($m)*, $w$($m)*);
            let le = if big { w.to_be_bytes() } else { w.to_le_bytes() };
            same!(v.to_ne_bytes(), le);
        }};
    }
    field!(r, o, .x);
    field!(r, o, .y[0]);
    field!(r, o, .y[1]);
    field!(r, o, .i.a);
    same!(r.i.b, o.i.b);
    field!(r, o, .f.to_bits());
    field!(r, o, .z);
    field!(r, o, .k.0);
    // An absent value is zero in any order.
    field!(r, o, .n.map_or(0, |n| n.get()));
    same!(r.s, o.s);
    same!(r.t, o.t);
    let b = e.to_ne();
    same!((b.x, b.y, b.i.a, b.i.b), (o.x, o.y, o.i.a, o.i.b));
    same!((b.f.to_bits(), b.z, b.k, b.n, b.s, b.t), (o.f.to_bits(), o.z, o.k, o.n, o.s, o.t));

    let p = Packed { a: sym::u8(), b: sym::u32(), c: sym::i16() };
    let e = Endian::<Packed, E>::new(p);
    let r = e.to_raw();
    field!(r, p, .b);
    field!(r, p, .c);
    let b = e.to_ne();
    let (x, y) = ((b.a, b.b, b.c), (p.a, p.b, p.c));
    same!(x, y);

    let mixed = || Mixed::<E> { a: Endian::new(o.x), b: Endian::new(i), c: o.i.a };
    let m = mixed();
    same!(m.a.to_ne(), o.x);
    same!((m.b.to_ne().a, m.b.to_ne().b), (i.a, i.b));
    same!(m.c, o.i.a);
    // What has an order does not change with the one it is in.
    let w = mixed().swap_bytes::<Big>();
    same!(w.a.to_ne(), o.x);
    same!((w.b.to_ne().a, w.b.to_ne().b), (i.a, i.b));
    same!(w.c.to_ne_bytes(), m.c.to_be_bytes());

    // Stored, and read back.
    let mut buf = OwnedBuf::new();
    let r = buf.store(&m);
    let l = match buf.load(r) {
        Ok(l) => l,
        Err(..) => panic!("cannot be loaded"),
    };
    same!(l.a.to_ne(), o.x);
    let le = if big { o.x.to_be_bytes() } else { o.x.to_le_bytes() };
    same!(buf[r.offset()..r.offset() + 4], le[..]);
}

crate::harnesses! {
    fn h_z03_integers() {
        match sym::pick(12) {
            0 => num!(u8), 1 => num!(i8), 2 => num!(u16), 3 => num!(i16),
            4 => num!(u32), 5 => num!(i32), 6 => num!(u64), 7 => num!(i64),
            8 => num!(u128), 9 => num!(i128), 10 => num!(usize), _ => num!(isize),
        }
    }
    fn h_z03_floats() {
        match sym::pick(2) {
            0 => { let v = sym::u32(); scalar(f32::from_bits(v), &v.to_le_bytes()) }
            _ => { let v = sym::u64(); scalar(f64::from_bits(v), &v.to_le_bytes()) }
        }
    }
    fn h_z03_nonzero() {
        match sym::pick(12) {
            0 => nonzero!(u8, NonZeroU8), 1 => nonzero!(i8, NonZeroI8),
            2 => nonzero!(u16, NonZeroU16), 3 => nonzero!(i16, NonZeroI16),
            4 => nonzero!(u32, NonZeroU32), 5 => nonzero!(i32, NonZeroI32),
            6 => nonzero!(u64, NonZeroU64), 7 => nonzero!(i64, NonZeroI64),
            8 => nonzero!(u128, NonZeroU128), 9 => nonzero!(i128, NonZeroI128),
            10 => nonzero!(usize, NonZeroUsize), _ => nonzero!(isize, NonZeroIsize),
        }
    }
    fn h_z03_wrapped() {
        match sym::pick(4) {
            0 => { let v = sym::u32(); scalar(Wrapping(v), &v.to_le_bytes()) }
            1 => { let v = sym::u64(); scalar(Wrap(v), &v.to_le_bytes()) }
            2 => { let v = sym::u8(); scalar([v], &[v]) }
            _ => { let v = sym::bool(); scalar(v, &[v as u8]) }
        }
    }
    fn h_z03_structure() {
        match sym::pick(2) {
            0 => structure::<Big>(true),
            _ => structure::<Little>(false),
        }
    }
    /// Enums whose variants have a counterpart in the other order.
    fn h_z03_enum() {
        let f = sym::u16();
        let (v, t) = match sym::pick(2) {
            0 => (En::A { f }, 1u16),
            _ => (En::B { g: f }, 0x102),
        };
        let b = Endian::<En, Big>::new(v);
        same!(raw(&b)[..2], t.to_be_bytes());
        same!(raw(&b)[2..], f.to_be_bytes());
        same!(b.to_ne(), v);
        let l = Endian::<En, Little>::new(v);
        same!(raw(&l)[..2], t.to_le_bytes());
        same!(raw(&l)[2..], f.to_le_bytes());
        same!(l.to_ne(), v);
        same!(v.swap_bytes::<Big>().swap_bytes::<Big>(), v);
        // Loaded from bytes in the other order.
        let mut buf = OwnedBuf::new();
        let r = buf.store(&b);
        match buf.load(r) {
            Ok(l) => same!(l.to_ne(), v),
            Err(..) => panic!("cannot be loaded"),
        }
    }
}
