//! Z04: stored values load back equal, at aligned and disjoint places, and the
//! buffer holds nothing but what was stored.
use crate::zc::*;
use crate::{same, sym, tier};
use core::mem::{align_of, size_of};
use core::num::*;
use musli_zerocopy::buf::{SliceMut, StoreBuf};
use musli_zerocopy::endian::{Big, ByteOrder, Endian, Little, Native};
use musli_zerocopy::pointer::Size;
use musli_zerocopy::{Buf, OwnedBuf, Ref, ZeroCopy};

/// Two values with the same contents but for their padding.
fn twins<T: Valid>(a: &mut Bytes, b: &mut Bytes) {
    let n = size_of::<T>();
    sym::fill(&mut a.0[..n]);
    sym::assume(n == 0 || T::valid(&a.0[..n]));
    for i in 0..n {
        b.0[i] = if T::data(&a.0[..n], i) { a.0[i] } else { sym::u8() };
    }
}
fn value<T: Valid>(b: &Bytes) -> &T {
    unsafe { &*(b.0.as_ptr() as *const T) }
}
/// What is loaded from `r` is the value with the bytes `b`.
fn loads<T: Valid, E: ByteOrder, O: Size>(buf: &Buf, r: Ref<T, E, O>, b: &[u8]) {
    same!(r.offset() % align_of::<T>(), 0);
    let p = match buf.load(r) {
        Ok(v) => v as *const T as *const u8,
        Err(..) => panic!("a stored value cannot be loaded"),
    };
    let n = size_of::<T>();
    if n > 0 {
        same!(p as usize, buf[r.offset()..].as_ptr() as usize);
    }
    for i in 0..n {
        if T::data(b, i) && unsafe { *p.add(i) } != b[i] {
            crate::differ("another value than was stored");
        }
    }
}
fn only(a: &Buf, b: &Buf) {
    let (a, b) = (&a[..], &b[..]);
    sym::check_init(a);
    same!(a.len(), b.len());
    for i in 0..a.len() {
        if a[i] != b[i] {
            crate::differ("padding shows in the buffer");
        }
    }
}

/// A value at any position of an owned buffer.
#[inline(never)]
fn owned<T: Valid>() {
    let (mut a, mut b) = (Bytes([0; 64]), Bytes([0; 64]));
    twins::<T>(&mut a, &mut b);
    let lead = sym::concrete(sym::below(tier(4, 9) as u8) as usize);
    let (mut x, mut y) = (OwnedBuf::new(), OwnedBuf::new());
    x.extend_from_slice(&[7; 8][..lead]);
    y.extend_from_slice(&[7; 8][..lead]);
    let n = size_of::<T>();
    let bytes = &a.0[..n];
    match sym::pick(3) {
        0 => {
            let r = x.store(value::<T>(&a));
            let q = y.store(value::<T>(&b));
            x.align_in_place();
            y.align_in_place();
            same!((r.offset() >= lead), true);
            same!(q.offset(), r.offset());
            same!(x.len(), r.offset() + n);
            loads(&x, r, bytes);
            loads(&y, q, bytes);
            // What follows does not disturb it.
            let e = x.store(&0x0102030405060708u64);
            y.store(&0x0102030405060708u64);
            x.align_in_place();
            same!((e.offset() >= r.offset() + n), true);
            loads(&x, r, bytes);
            only(&x, &y);
        }
        1 => {
            let u = x.store_uninit::<T>();
            sym::check_init(&x[..]);
            x.load_uninit_mut(u).write(value::<T>(&a));
            let r = u.assume_init();
            let q = y.store_uninit::<T>();
            y.load_uninit_mut(q).write(value::<T>(&b));
            x.align_in_place();
            y.align_in_place();
            loads(&x, r, bytes);
            only(&x, &y);
        }
        _ => {
            let mut mem = Bytes([0xaa; 64]);
            let mut s = SliceMut::new(&mut mem.0);
            s.extend_from_slice(&[7; 8][..lead]);
            let r = s.store(value::<T>(&a));
            loads(&s, r, bytes);
            let q = y.store(value::<T>(&b));
            same!(r.offset(), q.offset());
            only(&s, &y);
        }
    }
}
/// A slice of values.
#[inline(never)]
fn slice<T: Valid + Copy>() {
    let (mut a, mut b) = (Bytes([0; 64]), Bytes([0; 64]));
    twins::<[T; 2]>(&mut a, &mut b);
    let lead = sym::concrete(sym::below(3) as usize);
    let k = sym::concrete(sym::below(3) as usize);
    let (mut x, mut y) = (OwnedBuf::new(), OwnedBuf::new());
    x.extend_from_slice(&[7; 8][..lead]);
    y.extend_from_slice(&[7; 8][..lead]);
    let r = x.store_slice(&value::<[T; 2]>(&a)[..k]);
    let q = match sym::pick(2) {
        0 => y.store_slice(&value::<[T; 2]>(&b)[..k]),
        _ => y.store_unsized(&value::<[T; 2]>(&b)[..k]),
    };
    x.align_in_place();
    same!((r.len(), r.offset()), (k, q.offset()));
    let n = size_of::<T>();
    match x.load(r) {
        Ok(v) => same!(v.len(), k),
        Err(..) => panic!("a stored value cannot be loaded"),
    }
    for i in 0..k {
        let Some(e) = r.get(i) else { panic!("an element is missing") };
        loads(&x, e, &a.0[i * n..][..n]);
    }
    same!(x.len(), r.offset() + k * n);
    only(&x, &y);
}

/// Anything that can be stored, and how it is found again.
#[derive(Clone, Copy)]
enum Was<E: ByteOrder, O: Size> {
    U8(Ref<u8, E, O>, u8),
    U32(Ref<u32, E, O>, u32),
    U64(Ref<u64, E, O>, u64),
    S(Ref<Padded, E, O>, [u8; 12]),
    L(Ref<[u16], E, O>, [u16; 2], usize),
    T(Ref<str, E, O>, u8),
    B(usize, [u8; 3], usize),
}
impl<E: ByteOrder, O: Size> Was<E, O> {
    fn check(&self, buf: &Buf) -> (usize, usize) {
        fn eq<T: PartialEq + ?Sized>(l: Result<&T, musli_zerocopy::Error>, v: &T) {
            match l {
                Ok(x) if x == v => {}
                Ok(..) => crate::differ("another value than was stored"),
                Err(..) => panic!("a stored value cannot be loaded"),
            }
        }
        match *self {
            Was::U8(r, v) => (eq(buf.load(r), &v), (r.offset(), 1)).1,
            Was::U32(r, v) => (eq(buf.load(r), &v), (r.offset(), 4)).1,
            Was::U64(r, v) => (eq(buf.load(r), &v), (r.offset(), 8)).1,
            Was::S(r, b) => (loads(buf, r, &b), (r.offset(), 12)).1,
            Was::L(r, v, n) => (eq(buf.load(r), &v[..n]), (r.offset(), n * 2)).1,
            Was::T(r, b) => (eq(buf.load(r).map(|s| s.as_bytes()), &[b'x', b][..]), (r.offset(), 2)).1,
            Was::B(o, b, n) => (same!(buf[o..o + n], b[..n]), (o, n)).1,
        }
    }
}
fn put<S: StoreBuf>(buf: &mut S) -> Was<S::ByteOrder, S::Size> {
    match sym::pick(6) {
        0 => {
            let v = sym::u8();
            Was::U8(buf.store(&v), v)
        }
        1 => {
            let v = sym::u32();
            Was::U32(buf.store(&v), v)
        }
        2 => {
            let v = sym::u64();
            Was::U64(buf.store(&v), v)
        }
        3 => {
            let v = Padded { a: sym::u8(), b: sym::bool(), c: 'x', d: NonZeroI16::MIN };
            let r = buf.store(&v);
            let mut b = [0; 12];
            let p = &v as *const Padded as *const u8;
            for i in 0..12 {
                if Padded::data(&[], i) {
                    b[i] = unsafe { *p.add(i) };
                }
            }
            Was::S(r, b)
        }
        4 => {
            let v = [sym::u16(), sym::u16()];
            let n = sym::pick(3);
            Was::L(buf.store_unsized(&v[..n]), v, n)
        }
        _ => {
            let b = sym::below(128);
            let s = [b'x', b];
            Was::T(buf.store_unsized(core::str::from_utf8(&s).unwrap()), b)
        }
    }
}
/// A history of stores, after which everything is found.
#[inline(never)]
fn history<S: StoreBuf>(buf: &mut S, raw: fn(&mut S, &[u8]), other: fn(&mut S, usize))
{
    const K: usize = tier(3, 4);
    let mut all: [Option<Was<S::ByteOrder, S::Size>>; K] = [const { None }; K];
    for i in 0..K {
        all[i] = Some(match sym::pick(3) {
            0 => {
                let b = sym::bytes();
                let n = sym::pick(4);
                let at = buf.as_buf().len();
                raw(buf, &b[..n]);
                Was::B(at, b, n)
            }
            1 => {
                other(buf, sym::pick(3));
                put(buf)
            }
            _ => put(buf),
        });
        sym::check_init(&buf.as_buf()[..]);
    }
    buf.as_mut_buf();
    other(buf, 3);
    let mut end = 0;
    for w in all.iter().flatten() {
        let (at, n) = w.check(buf.as_buf());
        if at < end || at + n > buf.as_buf().len() {
            panic!("overlaps what was stored before");
        }
        end = at + n;
    }
}
fn owned_history<E: ByteOrder, O: Size>(cap: usize) {
    let mut b = OwnedBuf::with_capacity(cap).with_byte_order::<E>().with_size::<O>();
    history(&mut b, |b, d| b.extend_from_slice(d), |b, k| match k {
        0 => b.reserve(5),
        1 => b.request_align::<u128>(),
        2 => { b.next_offset::<u32>(); }
        _ => b.align_in_place(),
    });
}

crate::harnesses! {
    fn h_z04_scalars() {
        match sym::pick(6) {
            0 => owned::<u8>(), 1 => owned::<u16>(), 2 => owned::<i64>(), 3 => owned::<f32>(), 4 => owned::<()>(), _ => owned::<bool>(),
        }
    }
    fn h_z04_char() { match sym::pick(2) { 0 => owned::<char>(), _ => owned::<Clear>() } }
    fn h_z04_nonzero() {
        match sym::pick(3) { 0 => owned::<NonZeroU32>(), 1 => owned::<Option<NonZeroU8>>(), _ => owned::<Wrapping<NonZeroU16>>() }
    }
    fn h_z04_arrays() { match sym::pick(3) { 0 => owned::<[bool; 3]>(), 1 => owned::<[Nested; 2]>(), _ => owned::<[Data; 2]>() } }
    fn h_z04_padded() { owned::<Padded>() }
    fn h_z04_nested() { owned::<Nested>() }
    fn h_z04_packed() { match sym::pick(2) { 0 => owned::<Tight>(), _ => owned::<Tight2>() } }
    fn h_z04_aligned() { owned::<Over>() }
    fn h_z04_enums() { match sym::pick(2) { 0 => owned::<Tag>(), _ => owned::<Wide>() } }
    fn h_z04_data() { owned::<Data>() }
    fn h_z04_data16() { owned::<Data16>() }
    fn h_z04_generic() { match sym::pick(3) { 0 => owned::<Generic<bool, 2>>(), 1 => owned::<Generic<Wide, 1>>(), _ => owned::<Generic<Nested, 2>>() } }
    fn h_z04_wrapped() { match sym::pick(2) { 0 => owned::<Endian<u32, Big>>(), _ => owned::<Ref<[bool], Big, u16>>() } }
    fn h_z04_slices() {
        match sym::pick(4) {
            0 => slice::<u16>(), 1 => slice::<bool>(), 2 => slice::<Nested>(), _ => slice::<()>(),
        }
    }
    fn h_z04_slices_structs() { match sym::pick(3) { 0 => slice::<Padded>(), 1 => slice::<Data>(), _ => slice::<Over>() } }
    fn h_z04_str() {
        let s = sym::string::<4>();
        let mut x = OwnedBuf::new();
        x.extend_from_slice(&[1]);
        let r = x.store_unsized(s.get());
        x.store(&7u32);
        match x.load(r) {
            Ok(v) => same!(v.as_bytes(), s.get().as_bytes()),
            Err(..) => panic!("a stored value cannot be loaded"),
        }
        same!(r.len(), s.get().len());
    }
    fn h_z04_history() {
        match sym::pick(2) {
            0 => owned_history::<Native, u32>(0),
            _ => owned_history::<Big, u16>(20),
        }
    }
    fn h_z04_history_slice() {
        let mut mem = Bytes([0; 64]);
        unsafe {
            // Memory of which nothing is known.
            core::ptr::copy_nonoverlapping(core::mem::MaybeUninit::<Bytes>::uninit().as_ptr(), &mut mem, 1);
        }
        let mut b = SliceMut::new(&mut mem.0).with_byte_order::<Little>().with_size::<u8>();
        history(&mut b, |b, d| b.extend_from_slice(d), |b, k| match k {
            0 => b.reserve(5),
            1 => b.request_align::<u32>(),
            2 => { b.next_offset::<u32>(); }
            _ => {}
        });
    }
    /// A buffer that is used again.
    fn h_z04_cleared() {
        let mut b = OwnedBuf::new();
        b.store(&sym::u64());
        b.clear();
        same!(b.is_empty(), true);
        let w = put(&mut b);
        let v = put(&mut b);
        sym::check_init(&b[..]);
        b.align_in_place();
        w.check(&b);
        v.check(&b);
    }
}
