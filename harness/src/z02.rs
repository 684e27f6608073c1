//! Z02: references and slices denote the elements that the same operation on
//! the slice they refer to would.
use crate::{same, sym};
use core::mem::size_of;
use musli_zerocopy::buf::{Load, StoreBuf};
use musli_zerocopy::endian::{Big, ByteOrder, Little, Native};
use musli_zerocopy::mem::MaybeUninit;
use musli_zerocopy::pointer::{CoerceSlice, Pointee, Ref, Size};
use musli_zerocopy::slice::{Packed, Slice};
use musli_zerocopy::{OwnedBuf, ZeroCopy};

/// A number that `O` can hold.
fn fit<O: Size>() -> usize {
    let n = sym::usize();
    sym::assume(O::try_from_usize(n).is_some());
    n
}
fn at<T, E: ByteOrder, O: Size>(r: Ref<T, E, O>) -> usize
where
    T: ZeroCopy,
{
    r.offset()
}
/// Where element `i` of a slice at `off` is.
fn elem<T>(off: usize, i: usize) -> Option<usize> {
    i.checked_mul(size_of::<T>())?.checked_add(off)
}
fn order<E: ByteOrder, O: Size>(bytes: &[u8], n: usize, big: bool) {
    let k = size_of::<O>();
    let le = n.to_le_bytes();
    for i in 0..k {
        if bytes[i] != le[if big { k - 1 - i } else { i }] {
            panic!("not stored in byte order");
        }
    }
}
fn raw<T>(v: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts(v as *const T as *const u8, size_of::<T>()) }
}

#[inline(never)]
fn slices<T: ZeroCopy, E: ByteOrder, O: Size>(big: bool) {
    let (off, len) = (fit::<O>(), fit::<O>());
    let r = Ref::<[T], E, O>::with_metadata(off, len);
    match sym::pick(7) {
        0 => {
            same!((r.offset(), r.len(), r.is_empty()), (off, len, (len == 0)));
            order::<E, O>(raw(&r), off, big);
            order::<E, O>(&raw(&r)[size_of::<O>()..], len, big);
            let (b, l, n) = (r.to_be(), r.to_le(), r.to_ne());
            same!((b.offset(), b.len()), (off, len));
            same!((l.offset(), l.len()), (off, len));
            same!((n.offset(), n.len()), (off, len));
            same!((b.to_endian::<E>().offset(), b.to_endian::<E>().len()), (off, len));
            order::<Big, O>(raw(&b), off, true);
            order::<Little, O>(&raw(&l)[size_of::<O>()..], len, false);
            let s = r.swap_bytes::<Big>();
            same!((s.offset(), s.len()), (off, len));
        }
        1 => {
            let i = sym::usize();
            match r.get(i) {
                Some(e) => {
                    sym::cover(1);
                    if i >= len {
                        panic!("an element beyond the end");
                    }
                    same!(Some(at(e)), elem::<T>(off, i));
                }
                None => {
                    sym::cover(2);
                    if i < len && elem::<T>(off, i).and_then(O::try_from_usize).is_some() {
                        panic!("an element is missing");
                    }
                }
            }
        }
        2 => {
            let i = sym::usize();
            let Some(e) = elem::<T>(off, i) else { return };
            sym::assume(O::try_from_usize(e).is_some());
            same!(at(r.get_unchecked(i)), e);
        }
        3 => {
            let i = sym::usize();
            sym::assume(i <= len);
            let Some(e) = elem::<T>(off, i) else { return };
            sym::assume(O::try_from_usize(e).is_some());
            let (a, b) = r.split_at(i);
            same!((a.offset(), a.len()), (off, i));
            same!((b.offset(), b.len()), (e, len - i));
        }
        4 => {
            let n = sym::below(4) as usize;
            let r = Ref::<[T], E, O>::with_metadata(off, n);
            let mut it = r.iter();
            let (mut f, mut b) = (0, n);
            // The elements that have an address.
            let fits = |i| elem::<T>(off, i).and_then(O::try_from_usize).is_some();
            sym::assume(n == 0 || fits(n - 1));
            for _ in 0..n + 1 {
                let (e, i) = match sym::pick(2) {
                    0 => (it.next(), f),
                    _ => (it.next_back(), b.wrapping_sub(1)),
                };
                if f == b {
                    same!(e.is_none(), true);
                    sym::cover(3);
                    return;
                }
                let Some(e) = e else { panic!("an element is missing") };
                same!(Some(at(e)), elem::<T>(off, i));
                if i == f {
                    f += 1
                } else {
                    b -= 1
                }
            }
        }
        5 => {
            // References that no program made: iteration ends.
            let mut it = r.iter();
            for i in 0..3 {
                match it.next() {
                    Some(e) => {
                        if i >= len {
                            panic!("an element beyond the end");
                        }
                        same!(Some(at(e)), elem::<T>(off, i));
                    }
                    None => {
                        if i < len && elem::<T>(off, i).and_then(O::try_from_usize).is_some() {
                            panic!("an element is missing");
                        }
                        return;
                    }
                }
            }
            let _ = it.next_back();
        }
        _ => {
            let (off, len) = (sym::usize(), sym::usize());
            let fits = O::try_from_usize(off).is_some() && O::try_from_usize(len).is_some();
            match Ref::<[T], E, O>::try_with_metadata(off, len) {
                Ok(r) => {
                    same!((r.offset(), r.len()), (off, len));
                    if !fits {
                        panic!("what cannot be held was accepted");
                    }
                }
                Err(..) => same!(fits, false),
            }
        }
    }
}

#[inline(never)]
fn sized<T: ZeroCopy, E: ByteOrder, O: Size>(big: bool) {
    let off = fit::<O>();
    let r = Ref::<T, E, O>::new(off);
    same!(r.offset(), off);
    order::<E, O>(raw(&r), off, big);
    same!((r.to_be().offset(), r.to_le().offset(), r.to_ne().offset()), (off, off, off));
    order::<Big, O>(raw(&r.to_be()), off, true);
    let a = Ref::<[T; 3], E, O>::new(off);
    if O::try_from_usize(3).is_some() {
        let s = a.array_into_slice();
        same!((s.offset(), s.len()), (off, 3));
    }
    let s = Ref::<str, E, O>::with_metadata(off, 5);
    same!((s.offset(), s.len(), s.is_empty()), (off, 5, false));
    let u = Ref::<MaybeUninit<T>, E, O>::new(off).assume_init();
    same!(u.offset(), off);
    same!(Ref::<T, E, O>::zero().offset(), 0);
    let w = sym::usize();
    match Ref::<T, E, O>::try_with_metadata(w, ()) {
        Ok(r) => same!(r.offset(), w),
        Err(..) => same!(O::try_from_usize(w).is_none(), true),
    }
}

/// A reference that is stored where it is read from as any bytes.
#[inline(never)]
fn loaded<E: ByteOrder, O: Size>(big: bool) {
    let (off, len) = (fit::<O>(), fit::<O>());
    let mut buf = OwnedBuf::new();
    buf.extend_from_slice(&[1]);
    let at = buf.store(&Ref::<[u16], E, O>::with_metadata(off, len));
    let Ok(r) = buf.load(at) else { panic!("cannot be loaded") };
    same!((r.offset(), r.len()), (off, len));
    let b = &buf[at.offset()..];
    order::<E, O>(b, off, big);
    order::<E, O>(&b[size_of::<O>()..], len, big);
}

/// The five widths in both orders.
macro_rules! widths {
    ($f:ident $(, $t:ty)*) => {
        match sym::pick(10) {
            0 => $f::<$($t,)* Big, u8>(true),
            1 => $f::<$($t,)* Big, u16>(true),
            2 => $f::<$($t,)* Big, u32>(true),
            3 => $f::<$($t,)* Big, u64>(true),
            4 => $f::<$($t,)* Big, usize>(true),
            5 => $f::<$($t,)* Little, u8>(false),
            6 => $f::<$($t,)* Little, u16>(false),
            7 => $f::<$($t,)* Little, u32>(false),
            8 => $f::<$($t,)* Little, u64>(false),
            _ => $f::<$($t,)* Little, usize>(false),
        }
    };
}

/// Coercing a slice of `T` to one of `U`, `k` of which make up a `T`.
#[inline(never)]
fn coerce<T, U, E: ByteOrder, O: Size>(k: usize)
where
    T: ZeroCopy,
    U: ZeroCopy,
    [T]: CoerceSlice<[U]>,
{
    let (off, len) = (fit::<O>(), fit::<O>());
    let r = Ref::<[T], E, O>::with_metadata(off, len);
    let n = len.checked_mul(k).filter(|n| O::try_from_usize(*n).is_some());
    same!(size_of::<T>(), size_of::<U>() * k);
    match r.try_coerce::<[U]>() {
        Some(c) => same!((c.offset(), Some(c.len())), (off, n)),
        None => same!(n, None),
    }
    if let Some(n) = n {
        let c = r.coerce::<[U]>();
        same!((c.offset(), c.len()), (off, n));
    }
    // One element, which is a slice of `k`.
    let r = Ref::<T, E, O>::new(off);
    let c = r.coerce::<[U]>();
    same!((c.offset(), c.len()), (off, k));
    match r.try_coerce::<[U]>() {
        Some(c) => same!((c.offset(), c.len()), (off, k)),
        None => panic!("cannot be coerced"),
    }
    // An array.
    let c = Ref::<[T; 3], E, O>::new(off);
    let _ = c;
}
fn arrays<E: ByteOrder, O: Size>(_: bool) {
    let off = fit::<O>();
    let c = Ref::<[u32; 3], E, O>::new(off).coerce::<[u32]>();
    same!((c.offset(), c.len()), (off, 3));
    let c = Ref::<[u32; 3], E, O>::new(off).coerce::<[u8]>();
    same!((c.offset(), c.len()), (off, 12));
    match Ref::<[u64; 2], E, O>::new(off).try_coerce::<[u16]>() {
        Some(c) => same!((c.offset(), c.len()), (off, 8)),
        None => panic!("cannot be coerced"),
    }
    // 33 times 8 is more than a byte can hold.
    match Ref::<[u64; 33], E, O>::new(off).try_coerce::<[u8]>() {
        Some(c) => same!((c.offset(), c.len()), (off, 264)),
        None => same!(O::try_from_usize(264).is_none(), true),
    }
    let len = fit::<O>();
    let c = Ref::<str, E, O>::with_metadata(off, len).coerce::<[u8]>();
    same!((c.offset(), c.len()), (off, len));
    let c = c.coerce::<str>();
    same!((c.offset(), c.len()), (off, len));
    same!(Ref::<u32, E, O>::new(off).coerce::<[u16; 2]>().offset(), off);
    same!(Ref::<core::num::NonZeroU32, E, O>::new(off).coerce::<u32>().offset(), off);
    let c = Ref::<[u16; 2], E, O>::new(off).coerce::<[i8]>();
    same!((c.offset(), c.len()), (off, 4));
}
fn coercions<E: ByteOrder, O: Size>(_: bool) {
    match sym::pick(9) {
        0 => coerce::<u32, i32, E, O>(1),
        1 => coerce::<u16, u8, E, O>(2),
        2 => coerce::<i64, [u16; 2], E, O>(2),
        3 => coerce::<u32, i8, E, O>(4),
        4 => coerce::<u64, i16, E, O>(4),
        5 => coerce::<u64, u8, E, O>(8),
        6 => coerce::<u128, i16, E, O>(8),
        7 => coerce::<u128, u8, E, O>(16),
        _ => coerce::<u32, [u8; 4], E, O>(1),
    }
}

/// What is common to both kinds of slices; `o` and `l` tell what they hold.
#[inline(never)]
fn kind<T: ZeroCopy, S: Slice<Item = T>>(o: fn(usize) -> bool, l: fn(usize) -> bool, item: fn(S::ItemRef) -> usize, wide: bool) {
    let (off, len) = (sym::usize(), sym::usize());
    let fits = o(off) && l(len);
    match sym::pick(5) {
        0 => {
            match S::try_with_metadata(off, len) {
                Ok(s) => {
                    same!((s.offset(), s.len(), s.is_empty()), (off, len, (len == 0)));
                    same!(fits, true);
                }
                Err(..) => same!(fits, false),
            }
            let r = Ref::<[T], Big, u64>::with_metadata(off, len);
            match S::try_from_ref(r) {
                Ok(s) => same!((s.offset(), s.len(), fits), (off, len, true)),
                Err(..) => same!(fits, false),
            }
        }
        1 => {
            sym::assume(fits);
            let s = S::with_metadata(off, len);
            same!((s.offset(), s.len()), (off, len));
            let s = S::from_ref(Ref::<[T], Little, usize>::with_metadata(off, len));
            same!((s.offset(), s.len()), (off, len));
        }
        2 => {
            sym::assume(fits);
            let s = S::with_metadata(off, len);
            let i = sym::usize();
            let e = elem::<T>(off, i).filter(|e| wide || o(*e));
            match s.get(i) {
                Some(r) => {
                    same!((i < len), true);
                    same!(Some(item(r)), e);
                }
                None => same!((i < len && e.is_some()), false),
            }
        }
        3 => {
            sym::assume(fits);
            let s = S::with_metadata(off, len);
            let i = sym::usize();
            let Some(e) = elem::<T>(off, i).filter(|e| wide || o(*e)) else { return };
            same!(item(s.get_unchecked(i)), e);
        }
        _ => {
            sym::assume(fits);
            let s = S::with_metadata(off, len);
            let i = sym::usize();
            sym::assume(i <= len);
            let Some(e) = elem::<T>(off, i).filter(|e| o(*e)) else { return };
            let (a, b) = s.split_at(i);
            same!((a.offset(), a.len()), (off, i));
            same!((b.offset(), b.len()), (e, len - i));
        }
    }
}
fn holds<O: Size>(n: usize) -> bool {
    O::try_from_usize(n).is_some()
}
fn kinds<E: ByteOrder, O: Size>(_: bool) {
    match sym::pick(7) {
        0 => kind::<u16, Ref<[u16], E, O>>(holds::<O>, holds::<O>, at, false),
        1 => kind::<u16, Packed<[u16], O, u8, E>>(holds::<O>, holds::<u8>, at, true),
        2 => kind::<u16, Packed<[u16], u16, O, E>>(holds::<u16>, holds::<O>, at, true),
        3 => kind::<[u16; 3], Packed<[[u16; 3]], O, u16, E>>(holds::<O>, holds::<u16>, at, true),
        4 => kind::<[u16; 3], Ref<[[u16; 3]], E, O>>(holds::<O>, holds::<O>, at, false),
        5 => kind::<[u64; 2], Packed<[[u64; 2]], u32, O, E>>(holds::<u32>, holds::<O>, at, true),
        _ => {
            let (off, len) = (fit::<O>(), fit::<u16>());
            let p = Packed::<[u16], O, u16, E>::from_raw_parts(off, len);
            let q = Packed::<[u16], O, u16, E>::from_ref(Ref::<[u16], Big, u64>::with_metadata(off, len));
            same!((p.offset(), p.len(), q.offset(), q.len()), (off, len, off, len));
            same!(raw(&p).len(), size_of::<O>() + 2);
        }
    }
}

/// Elements of a stored slice are the elements of the slice.
#[inline(never)]
fn contents<E: ByteOrder, O: Size>(_: bool) {
    let a: [u16; 3] = [sym::u16(), sym::u16(), sym::u16()];
    let n = sym::concrete(sym::below(4) as usize);
    let mut buf = OwnedBuf::new();
    buf.extend_from_slice(&[1]);
    let at = buf.store_slice(&a[..n]);
    let r = Ref::<[u16], E, O>::with_metadata(at.offset(), at.len());
    let p = Packed::<[u16], O, O, E>::from_ref(at);
    fn loads<T: ?Sized + PartialEq>(buf: &OwnedBuf, r: impl Load<Target = T>, v: &T) {
        match buf.load(r) {
            Ok(x) => {
                if x != v {
                    panic!("other elements")
                }
            }
            Err(..) => panic!("cannot be loaded"),
        }
    }
    match sym::pick(4) {
        0 => {
            loads(&buf, r, &a[..n]);
            loads(&buf, p, &a[..n]);
        }
        1 => {
            let i = sym::concrete(sym::below(4) as usize);
            match (r.get(i), p.get(i), a[..n].get(i)) {
                (Some(r), Some(p), Some(v)) => {
                    loads(&buf, r, v);
                    loads(&buf, p, v);
                }
                (None, None, None) => {}
                _ => panic!("other elements"),
            }
        }
        2 => {
            let i = sym::concrete(sym::below(4) as usize);
            sym::assume(i <= n);
            let (x, y) = r.split_at(i);
            loads(&buf, x, &a[..i]);
            loads(&buf, y, &a[i..n]);
            let (x, y) = p.split_at(i);
            loads(&buf, x, &a[..i]);
            loads(&buf, y, &a[i..n]);
        }
        _ => {
            let mut k = 0;
            for e in r.iter() {
                loads(&buf, e, &a[k]);
                k += 1;
            }
            same!(k, n);
            let c = r.coerce::<[u8]>();
            match buf.load(c) {
                Ok(b) => {
                    same!(b.len(), n * 2);
                    for i in 0..n {
                        same!([b[i * 2], b[i * 2 + 1]], a[i].to_ne_bytes());
                    }
                }
                Err(..) => panic!("cannot be loaded"),
            }
        }
    }
}

crate::harnesses! {
    fn h_z02_slice_u8() { widths!(slices, u8) }
    fn h_z02_slice_u32() { widths!(slices, u32) }
    fn h_z02_slice_u16x3() { widths!(slices, [u16; 3]) }
    fn h_z02_slice_unit() { widths!(slices, ()) }
    fn h_z02_sized() { match sym::pick(3) {
        0 => widths!(sized, u8),
        1 => widths!(sized, u64),
        _ => widths!(sized, [u16; 3]),
    } }
    fn h_z02_stored() { widths!(loaded) }
    fn h_z02_coerce() { widths!(coercions) }
    fn h_z02_coerce_arrays() { widths!(arrays) }
    fn h_z02_slice_kinds() { widths!(kinds) }
    fn h_z02_contents() { widths!(contents) }
}
#[allow(dead_code)]
fn unused(_: Native, _: &dyn Fn(&dyn core::any::Any)) where str: Pointee, OwnedBuf: StoreBuf {}
