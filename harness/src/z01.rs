//! Z01: what is loaded from any bytes lies in the buffer, is aligned, and is
//! valid for its type.
use crate::{same, sym, tier};
use crate::zc::*;
use core::mem::{align_of, size_of, size_of_val};
use core::num::*;
use musli_zerocopy::endian::{Big, ByteOrder, Endian, Little};
use musli_zerocopy::pointer::Size;
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{Buf, OwnedBuf, Ref, ZeroCopy};


/// Something was loaded from `buf`: it lies at `off`, and is valid.
#[inline(never)]
fn check<T: Valid>(all: &[u8], off: usize, p: *const T, n: usize) {
    let base = all.as_ptr() as usize;
    let size = n * size_of::<T>();
    if p as usize != base + off || off + size > all.len() {
        panic!("not in the buffer");
    }
    same!(p as usize % align_of::<T>(), 0);
    if size_of::<T>() > 0 {
        for i in 0..n {
            if !T::valid(&all[off + i * size_of::<T>()..][..size_of::<T>()]) {
                panic!("not a value of its type");
            }
        }
    }
    sym::cover(1);
}
fn bytes_of<T>(v: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts(v as *const T as *const u8, size_of_val(v)) }
}
/// No part of a load that fails may matter: it must not be at fault either.
fn must<T: Valid>(all: &[u8], off: usize, aligned: bool) {
    let base = all.as_ptr() as usize;
    let room = off.checked_add(size_of::<T>()).map_or(false, |e| e <= all.len());
    if room && (!aligned || (base + off) % align_of::<T>() == 0) && T::valid(&all[off..off + size_of::<T>()]) {
        panic!("a value cannot be loaded");
    }
}

#[inline(never)]
fn loads<T: Valid + Copy>() {
    let mut mem = Bytes([0; 64]);
    // Buffers that are not aligned themselves, that are too small, and that
    // have some room.
    let size = size_of::<T>();
    let (skip, len) = match sym::pick(5) {
        0 => (0, size.saturating_sub(1)),
        1 => (0, size + 1),
        2 => (1, size + tier(1, align_of::<T>() + 1)),
        3 => (2, size + tier(2, align_of::<T>())),
        _ => (0, size + align_of::<T>() + tier(0, 6)),
    };
    let all = &mut mem.0[skip..skip + len];
    sym::fill(all);
    let copy: &[u8] = unsafe { core::slice::from_raw_parts(all.as_ptr(), all.len()) };
    let off = sym::usize();
    if off <= len {
        sym::concrete(off);
    }
    match sym::pick(5) {
        0 => match Buf::new(all).load_at::<T>(off) {
            Ok(v) => check(copy, off, v, 1),
            Err(..) => must::<T>(copy, off, true),
        },
        1 => match Buf::new_mut(all).load_at_mut::<T>(off) {
            Ok(v) => check(copy, off, v, 1),
            Err(..) => must::<T>(copy, off, true),
        },
        2 => match Buf::new(all).load(Ref::<T, Big, u64>::new(off)) {
            Ok(v) => check(copy, off, v, 1),
            Err(..) => must::<T>(copy, off, true),
        },
        3 => match Buf::new_mut(all).load_mut(Ref::<T, Little, usize>::new(off)) {
            Ok(v) => check(copy, off, v, 1),
            Err(..) => must::<T>(copy, off, true),
        },
        _ => match Buf::new(all).load_at_unaligned::<T>(off) {
            Ok(v) => {
                // Every byte of it that is not padding; validity is all there
                // is to it.
                let b = bytes_of(&v);
                same!(b.len(), size_of::<T>());
                if off.checked_add(size_of::<T>()).map_or(true, |e| e > len) {
                    panic!("not in the buffer");
                }
                if !T::valid(&copy[off..][..size_of::<T>()]) {
                    panic!("not a value of its type");
                }
                sym::cover(2);
            }
            Err(..) => must::<T>(copy, off, false),
        },
    }
}

#[inline(never)]
fn slices<T: Valid + Copy>() {
    let mut mem = Bytes([0; 64]);
    let skip = sym::pick(2);
    let len = size_of::<T>() * tier(2, 3) + align_of::<T>() + tier(0, 2);
    let all = &mut mem.0[skip..skip + len];
    sym::fill(all);
    let copy: &[u8] = unsafe { core::slice::from_raw_parts(all.as_ptr(), len) };
    let (off, n) = (sym::usize(), sym::usize());
    if off <= len {
        sym::concrete(off);
        if n <= len {
            sym::concrete(n);
        }
    }
    let done = |r: Result<*const [T], musli_zerocopy::Error>| match r {
        Ok(p) => {
            let p: &[T] = unsafe { &*p };
            same!(p.len(), n);
            if size_of::<T>() != 0 {
                check(copy, off, p.as_ptr(), n);
            }
        }
        Err(..) => {
            let at = copy.as_ptr() as usize;
            let end = n.checked_mul(size_of::<T>()).and_then(|s| s.checked_add(off));
            if end.map_or(false, |e| e <= len) && (at + off) % align_of::<T>() == 0 {
                if (0..n).all(|i| T::valid(&copy[off + i * size_of::<T>()..][..size_of::<T>()])) {
                    panic!("a value cannot be loaded");
                }
            }
        }
    };
    match sym::pick(3) {
        0 => done(Buf::new(all).load(Ref::<[T], Big, usize>::with_metadata(off, n)).map(|v| v as *const [T])),
        1 => done(Buf::new_mut(all).load_mut(Ref::<[T], Little, u64>::with_metadata(off, n)).map(|v| v as *const [T])),
        _ => done(Buf::new(all).load(Packed::<[T], u64, u64, Big>::from_raw_parts(off, n)).map(|v| v as *const [T])),
    }
}

/// References that are read from the buffer themselves.
#[inline(never)]
fn chained<E: ByteOrder, O: Size>() {
    let mut mem = Bytes([0; 64]);
    let n = size_of::<O>() * 2 + tier(2, 4);
    sym::fill(&mut mem.0[..n]);
    let all = &mem.0[..n];
    let buf = Buf::new(all);
    let Ok(r) = buf.load_at::<Ref<[Tag], E, O>>(0) else { panic!("cannot be loaded") };
    if r.offset() <= n {
        sym::concrete(r.offset());
    }
    if r.offset() <= n && r.len() <= n {
        sym::concrete(r.len());
    }
    match buf.load(*r) {
        Ok(v) => check(all, r.offset(), v.as_ptr(), v.len()),
        Err(..) => sym::cover(3),
    }
    for (i, e) in r.iter().take(2).enumerate() {
        match buf.load(e) {
            Ok(v) => check(all, r.offset() + i, v, 1),
            Err(..) => sym::cover(4),
        }
    }
}

crate::harnesses! {
    fn h_z01_scalars() {
        match sym::pick(7) {
            0 => loads::<u8>(), 1 => loads::<u16>(), 2 => loads::<u32>(), 3 => loads::<i64>(),
            4 => loads::<f32>(), 5 => loads::<[u16; 2]>(), _ => loads::<()>(),
        }
    }
    fn h_z01_bool() { loads::<bool>() }
    fn h_z01_char() { loads::<char>() }
    fn h_z01_nonzero() {
        match sym::pick(6) {
            0 => loads::<NonZeroU8>(), 1 => loads::<NonZeroI16>(), 2 => loads::<NonZeroU32>(),
            3 => loads::<NonZeroU64>(), 4 => loads::<Wrapping<NonZeroU16>>(), _ => loads::<Option<NonZeroU8>>(),
        }
    }
    fn h_z01_wrapped() {
        match sym::pick(4) {
            0 => loads::<Wrapping<u32>>(), 1 => loads::<Endian<u32, Big>>(), 2 => loads::<Clear>(),
            _ => loads::<Ref<[bool], Big, u16>>(),
        }
    }
    fn h_z01_arrays() { match sym::pick(2) { 0 => loads::<[bool; 3]>(), _ => loads::<[char; 2]>() } }
    fn h_z01_padded() { loads::<Padded>() }
    fn h_z01_nested() { loads::<Nested>() }
    fn h_z01_packed() { match sym::pick(2) { 0 => loads::<Tight>(), _ => loads::<Tight2>() } }
    fn h_z01_aligned() { loads::<Over>() }
    fn h_z01_enums() { match sym::pick(2) { 0 => loads::<Tag>(), _ => loads::<Wide>() } }
    fn h_z01_data() { loads::<Data>() }
    fn h_z01_data16() { loads::<Data16>() }
    fn h_z01_generic() { match sym::pick(2) { 0 => loads::<Generic<bool, 2>>(), _ => loads::<Generic<Wide, 1>>() } }
    fn h_z01_slices() {
        match sym::pick(4) {
            0 => slices::<u8>(), 1 => slices::<u32>(), 2 => slices::<[u16; 2]>(), _ => slices::<()>(),
        }
    }
    fn h_z01_slices_valid() { match sym::pick(3) { 0 => slices::<bool>(), 1 => slices::<NonZeroU32>(), _ => slices::<Tag>() } }
    fn h_z01_slices_structs() { match sym::pick(2) { 0 => slices::<Data>(), _ => slices::<Padded>() } }
    fn h_z01_str() {
        let mut mem = Bytes([0; 64]);
        let n = tier(6, 9);
        sym::fill(&mut mem.0[..n]);
        let copy = Bytes(mem.0);
        let (off, len) = (sym::usize(), sym::usize());
        if off <= n {
            sym::concrete(off);
            if len <= n {
                sym::concrete(len);
            }
        }
        let done = |r: Result<&str, musli_zerocopy::Error>| {
            let want = off.checked_add(len).and_then(|e| copy.0[..n].get(off..e));
            match (r, want) {
                (Ok(s), Some(w)) => {
                    same!(s.as_bytes(), w);
                    same!(core::str::from_utf8(w).is_ok(), true);
                    sym::cover(1);
                }
                (Err(..), Some(w)) => same!(core::str::from_utf8(w).is_ok(), false),
                (Ok(..), None) => panic!("not in the buffer"),
                (Err(..), None) => sym::cover(2),
            }
        };
        match sym::pick(2) {
            0 => done(Buf::new(&mem.0[..n]).load(Ref::<str, Big, usize>::with_metadata(off, len))),
            _ => done(Buf::new_mut(&mut mem.0[..n]).load_mut(Ref::<str, Little, u64>::with_metadata(off, len)).map(|s| &*s)),
        }
    }
    fn h_z01_chained() {
        match sym::pick(4) {
            0 => chained::<Big, u8>(), 1 => chained::<Little, u16>(), 2 => chained::<Big, u32>(), _ => chained::<Little, usize>(),
        }
    }
    /// Swapping two values.
    fn h_z01_swap() {
        let mut mem = Bytes([0; 64]);
        sym::fill(&mut mem.0[..10]);
        let old: [u8; 10] = core::array::from_fn(|i| mem.0[i]);
        let (a, b) = (sym::usize(), sym::usize());
        if a <= 10 { sym::concrete(a); }
        if b <= 10 { sym::concrete(b); }
        let r = Buf::new_mut(&mut mem.0[..10]).swap(Ref::<u32, Big, usize>::new(a), Ref::<u32, Big, usize>::new(b));
        let ok = a <= 6 && b <= 6;
        if a == b {
            same!(mem.0[..10], old[..]);
            return;
        }
        same!(r.is_ok(), ok);
        if !ok {
            same!(mem.0[..10], old[..]);
            return;
        }
        // Where they overlap, the one that is written last.
        let mut want = old;
        for i in 0..4 { want[a + i] = old[b + i]; }
        for i in 0..4 { want[b + i] = old[a + i]; }
        same!(mem.0[..10], want[..]);
        same!(mem.0[10..], [0u8; 54][..]);
    }
    /// Bytes of an owned buffer, of any type.
    fn h_z01_owned() {
        let mut buf = OwnedBuf::new();
        let n = sym::concrete(sym::below(9) as usize);
        let b: [u8; 8] = sym::bytes();
        buf.extend_from_slice(&b[..n]);
        let off = sym::usize();
        if off <= n { sym::concrete(off); }
        let all: &[u8] = unsafe { core::slice::from_raw_parts(buf.as_slice().as_ptr(), n) };
        match buf.load_at::<NonZeroU32>(off) {
            Ok(v) => check(all, off, v, 1),
            Err(..) => sym::cover(3),
        }
        let p = musli_zerocopy::slice::Packed::<[bool], u8, u8>::from_raw_parts(1, 3);
        match buf.load(p) {
            Ok(v) => check(all, 1, v.as_ptr(), v.len()),
            Err(..) => sym::cover(4),
        }
    }
}
