//! Z09: binary search over zero-copy slices.
use crate::{same, sym, tier};
use core::cmp::Ordering;
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::slice::{binary_search, binary_search_by, BinarySearch, Packed, Slice};
use musli_zerocopy::{Error, OwnedBuf, Ref, ZeroCopy};

/// Longest slice.
const N: usize = tier(7, 13);

/// Where `x` is, or would be, in a slice in which `less` elements are less and
/// `equal` ones are equal.
fn check(r: Result<BinarySearch, Error>, less: usize, equal: usize) {
    match r {
        Ok(BinarySearch::Found(i)) => {
            sym::cover(1);
            if i < less || i >= less + equal {
                panic!("found where it is not");
            }
        }
        Ok(BinarySearch::Missing(i)) => {
            sym::cover(2);
            same!((i, equal), (less, 0));
        }
        Err(..) => panic!("search failed"),
    }
}

/// A sorted slice of symbolic length.
fn sorted<T: sym::Sym + Ord + Copy>() -> ([T; N], usize) {
    let mut a = [sym::any::<T>(); N];
    let n = sym::concrete(sym::below(N as u8 + 1) as usize);
    for i in 1..n {
        a[i] = sym::any();
        sym::assume(a[i - 1] <= a[i]);
    }
    (a, n)
}

fn counts<T: Ord>(a: &[T], x: &T) -> (usize, usize) {
    let (mut less, mut equal) = (0, 0);
    for e in a {
        less += (e < x) as usize;
        equal += (e == x) as usize;
    }
    (less, equal)
}

#[inline(never)]
fn numbers<T: ZeroCopy + sym::Sym + Ord + Copy>() {
    let (a, n) = sorted::<T>();
    let x = sym::any::<T>();
    let mut buf = OwnedBuf::new();
    buf.extend_from_slice(&[1]);
    let s = buf.store_slice(&a[..n]);
    let (less, equal) = counts(&a[..n], &x);
    match sym::pick(3) {
        0 => check(binary_search(&buf, s, &&x), less, equal),
        1 => {
            let at = buf.store(&x);
            let s = Ref::<[T], Big, u64>::with_metadata(s.offset(), s.len());
            check(binary_search(&buf, s, &at), less, equal);
        }
        _ => {
            let s = Packed::<[T], u16, u8, Little>::from_ref(s);
            check(binary_search_by(&buf, s, |v| Ok(v.cmp(&x))), less, equal);
        }
    }
}

/// Any slice of any buffer: an error, or an index that is not out of range.
#[inline(never)]
fn untrusted<S: Slice<Item = u16>>() {
    let mut buf = OwnedBuf::with_capacity(16);
    for _ in 0..4 {
        buf.store(&sym::u16());
    }
    let (off, len) = (sym::usize(), sym::usize());
    let Ok(s) = S::try_with_metadata(off, len) else { return };
    let x = sym::u16();
    let mut steps = 0;
    let r = binary_search_by(&buf, s, |v| {
        steps += 1;
        Ok(v.cmp(&x))
    });
    match r {
        Ok(BinarySearch::Found(i)) => same!((i < len), true),
        Ok(BinarySearch::Missing(i)) => same!((i <= len), true),
        Err(..) => sym::cover(5),
    }
    same!((steps <= 64), true);
}

crate::harnesses! {
    fn h_z09_u8() { numbers::<u8>() }
    fn h_z09_u16() { numbers::<u16>() }
    fn h_z09_i64() { numbers::<i64>() }
    /// The other way around, by a part of the element.
    fn h_z09_by() {
        let mut a = [[0u8; 2]; 5];
        let n = sym::concrete(sym::below(6) as usize);
        for i in 0..n {
            a[i] = sym::bytes();
            sym::assume(i == 0 || a[i - 1][1] >= a[i][1]);
        }
        let x = sym::u8();
        let mut buf = OwnedBuf::new();
        let s = buf.store_slice(&a[..n]);
        let (mut before, mut equal) = (0, 0);
        for e in &a[..n] {
            before += (e[1] > x) as usize;
            equal += (e[1] == x) as usize;
        }
        check(binary_search_by(&buf, s, |v| Ok(x.cmp(&v[1]))), before, equal);
    }
    /// References to strings, as in a trie.
    fn h_z09_strings() {
        let mut buf = OwnedBuf::new();
        let n = sym::concrete(sym::below(4) as usize);
        let mut text = [sym::string::<2>(), sym::string::<2>(), sym::string::<2>()];
        let mut refs = [Ref::<str>::with_metadata(0u32, 0); 3];
        for i in 0..n {
            sym::assume(i == 0 || text[i - 1].get() <= text[i].get());
            refs[i] = buf.store_unsized(text[i].get());
        }
        let x = sym::string::<2>();
        let s = buf.store_slice(&refs[..n]);
        let (mut less, mut equal) = (0, 0);
        for e in &mut text[..n] {
            less += (e.get() < x.get()) as usize;
            equal += (e.get() == x.get()) as usize;
        }
        check(binary_search_by(&buf, s, |v| Ok(buf.load(*v)?.cmp(x.get()))), less, equal);
    }
    /// An error of the comparison ends the search.
    fn h_z09_errors() {
        let (a, n) = sorted::<u8>();
        let x = sym::u8();
        let bad = sym::below(4);
        let mut buf = OwnedBuf::new();
        let s = buf.store_slice(&a[..n]);
        let mut calls = 0u8;
        let r = binary_search_by(&buf, s, |v| {
            calls += 1;
            if calls > bad {
                same!(calls, bad + 1);
                // Any error will do.
                buf.load(Ref::<u8>::new(0xffffu32))?;
            }
            Ok(v.cmp(&x))
        });
        if calls > bad {
            same!(r.is_err(), true);
            sym::cover(3);
        } else {
            let (less, equal) = counts(&a[..n], &x);
            check(r, less, equal);
        }
    }
    /// A slice that is not sorted: any index, within bounds.
    fn h_z09_unsorted() {
        let n = sym::concrete(sym::below(N as u8 + 1) as usize);
        let mut buf = OwnedBuf::new();
        let a: [u8; N] = sym::bytes();
        let s = buf.store_slice(&a[..n]);
        let r = binary_search_by(&buf, s, |_| Ok(match sym::pick(3) {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }));
        match r {
            Ok(BinarySearch::Found(i)) => same!((i < n), true),
            Ok(BinarySearch::Missing(i)) => same!((i <= n), true),
            Err(..) => panic!("search failed"),
        }
    }
    fn h_z09_untrusted() {
        match sym::pick(4) {
            0 => untrusted::<Ref<[u16], Native, u32>>(),
            1 => untrusted::<Ref<[u16], Big, u8>>(),
            2 => untrusted::<Ref<[u16], Little, usize>>(),
            _ => untrusted::<Packed<[u16], u64, u64, Big>>(),
        }
    }
}
