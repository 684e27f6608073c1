//! M08: untrusted binary input. Every byte string either decodes into a
//! permitted value or is an error; the executor reports panics, out-of-bounds
//! accesses, invalid `bool`/`char`/enum values, use of uninitialised memory,
//! failed allocations and paths that do not end.
use crate::cx::*;
use crate::fmts::*;
use crate::model::*;
use crate::sym;
use crate::tier;
use core::num::*;
use core::ops::*;
use musli::alloc::System;
use musli::reader::{Reader, SliceReader};
use musli::value::Value;
use musli::{Decode, Decoder};
use std::borrow::Cow;
use std::collections::*;
use std::ffi::{CStr, CString, OsString};
use std::net::*;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

type B_ = musli::mode::Binary;

/// Untrusted input: `r` is any byte, `w` and `d` a tag of the wire and the
/// descriptive format without inline data, `s` that of a descriptive sequence or map, `V` any number of nine or more bytes in
/// the continuation encoding, `v` such a
/// number whose bits 7 to 55 are equal, `F` any eight bytes, and the input may end
/// anywhere. Allocated in exactly its size.
#[inline(never)]
fn input(pat: &str) -> Box<[u8]> {
    let mut v = Vec::with_capacity(40);
    for p in pat.bytes() {
        match p {
            b'r' => v.push(sym::u8()),
            b'w' => v.push(sym::below(4) << 6 | 0x3f),
            b'd' => v.push(sym::below(8) << 5 | 0x1f),
            b's' => v.push(if sym::bool() { 0x7f } else { 0x9f }),
            b'V' => {
                for _ in 0..9 {
                    v.push(sym::u8() | 0x80);
                }
                v.push(sym::below(2));
            }
            b'v' => {
                let m = if sym::bool() { 0xff } else { 0x80 };
                v.push(sym::u8() | 0x80);
                v.extend([m; 7]);
                v.push(sym::u8() | 0x80);
                v.push(sym::below(2));
            }
            _ => v.extend_from_slice(&sym::bytes::<8>()),
        }
    }
    let n = sym::pick(v.len() as u8 + 1);
    v.truncate(n);
    v.into_boxed_slice()
}

trait Valid {
    fn valid(&self) {}
}
macro_rules! valid { ($($t:ty),* $(,)?) => { $(impl Valid for $t {})* }; }
valid! {
    u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, (), IpAddr, SocketAddr, Ipv4Addr,
    Ipv6Addr, SocketAddrV4, SocketAddrV6,
    OsString, PathBuf, Value<System>, [u8], CStr, CString, Duration, Skip, TrySkip, Named, Tuple, Unit,
    Trans, Pack, Shape, Adjacent, Nested, Skippy, Blob, PackField, Numbered, Rd, Arrays, NonZeroU8, NonZeroI64, PackDeep, core::sync::atomic::AtomicU16,
}
impl Valid for bool {
    fn valid(&self) {
        if unsafe { *(self as *const bool).cast::<u8>() } > 1 {
            panic!("a boolean is neither true nor false");
        }
    }
}
impl Valid for char {
    fn valid(&self) {
        let c = unsafe { *(self as *const char).cast::<u32>() };
        if c > 0x10ffff || (0xd800..0xe000).contains(&c) {
            panic!("a character is not a scalar value");
        }
    }
}
impl Valid for str {
    fn valid(&self) {
        if core::str::from_utf8(self.as_bytes()).is_err() {
            panic!("a string is not UTF-8");
        }
    }
}
impl Valid for String {
    fn valid(&self) {
        self.as_str().valid()
    }
}
macro_rules! deref { ($($p:ident),*) => { $(impl<T: ?Sized + Valid> Valid for $p<T> { fn valid(&self) { (**self).valid() } })* }; }
deref!(Box, Rc, Arc);
impl<T: ?Sized + Valid> Valid for &T {
    fn valid(&self) {
        (**self).valid()
    }
}
impl<T: ?Sized + Valid + ToOwned> Valid for Cow<'_, T> {
    fn valid(&self) {
        (**self).valid()
    }
}
macro_rules! iter { ($($p:ident),*) => { $(impl<T: Valid> Valid for $p<T> { fn valid(&self) { self.iter().for_each(Valid::valid) } })* }; }
iter!(Vec, VecDeque, BTreeSet, BinaryHeap, Option);
impl<T: Valid> Valid for HashSet<T, Bh> {
    fn valid(&self) {
        self.iter().for_each(Valid::valid)
    }
}
impl<T: Valid, const N: usize> Valid for [T; N] {
    fn valid(&self) {
        self.iter().for_each(Valid::valid)
    }
}
impl<K: Valid, V: Valid> Valid for BTreeMap<K, V> {
    fn valid(&self) {
        self.iter().for_each(|(k, v)| (k.valid(), v.valid()).0)
    }
}
impl<K: Valid, V: Valid> Valid for HashMap<K, V, Bh> {
    fn valid(&self) {
        self.iter().for_each(|(k, v)| (k.valid(), v.valid()).0)
    }
}
impl<A: Valid, B: Valid> Valid for (A, B) {
    fn valid(&self) {
        self.0.valid();
        self.1.valid();
    }
}
impl<A: Valid, B: Valid> Valid for Result<A, B> {
    fn valid(&self) {
        match self {
            Ok(x) => x.valid(),
            Err(x) => x.valid(),
        }
    }
}
impl<A: Valid> Valid for Range<A> {
    fn valid(&self) {
        self.start.valid();
        self.end.valid();
    }
}

/// Skips whatever is there.
struct Skip;
impl<'de, M, A: musli::alloc::Allocator> Decode<'de, M, A> for Skip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        d.skip()?;
        Ok(Skip)
    }
}
struct TrySkip;
impl<'de, M, A: musli::alloc::Allocator> Decode<'de, M, A> for TrySkip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        d.try_skip()?;
        Ok(TrySkip)
    }
}
/// A structure with optional fields and room for unknown ones.
#[derive(Decode)]
struct Rd {
    #[musli(Binary, name = 1)]
    #[musli(default)]
    a: bool,
    #[musli(Binary, name = 2)]
    #[musli(default)]
    b: Option<char>,
}
#[derive(Decode)]
#[musli(packed)]
struct Arrays {
    a: [bool; 2],
    b: [char; 1],
    c: [u16; 2],
}
#[derive(Decode)]
#[repr(C)]
#[musli(packed)]
struct PackDeep {
    a: NonZeroU16,
    b: bool,
    c: u8,
}

#[inline(never)]
fn total<F: Fmt, T: Valid + for<'de> Decode<'de, F::Mode, System>>(pat: &str) {
    let b = input(pat);
    let mut r = &b[..];
    match F::dec::<_, T>(sx(), &mut r) {
        Ok(v) => {
            v.valid();
            // What is left is the rest of the input.
            if r.len() > b.len() || r.as_ptr() as usize != b.as_ptr() as usize + (b.len() - r.len()) {
                panic!("the remaining input is not a suffix");
            }
            sym::cover(1);
        }
        Err(..) => sym::cover(2),
    }
}
/// Reads through other readers than a slice.
#[inline(never)]
fn readers<F: Fmt>(pat: &str)
where
    Vec<u16>: for<'de> Decode<'de, F::Mode, System>,
    String: for<'de> Decode<'de, F::Mode, System>,
    [u8; 3]: for<'de> Decode<'de, F::Mode, System>,
    u64: for<'de> Decode<'de, F::Mode, System>,
{
    let b = input(pat);
    #[inline(never)]
    fn one<'de, F: Fmt, R: Reader<'de>>(mut r: R)
    where
        Vec<u16>: for<'x> Decode<'x, F::Mode, System>,
        String: for<'x> Decode<'x, F::Mode, System>,
        [u8; 3]: for<'x> Decode<'x, F::Mode, System>,
        u64: for<'x> Decode<'x, F::Mode, System>,
    {
        macro_rules! dec {
            ($t:ty) => {
                match F::read::<_, _, $t>(sx(), &mut r) {
                    Ok(v) => {
                        v.valid();
                        sym::cover(1);
                    }
                    Err(..) => sym::cover(2),
                }
            };
        }
        match sym::pick(4) {
            0 => dec!(String),
            1 => dec!(Vec<u16>),
            2 => dec!([u8; 3]),
            _ => dec!(u64),
        }
    }
    if sym::bool() {
        one::<F, _>(SliceReader::new(&b))
    } else {
        one::<F, _>(SliceReader::new(&b).limit(sym::pick(b.len() as u8 + 2)))
    }
}
/// Borrows from the input.
#[inline(never)]
fn borrowed<F: Fmt, T: ?Sized + Valid>(pat: &str)
where
    for<'de> &'de T: Decode<'de, F::Mode, System>,
{
    let b = input(pat);
    match F::from::<_, &T>(sx(), &b) {
        Ok(v) => {
            v.valid();
            let p = (v as *const T).cast::<u8>() as usize;
            let base = b.as_ptr() as usize;
            if size_of_val(v) > 0 && (p < base || p + size_of_val(v) > base + b.len()) {
                panic!("a borrow is not of the input");
            }
            sym::cover(3);
        }
        Err(..) => sym::cover(2),
    }
}

macro_rules! group {
    ($n:ident $k:literal: $($t:ty),* $(,)?) => {
        #[inline(never)]
        fn $n<F: Fmt>(pat: &str)
        where
            $(for<'de> $t: Decode<'de, F::Mode, System>,)*
        {
            let k = sym::pick($k);
            let mut i = 0;
            $(
                if k == i { return total::<F, $t>(pat); }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
    };
}
group!(scalar 14: u8, u16, u64, u128, i32, bool, char, f64, NonZeroU8, NonZeroI64, Option<bool>, (), Unit, core::sync::atomic::AtomicU16);
group!(text 6: String, Box<str>, CString, OsString, PathBuf, Box<[u8]>);
group!(seq 12: Vec<u8>, Vec<bool>, Vec<u32>, Vec<char>, [u8; 3], [bool; 2], [char; 1], Vec<[u8; 2]>, VecDeque<u16>, BTreeSet<u8>, HashSet<u8, Bh>, BinaryHeap<u8>);
group!(deep 6: Vec<Vec<u8>>, Vec<String>, BTreeMap<u8, bool>, HashMap<u8, String, Bh>, Vec<(u8, bool)>, Option<Vec<char>>);
group!(structs 12: Named, Tuple, Trans, Pack, Shape, Nested, Skippy, Blob, PackField, Numbered, Rd, Adjacent);
group!(misc 11: Arrays, PackDeep, (bool, char), Result<bool, char>, Range<bool>, IpAddr, SocketAddr, SocketAddrV6, Box<bool>, Skip, TrySkip);
group!(packed 7: Arrays, PackDeep, (bool, char), Tuple, Trans, Pack, (u8, Vec<bool>));
group!(bigp 4: Vec<u8>, Vec<u16>, String, Vec<Vec<u8>>);
group!(skips 3: Skip, TrySkip, Rd);
group!(big 6: Vec<u8>, Vec<u16>, String, Vec<Vec<u8>>, Rd, BTreeMap<u8, u8>);

macro_rules! cow {
    ($f:ty, $t:ty, $pat:expr) => {{
        let b = input($pat);
        match <$f as Fmt>::from::<_, Cow<'_, $t>>(sx(), &b) {
            Ok(v) => v.valid(),
            Err(..) => sym::cover(2),
        }
    }};
}
fn borrow<F: Fmt<Mode = B_>>(pat: &str) {
    match sym::pick(5) {
        0 => borrowed::<F, str>(pat),
        1 => borrowed::<F, [u8]>(pat),
        2 => borrowed::<F, CStr>(pat),
        3 => cow!(F, str, pat),
        _ => cow!(F, CStr, pat),
    }
}

/// Raw inputs.
const N: &str = match tier(4, 6) { 4 => "rrrr", _ => "rrrrrr" };
const M: &str = match tier(3, 5) { 3 => "rrr", _ => "rrrrr" };
const L: &str = match tier(5, 8) { 5 => "rrrrr", _ => "rrrrrrrr" };
crate::harnesses! {
    fn h_m08_storage_scalar() { scalar::<Storage>(L) }
    fn h_m08_storage_text() { text::<Storage>(N) }
    fn h_m08_storage_seq() { seq::<Storage>(N) }
    fn h_m08_storage_deep() { deep::<Storage>(N) }
    fn h_m08_storage_structs() { structs::<Storage>(L) }
    fn h_m08_storage_misc() { misc::<Storage>(L) }
    fn h_m08_storage_borrow() { borrow::<Storage>(N) }
    fn h_m08_storage_big() { big::<Storage>("Vrr") }
    fn h_m08_storage_fixed() { big::<StorageO<FIX_LE>>("Frr") }
    fn h_m08_wire_scalar() { scalar::<Wire>(L) }
    fn h_m08_wire_text() { text::<Wire>(N) }
    fn h_m08_wire_seq() { seq::<Wire>(N) }
    fn h_m08_wire_deep() { deep::<Wire>(N) }
    fn h_m08_wire_structs() { structs::<Wire>(L) }
    fn h_m08_wire_misc() { misc::<Wire>(L) }
    fn h_m08_wire_borrow() { borrow::<Wire>(N) }
    fn h_m08_wire_big() { big::<Wire>("wVrr") }
    fn h_m08_wire_skip() { skips::<Wire>("wvwvr") }
    fn h_m08_wire_fixed() { if sym::bool() { skips::<WireO<FIX_BE>>("wrrr") } else { scalar::<WireO<FIX_LE>>(N) } }
    fn h_m08_wire_fixed_big() { big::<WireO<FIX_LE>>("rwrFr") }
    fn h_m08_storage_order() { scalar::<StorageO<FIX_BE>>("Frr") }
    fn h_m08_packed_scalar() { scalar::<Packed>("FFr") }
    fn h_m08_packed_text() { text::<Packed>("Frr") }
    fn h_m08_packed_seq() { seq::<Packed>("Frr") }
    fn h_m08_packed_deep() { deep::<Packed>("Frr") }
    fn h_m08_packed_misc() { packed::<Packed>("Frr") }
    fn h_m08_packed_borrow() { borrow::<Packed>("Frr") }
    fn h_m08_packed_variable() { seq::<PackedO<VAR>>(N) }
    fn h_m08_packed_big() { bigp::<PackedO<VAR>>("Vrr") }
    fn h_m08_desc_scalar() { scalar::<Descriptive>(N) }
    fn h_m08_desc_text() { text::<Descriptive>(N) }
    fn h_m08_desc_seq() { seq::<Descriptive>(N) }
    fn h_m08_desc_deep() { deep::<Descriptive>(N) }
    fn h_m08_desc_structs() { structs::<Descriptive>(L) }
    fn h_m08_desc_misc() { misc::<Descriptive>(N) }
    fn h_m08_desc_borrow() { borrow::<Descriptive>(N) }
    fn h_m08_desc_big() { big::<Descriptive>("dVrr") }
    fn h_m08_desc_skip() { total::<Descriptive, Skip>("svsvr") }
    fn h_m08_desc_value() { total::<Descriptive, Value<System>>(M) }
    fn h_m08_desc_value_big() { total::<Descriptive, Value<System>>("dVrr") }
    fn h_m08_reader_storage() { readers::<Storage>("Vrr") }
    fn h_m08_reader_packed() { readers::<PackedO<VAR>>("Vrr") }
    fn h_m08_reader_fixed() { readers::<Packed>("Frr") }
    fn h_m08_reader_wire() { readers::<Wire>("wVrr") }
    fn h_m08_reader_desc() { readers::<Descriptive>("dVrr") }
    fn h_m08_desc_fixed() { if sym::bool() { skips::<DescriptiveO<FIX_BE>>("drrFr") } else { seq::<DescriptiveO<FIX_LE>>(N) } }
}
