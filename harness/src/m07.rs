//! M07: self-describing numbers decode into any integer type that fits.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{any, F32, F64};
use crate::rt::*;
use crate::sym::{self, Sym};
use core::num::*;
use musli::alloc::System;
use musli::value::Value;
use musli::{Decode, Decoder, Encode};

type D = Descriptive;
type B_ = musli::mode::Binary;

/// An integer as its sign and its 128-bit two's complement bits.
trait Num: Copy + PartialEq + Sym + Encode<B_> + for<'de> Decode<'de, B_, System> {
    fn key(self) -> (bool, u128);
    fn of(k: (bool, u128)) -> Option<Self>;
}
macro_rules! num {
    ($($t:ty)*) => {$(
        impl Num for $t {
            #[inline]
            fn key(self) -> (bool, u128) {
                #[allow(unused_comparisons)]
                if self < 0 { (true, self as i128 as u128) } else { (false, self as u128) }
            }
            #[inline]
            fn of((neg, m): (bool, u128)) -> Option<Self> {
                if neg {
                    #[allow(unused_comparisons)]
                    if <$t>::MIN < 0 && m as i128 >= <$t>::MIN as i128 { Some(m as $t) } else { None }
                } else if m <= <$t>::MAX as u128 {
                    Some(m as $t)
                } else {
                    None
                }
            }
        }
    )*};
}
num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

/// Descriptive bytes of `v` as a `T`.
#[inline(never)]
fn bytes<S: Num, T: Num>() {
    let v: S = any();
    let mut b = buf::<D>();
    let n = sym::concrete(D::enc(sx(), &mut b, &v).expect("encode"));
    let want = T::of(v.key());
    let mut r = &b[..];
    match (D::dec::<_, T>(sx(), &mut r), want) {
        (Ok(g), Some(w)) => {
            same!(g, w);
            same!(r.len(), B - n);
            sym::cover(1);
        }
        (Err(..), None) => sym::cover(2),
        (Ok(..), None) => panic!("decodes an integer that the type cannot represent"),
        (Err(..), Some(..)) => panic!("rejects an integer that the type can represent"),
    }
    sym::observe_bytes(&b[..n]);
}

/// A dynamic value holding `v` as a `T`.
#[inline(never)]
fn value<S: Num, T: Num>(through: bool) {
    let v: S = any();
    let d: Value<System> = if through {
        let mut b = buf::<D>();
        let n = sym::concrete(D::enc(sx(), &mut b, &v).expect("encode"));
        let mut r = &b[..n];
        D::dec(sx(), &mut r).expect("decode as a dynamic value")
    } else {
        match musli::value::encode(v) { Ok(d) => d, Err(..) => panic!("encode") }
    };
    let want = T::of(v.key());
    match (musli::value::decode_with::<_, T, B_>(sx(), &d), want) {
        (Ok(g), Some(w)) => {
            same!(g, w);
            sym::cover(1);
        }
        (Err(..), None) => sym::cover(2),
        (Ok(..), None) => panic!("decodes an integer that the type cannot represent"),
        (Err(..), Some(..)) => panic!("rejects an integer that the type can represent"),
    }
}

macro_rules! to {
    ($s:ty, $f:ident $(, $a:expr)*) => {
        match sym::pick(12) {
            0 => $f::<$s, u8>($($a)*),
            1 => $f::<$s, u16>($($a)*),
            2 => $f::<$s, u32>($($a)*),
            3 => $f::<$s, u64>($($a)*),
            4 => $f::<$s, u128>($($a)*),
            5 => $f::<$s, usize>($($a)*),
            6 => $f::<$s, i8>($($a)*),
            7 => $f::<$s, i16>($($a)*),
            8 => $f::<$s, i32>($($a)*),
            9 => $f::<$s, i64>($($a)*),
            10 => $f::<$s, i128>($($a)*),
            _ => $f::<$s, isize>($($a)*),
        }
    };
}

/// Whatever number is there, through `decode_number`.
#[derive(Debug, PartialEq)]
enum AnyNum {
    Int(bool, u128),
    F32(u32),
    F64(u64),
}
struct NumVisitor;
#[musli::de::visitor]
impl<'de, C: musli::Context> musli::de::Visitor<'de, C> for NumVisitor {
    type Ok = AnyNum;
    type Error = C::Error;
    type Allocator = C::Allocator;
    fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("number")
    }
    fn visit_u8(self, _: C, v: u8) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_u16(self, _: C, v: u16) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_u32(self, _: C, v: u32) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_u64(self, _: C, v: u64) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_u128(self, _: C, v: u128) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_usize(self, _: C, v: usize) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_i8(self, _: C, v: i8) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_i16(self, _: C, v: i16) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_i32(self, _: C, v: i32) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_i64(self, _: C, v: i64) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_i128(self, _: C, v: i128) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_isize(self, _: C, v: isize) -> Result<AnyNum, C::Error> { Ok(AnyNum::of(v.key())) }
    fn visit_f32(self, _: C, v: f32) -> Result<AnyNum, C::Error> { Ok(AnyNum::F32(v.to_bits())) }
    fn visit_f64(self, _: C, v: f64) -> Result<AnyNum, C::Error> { Ok(AnyNum::F64(v.to_bits())) }
}
impl AnyNum {
    fn of(k: (bool, u128)) -> Self {
        AnyNum::Int(k.0, k.1)
    }
}
impl<'de, M, A: musli::alloc::Allocator> Decode<'de, M, A> for AnyNum {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        d.decode_number(NumVisitor)
    }
}
/// The same through `decode_any`.
#[derive(Debug, PartialEq)]
struct ViaAny(AnyNum);
impl<'de, M, A: musli::alloc::Allocator> Decode<'de, M, A> for ViaAny {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        Ok(ViaAny(d.decode_any(NumVisitor)?))
    }
}
fn number<S: Num>() {
    let v: S = any();
    seen(v, AnyNum::of(v.key()))
}
fn seen<T: Encode<B_>>(v: T, want: AnyNum) {
    let mut b = buf::<D>();
    let n = sym::concrete(D::enc(sx(), &mut b, &v).expect("encode"));
    let mut r = &b[..];
    let g = if sym::bool() {
        D::dec::<_, AnyNum>(sx(), &mut r).expect("decode_number")
    } else {
        D::dec::<_, ViaAny>(sx(), &mut r).expect("decode_any").0
    };
    if !(g == want) {
        panic!("another number is decoded");
    }
    same!(r.len(), B - n);
    sym::observe_bytes(&b[..n]);
    sym::cover(1);
}

/// The integer a float stands for, if it is one of magnitude below 2^127.
fn int_of(bits: u64, mant: u32, bias: i32) -> Option<(bool, u128)> {
    let neg = (bits >> if mant == 23 { 31 } else { 63 }) & 1 == 1;
    let exp = ((bits >> mant) as i32) & if mant == 23 { 0xff } else { 0x7ff };
    let m = bits & ((1 << mant) - 1);
    if exp == 0 {
        return if m == 0 { Some((neg, 0)) } else { None };
    }
    let e = exp - bias;
    if !(0..127).contains(&e) {
        return None;
    }
    let m = (m | 1 << mant) as u128;
    if e as u32 >= mant {
        return Some((neg, m << (e as u32 - mant)));
    }
    let d = mant - e as u32;
    if m & ((1 << d) - 1) == 0 { Some((neg, m >> d)) } else { None }
}
fn int32(x: f32) -> Option<(bool, u128)> { int_of(x.to_bits() as u64, 23, 127) }
fn int64(x: f64) -> Option<(bool, u128)> { int_of(x.to_bits(), 52, 1023) }
fn same_int(x: Option<(bool, u128)>, k: (bool, u128)) -> bool {
    match x {
        Some((neg, m)) => (m == 0 || neg == k.0) && (if neg { m.wrapping_neg() } else { m }) == k.1,
        None => false,
    }
}

/// The bits of a normal or zero `f32` as an `f64`.
fn widen(x: u32) -> u64 {
    let sign = ((x >> 31) as u64) << 63;
    if x << 1 == 0 {
        return sign;
    }
    sign | ((((x >> 23) & 0xff) as u64 + 896) << 52) | ((x & 0x7fffff) as u64) << 29
}

/// A float as a `T`: refused, or the same number.
#[inline(never)]
fn float<T: Num>() {
    let mut b = buf::<D>();
    let (x, n) = if sym::bool() {
        let v: F32 = any();
        let n = D::enc(sx(), &mut b, &v).expect("encode");
        (Ok(v.0), n)
    } else {
        let v: F64 = any();
        let n = D::enc(sx(), &mut b, &v).expect("encode");
        (Err(v.0), n)
    };
    let mut r = &b[..n];
    if let Ok(g) = D::dec::<_, T>(sx(), &mut r) {
        let x = match x { Ok(x) => int32(x), Err(x) => int64(x) };
        if !same_int(x, g.key()) {
            panic!("a float decodes as an unrelated integer");
        }
    }
    sym::cover(1);
}
/// An integer as a float: refused, or the same number.
fn to_float<S: Num>() {
    let v: S = any();
    let mut b = buf::<D>();
    let n = D::enc(sx(), &mut b, &v).expect("encode");
    let mut r = &b[..n];
    let g = if sym::bool() {
        D::dec::<_, f32>(sx(), &mut r).map(int32)
    } else {
        D::dec::<_, f64>(sx(), &mut r).map(int64)
    };
    if let Ok(g) = g {
        if !same_int(g, v.key()) {
            panic!("an integer decodes as an unrelated float");
        }
    }
    sym::cover(1);
}

macro_rules! nonzero {
    ($s:ty, $n:ident) => {{
        let v: $s = any();
        let mut b = buf::<D>();
        let n = D::enc(sx(), &mut b, &v).expect("encode");
        let mut r = &b[..n];
        let g = D::dec::<_, $n>(sx(), &mut r);
        match (g, Num::of(v.key()).and_then($n::new)) {
            (Ok(g), Some(w)) => same!(g, w),
            (Err(..), None) => {}
            _ => panic!("non-zero conversion differs"),
        }
        sym::cover(1);
    }};
}

/// In the middle of a structure, with other data around.
#[derive(Encode)]
struct From {
    a: i64,
    b: Vec<u32>,
    c: Option<i16>,
}
#[derive(Decode)]
struct To {
    a: u8,
    b: Vec<i8>,
    c: Option<u128>,
}

crate::harnesses! {
    fn h_m07_u8() { to!(u8, bytes) }
    fn h_m07_u16() { to!(u16, bytes) }
    fn h_m07_u32() { to!(u32, bytes) }
    fn h_m07_u64() { to!(u64, bytes) }
    fn h_m07_u128() { to!(u128, bytes) }
    fn h_m07_usize() { to!(usize, bytes) }
    fn h_m07_i8() { to!(i8, bytes) }
    fn h_m07_i16() { to!(i16, bytes) }
    fn h_m07_i32() { to!(i32, bytes) }
    fn h_m07_i64() { to!(i64, bytes) }
    fn h_m07_i128() { to!(i128, bytes) }
    fn h_m07_isize() { to!(isize, bytes) }
    fn h_m07_value_u() {
        match sym::pick(6) {
            0 => to!(u8, value, false),
            1 => to!(u16, value, false),
            2 => to!(u32, value, false),
            3 => to!(u64, value, false),
            4 => to!(u128, value, false),
            _ => to!(usize, value, false),
        }
    }
    fn h_m07_value_i() {
        match sym::pick(6) {
            0 => to!(i8, value, false),
            1 => to!(i16, value, false),
            2 => to!(i32, value, false),
            3 => to!(i64, value, false),
            4 => to!(i128, value, false),
            _ => to!(isize, value, false),
        }
    }
    fn h_m07_through_value() {
        match sym::pick(6) {
            0 => to!(u8, value, true),
            1 => to!(u16, value, true),
            2 => to!(i8, value, true),
            3 => to!(i32, value, true),
            4 => to!(u64, value, true),
            _ => to!(i128, value, true),
        }
    }
    fn h_m07_number() {
        match sym::pick(14) {
            0 => number::<u8>(),
            1 => number::<u16>(),
            2 => number::<u32>(),
            3 => number::<u64>(),
            4 => number::<u128>(),
            5 => number::<usize>(),
            6 => number::<i8>(),
            7 => number::<i16>(),
            8 => number::<i32>(),
            9 => number::<i64>(),
            10 => number::<i128>(),
            11 => number::<isize>(),
            12 => { let v: F32 = any(); seen(v, AnyNum::F32(v.0.to_bits())) }
            _ => { let v: F64 = any(); seen(v, AnyNum::F64(v.0.to_bits())) }
        }
    }
    fn h_m07_float() {
        match sym::pick(6) {
            0 => float::<u8>(),
            1 => float::<i32>(),
            2 => float::<u32>(),
            3 => float::<u64>(),
            4 => float::<i64>(),
            _ => float::<u128>(),
        }
    }
    fn h_m07_to_float() {
        match sym::pick(4) {
            0 => to_float::<u8>(),
            1 => to_float::<u32>(),
            2 => to_float::<i64>(),
            _ => to_float::<u64>(),
        }
    }
    fn h_m07_float_width() {
        let mut b = buf::<D>();
        if sym::bool() {
            let x: u32 = any();
            let e = (x >> 23) & 0xff;
            sym::assume(x << 1 == 0 || (e != 0 && e != 255));
            let n = D::enc(sx(), &mut b, &f32::from_bits(x)).expect("encode");
            let mut r = &b[..n];
            if let Ok(g) = D::dec::<_, f64>(sx(), &mut r) {
                same!(g.to_bits(), widen(x));
            }
        } else {
            let x: u64 = any();
            let n = D::enc(sx(), &mut b, &f64::from_bits(x)).expect("encode");
            let mut r = &b[..n];
            if let Ok(g) = D::dec::<_, f32>(sx(), &mut r) {
                let g = g.to_bits();
                let e = (g >> 23) & 0xff;
                sym::assume(g << 1 == 0 || (e != 0 && e != 255));
                same!(widen(g), x);
            }
        }
        sym::cover(1);
    }
    fn h_m07_nonzero() {
        match sym::pick(5) {
            0 => nonzero!(i16, NonZeroU8),
            1 => nonzero!(u64, NonZeroI32),
            2 => nonzero!(i64, NonZeroU128),
            3 => nonzero!(u8, NonZeroI8),
            _ => nonzero!(i128, NonZeroUsize),
        }
    }
    fn h_m07_nested() {
        let f = From { a: any(), b: vec![sym::u16() as u32, 5], c: any() };
        let mut b = buf::<D>();
        let n = D::enc(sx(), &mut b, &f).expect("encode");
        let mut r = &b[..n];
        let fits = f.a >= 0 && f.a < 256 && f.b[0] < 128 && !matches!(f.c, Some(x) if x < 0);
        match D::dec::<_, To>(sx(), &mut r) {
            Ok(t) => {
                if !fits {
                    panic!("decodes an integer that the type cannot represent");
                }
                same!(t.a as i64, f.a);
                same!(t.b.len(), 2);
                same!(t.b[0] as u32, f.b[0]);
                same!(t.b[1], 5);
                same!(t.c, f.c.map(|x| x as u128));
                sym::cover(1);
            }
            Err(..) => {
                if fits {
                    panic!("rejects an integer that the type can represent");
                }
                sym::cover(2);
            }
        }
    }
}
