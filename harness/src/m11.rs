//! M11: JSON integers. The oracle computes what the text denotes from its
//! decimal digits.
use crate::cx::*;
use crate::fmts::*;
use crate::jsn::*;
use crate::same;
use crate::sym;
use crate::tier;
use musli::alloc::System;
use musli::mode::Text;
use musli::value::Value;
use musli::Decode;
use std::collections::BTreeMap;

/// `d` is a digit, `k` a digit with one path for each, `m` any byte of a number, `o` an optional minus sign; the rest is literal.
/// Followed by the end, or by a byte which does not belong to a number. With `cut`, ends anywhere.
#[inline(never)]
fn input(pat: &str, cut: bool) -> Box<[u8]> {
    let mut v = Vec::with_capacity(64);
    for p in pat.bytes() {
        match p {
            b'd' => v.push(b'0' + sym::below(10)),
            b'k' => v.push(b'0' + sym::pick(10) as u8),
            b'm' => {
                let c = sym::u8();
                sym::assume(matches!(c, b'0'..=b'9' | b'.' | b'e' | b'E' | b'+' | b'-'));
                v.push(c)
            }
            b'o' => {
                if sym::bool() {
                    v.push(b'-')
                }
            }
            c => v.push(c),
        }
    }
    if cut {
        let n = sym::pick(v.len() as u8 + 1);
        v.truncate(n);
    }
    if sym::bool() {
        v.push(b',');
    }
    v.into_boxed_slice()
}

trait Int: Sized + PartialEq + Copy {
    const TOP: u128;
    const UMAX: u128;
    const SIGNED: bool;
    fn make(minus: bool, v: u128) -> Option<Self>;
}
macro_rules! ints {
    ($($u:ident $i:ident),*) => {$(
        impl Int for $u {
            const TOP: u128 = $u::MAX as u128;
            const UMAX: u128 = $u::MAX as u128;
            const SIGNED: bool = false;
            fn make(minus: bool, v: u128) -> Option<Self> {
                if minus || v > Self::TOP { None } else { Some(v as $u) }
            }
        }
        impl Int for $i {
            const TOP: u128 = $i::MAX as u128;
            const UMAX: u128 = $u::MAX as u128;
            const SIGNED: bool = true;
            fn make(minus: bool, v: u128) -> Option<Self> {
                if v > Self::TOP + minus as u128 { return None }
                Some(if minus { (v as $i).wrapping_neg() } else { v as $i })
            }
        }
    )*};
}
ints!(u8 i8, u16 i16, u32 i32, u64 i64, u128 i128, usize isize);

struct Want<T> {
    /// What the text denotes, if it is a value of the type.
    v: Option<T>,
    /// An error is permitted all the same: the digits in front of a negative
    /// exponent are those of a larger number, or the exponent exceeds 32 bits.
    lax: bool,
    end: usize,
    minus: bool,
}
fn want<T: Int>(b: &[u8]) -> Want<T> {
    let mut j = J::lax(b);
    let Some(n) = j.number_parts() else { return Want { v: None, lax: false, end: 0, minus: false } };
    let v = match n.integer() {
        Some(m) if T::SIGNED || !n.minus => T::make(n.minus, m),
        _ => None,
    };
    let lax = n.huge || n.exp < 0 && n.whole().map_or(true, |w| w > T::UMAX);
    Want { v, lax, end: j.p, minus: n.minus }
}

#[inline(never)]
fn check<T: Int + for<'de> Decode<'de, Text, System>>(pat: &str, cut: bool) {
    let b = input(pat, cut);
    let w = want::<T>(&b);
    let r = if sym::bool() {
        let mut r = &b[..];
        let v = Json::dec::<_, T>(sx(), &mut r);
        if v.is_ok() && w.v.is_some() {
            same!(b.len() - r.len(), w.end);
        }
        v
    } else {
        <Json as Fmt>::from::<_, T>(sx(), &b)
    };
    match (r, w.v) {
        (Ok(v), Some(x)) => {
            same!(v, x);
            sym::cover(1)
        }
        (Ok(..), None) => panic!("a number that is not a value of the type is accepted"),
        (Err(..), Some(..)) if !w.lax => panic!("a value of the type is rejected"),
        (Err(..), _) => sym::cover(2),
    }
}
/// As a key of an object.
#[inline(never)]
fn key<T: Int + Ord + for<'de> Decode<'de, Text, System>>(pat: &str) {
    let b = input(pat, false);
    let w = want::<T>(&b);
    let mut v = Vec::with_capacity(64);
    v.extend_from_slice(b"{\"");
    v.extend_from_slice(&b);
    v.extend_from_slice(b"\":true}");
    let r = <Json as Fmt>::from::<_, BTreeMap<T, bool>>(sx(), &v);
    match (r, w.v) {
        (Ok(m), Some(x)) => {
            if w.end != b.len() {
                panic!("a key which is not a number is accepted");
            }
            same!(*m.keys().next().unwrap(), x);
            sym::cover(1)
        }
        (Ok(..), None) => panic!("a number that is not a value of the type is accepted"),
        (Err(..), Some(..)) if !w.lax && w.end == b.len() => panic!("a value of the type is rejected"),
        (Err(..), _) => sym::cover(2),
    }
}
/// By way of a dynamic value. The digits denote an integer.
#[inline(never)]
fn dynamic<T: Int + for<'de> Decode<'de, Text, System> + for<'de> Decode<'de, musli::mode::Binary, System>>(pat: &str) {
    let b = input(pat, false);
    let w = want::<T>(&b);
    let r = match <Json as Fmt>::from::<_, Value<System>>(sx(), &b) {
        Ok(v) => musli::value::decode::<T>(&v).ok(),
        Err(..) => None,
    };
    match (r, w.v) {
        // minus zero
        (Some(..), None) if !T::SIGNED && w.minus && T::make(false, 0) == r => sym::cover(3),
        (Some(v), Some(x)) => {
            same!(v, x);
            sym::cover(1)
        }
        (Some(..), None) => panic!("a number that is not a value of the type is accepted"),
        (None, Some(..)) if !w.lax => panic!("a value of the type is rejected"),
        (None, _) => sym::cover(2),
    }
}

macro_rules! by {
    ($f:ident $a:tt $k:literal: $($t:ty),*) => {{
        let k = sym::pick($k);
        let mut i = 0;
        $(
            if k == i { return $f::<$t> $a; }
            i += 1;
        )*
        let _ = i;
    }};
}
macro_rules! all {
    ($f:ident $a:tt) => { by!($f $a 12: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize) };
}

const RAW: &str = match tier(4, 6) { 4 => "mmmm", _ => "mmmmmm" };
const EXP: &str = match tier(0, 1) { 0 => "od.ddek", _ => "od.dddek" };
const TEN: &str = match tier(0, 1) { 0 => "od.dekk", _ => "odd.dekk" };
const NEG: &str = match tier(0, 1) { 0 => "oddd.0e-k", _ => "oddddd.00e-kk" };
crate::harnesses! {
    fn h_m11_raw_u8() { check::<u8>(RAW, true) }
    fn h_m11_raw_i8() { check::<i8>(RAW, true) }
    fn h_m11_raw_wide() { by!(check("mmm", true) 3: u32, i64, usize) }
    fn h_m11_fraction() { all!(check(EXP, false)) }
    fn h_m11_exponent() { all!(check(TEN, false)) }
    fn h_m11_negative() { all!(check(NEG, false)) }
    fn h_m11_zeros() { all!(check("o0.000de-k", false)); }
    fn h_m11_scaled() { all!(check("o0.00d0dek", false)) }
    fn h_m11_large_exponent() { if sym::bool() { by!(check("o0e214748364kk", false) 3: u8, i32, i128) } else { by!(check("o1e-214748364k", false) 3: u8, i32, i128) } }
    fn h_m11_small_exponent() { by!(check("od.0e-214748364k", false) 3: u8, i32, i128) }
    fn h_m11_edge_8() { by!(check("oddd", false) 2: u8, i8) }
    fn h_m11_edge_16() { by!(check("odddddd", false) 2: u16, i16) }
    fn h_m11_edge_u32() { check::<u32>("o42949ddddd", false) }
    fn h_m11_edge_i32() { check::<i32>("o21474ddddd", false) }
    fn h_m11_edge_u64() { by!(check("184467440737095ddddd", false) 2: u64, usize) }
    fn h_m11_edge_i64() { by!(check("o92233720368547ddddd", false) 2: i64, isize) }
    fn h_m11_edge_u128() { check::<u128>("34028236692093846346337460743176821dddd", false) }
    fn h_m11_edge_i128() { check::<i128>("o17014118346046923173168730371588410dddd", false) }
    fn h_m11_edge_exponent() { match sym::pick(3) { 0 => by!(check("odek", false) 4: u8, i8, u16, i16), 1 => by!(check("ode1k", false) 4: u32, i32, u64, i64), _ => check::<u128>("ode3k", false) } }
    fn h_m11_key() { all!(key("oddd")) }
    fn h_m11_key_edge() { by!(key("odddddm") 2: u16, i16) }
    fn h_m11_dynamic() { all!(dynamic("oddd")) }
    fn h_m11_dynamic_edge() {
        match sym::pick(6) {
            0 => dynamic::<u16>("odddddd"),
            1 => dynamic::<u32>("o42949672ddd"),
            2 => dynamic::<i32>("o21474836ddd"),
            3 => dynamic::<u64>("18446744073709551ddd"),
            4 => dynamic::<i64>("o9223372036854775ddd"),
            _ => dynamic::<i128>("o922337203685477580d"),
        }
    }
    /// Numbers on both sides of 64 and 65 bits, and at the limits of 128.
    fn h_m11_dynamic_wide() {
        match sym::pick(7) {
            0 => dynamic::<u128>("184467440737095516dd"),
            1 => dynamic::<i128>("o184467440737095516dd"),
            2 => dynamic::<u128>("368934881474191032dd"),
            3 => dynamic::<i128>("o18446744073709551ddd"),
            4 => dynamic::<u128>("3402823669209384634633746074317682114dd"),
            5 => dynamic::<i128>("1701411834604692317316873037158841057dd"),
            // (What is less than any integer is held as a float.)
            _ => dynamic::<i128>("-1701411834604692317316873037158841056dd"),
        }
    }
    fn h_m11_negative_fraction() { all!(check("odd0.de-k", false)) }
    fn h_m11_long_fraction() { by!(check("od.00000000000de1k", false) 4: u8, i32, u64, u128) }
    fn h_m11_long_zeros() { by!(check("o0.d00000000000de1k", false) 4: u8, i32, u64, i128) }
    fn h_m11_many_zeros() { by!(check("o0.0000000000000000000000000000000000000000de4k", false) 3: u16, i64, u128) }
    /// Exponents on both sides of 32 and 64 bits.
    fn h_m11_wrapped_exponent() {
        match sym::pick(4) {
            0 => by!(check("od.de42949672kk", false) 3: u8, i32, u128),
            1 => by!(check("od0.0e-42949672kk", false) 3: u8, i32, u128),
            2 => by!(check("ode184467440737095516kk", false) 3: u8, i32, u128),
            _ => by!(check("ode2147483ddk", false) 3: u8, i32, u128),
        }
    }
}
