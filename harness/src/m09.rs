//! M09: untrusted JSON text. A document is accepted exactly if it is JSON of
//! the decoded shape, the value is what the text denotes, and decoding stops
//! where the text of the value ends. The oracle is written from RFC 8259.
use crate::cx::*;
use crate::fmts::*;
use crate::jsn::*;
use crate::model::*;
use crate::same;
use crate::sym;
use crate::tier;
use musli::alloc::System;
use musli::mode::Text;
use musli::value::Value;
use musli::{Decode, Decoder};
use std::borrow::Cow;
use std::collections::*;

/// `r` is any byte, `n` any byte that does not make a number a
/// float, `p` punctuation or white space, `'` a quote; the rest is literal. Ends anywhere from `from` on.
#[inline(never)]
fn input(pat: &str, from: usize) -> Box<[u8]> {
    let mut v = Vec::with_capacity(40);
    for p in pat.bytes() {
        v.push(match p {
            b'r' => sym::u8(),
            b'n' => {
                let c = sym::u8();
                sym::assume(c != b'.' && c != b'e' && c != b'E');
                c
            }
            b'p' => {
                let c = sym::u8();
                sym::assume(matches!(c, b',' | b':' | b'[' | b']' | b'{' | b'}' | b' '));
                c
            }
            b'\'' => b'"',
            c => c,
        });
    }
    let n = from + sym::pick((v.len() - from + 1) as u8);
    v.truncate(n);
    v.into_boxed_slice()
}

/// What a text denotes as a value of a type.
trait Spec: Sized {
    fn spec(j: &mut J) -> Option<Self>;
}
impl Spec for bool {
    fn spec(j: &mut J) -> Option<bool> {
        j.ws();
        if j.peek() == b't' {
            j.word(b"true").then_some(true)
        } else {
            j.word(b"false").then_some(false)
        }
    }
}
impl Spec for String {
    fn spec(j: &mut J) -> Option<String> {
        j.ws();
        let mut out = Vec::with_capacity(32);
        if !j.string(&mut out) {
            return None;
        }
        // the oracle only produces UTF-8
        Some(unsafe { String::from_utf8_unchecked(out) })
    }
}
impl Spec for Box<str> {
    fn spec(j: &mut J) -> Option<Self> {
        String::spec(j).map(Into::into)
    }
}
impl Spec for char {
    fn spec(j: &mut J) -> Option<char> {
        let s = String::spec(j)?;
        let mut c = s.chars();
        match (c.next(), c.next()) {
            (Some(c), None) => Some(c),
            _ => None,
        }
    }
}
impl Spec for u8 {
    fn spec(j: &mut J) -> Option<u8> {
        j.ws();
        if j.peek() == b'-' {
            return None;
        }
        let n = j.number_parts()?;
        if n.exp < 0 && n.whole()? > 255 {
            return None;
        }
        u8::try_from(n.integer()?).ok()
    }
}
impl Spec for i16 {
    fn spec(j: &mut J) -> Option<i16> {
        j.ws();
        let n = j.number_parts()?;
        if n.exp < 0 && n.whole()? > 65535 {
            return None;
        }
        let v = i32::try_from(n.integer()?).ok()?;
        i16::try_from(if n.minus { -v } else { v }).ok()
    }
}
impl<T: Spec> Spec for Option<T> {
    fn spec(j: &mut J) -> Option<Self> {
        j.ws();
        if j.peek() == b'n' {
            j.word(b"null").then_some(None)
        } else {
            T::spec(j).map(Some)
        }
    }
}
fn list(j: &mut J, mut f: impl FnMut(&mut J) -> bool) -> bool {
    j.ws();
    if !j.eat(b'[') {
        return false;
    }
    j.ws();
    if j.eat(b']') {
        return true;
    }
    loop {
        if !f(j) {
            return false;
        }
        j.ws();
        if j.eat(b']') {
            return true;
        }
        if !j.eat(b',') {
            return false;
        }
    }
}
impl<T: Spec> Spec for Vec<T> {
    fn spec(j: &mut J) -> Option<Self> {
        let mut v = Vec::with_capacity(8);
        list(j, |j| T::spec(j).map(|x| v.push(x)).is_some()).then_some(v)
    }
}
impl<const N: usize> Spec for [u8; N] {
    fn spec(j: &mut J) -> Option<Self> {
        Vec::<u8>::spec(j)?.try_into().ok()
    }
}
/// What follows the elements of a tuple is passed over.
impl<A: Spec, B: Spec> Spec for (A, B) {
    fn spec(j: &mut J) -> Option<Self> {
        let (mut a, mut b, mut i) = (None, None, 0);
        let ok = list(j, |j| {
            i += 1;
            match i {
                1 => {
                    a = A::spec(j);
                    a.is_some()
                }
                2 => {
                    b = B::spec(j);
                    b.is_some()
                }
                _ => Skip::spec(j).is_some(),
            }
        });
        if ok {
            Some((a?, b?))
        } else {
            None
        }
    }
}
fn object(j: &mut J, mut f: impl FnMut(String, &mut J) -> bool) -> bool {
    j.ws();
    if !j.eat(b'{') {
        return false;
    }
    j.ws();
    if j.eat(b'}') {
        return true;
    }
    loop {
        let Some(k) = String::spec(j) else { return false };
        j.ws();
        if !j.eat(b':') || !f(k, j) {
            return false;
        }
        j.ws();
        if j.eat(b'}') {
            return true;
        }
        if !j.eat(b',') {
            return false;
        }
    }
}
impl<T: Spec> Spec for BTreeMap<String, T> {
    fn spec(j: &mut J) -> Option<Self> {
        let mut m = BTreeMap::new();
        object(j, |k, j| T::spec(j).map(|v| m.insert(k, v)).is_some()).then_some(m)
    }
}
impl<T: Spec> Spec for BTreeMap<u8, T> {
    fn spec(j: &mut J) -> Option<Self> {
        let mut m = BTreeMap::new();
        object(j, |k, j| {
            let mut n = J::lax(k.as_bytes());
            let Some(k) = u8::spec(&mut n) else { return false };
            if n.p != n.b.len() {
                return false;
            }
            T::spec(j).map(|v| m.insert(k, v)).is_some()
        })
        .then_some(m)
    }
}
/// Any value, with the bytes of strings unchecked.
#[derive(PartialEq)]
struct Skip;
impl Spec for Skip {
    fn spec(j: &mut J) -> Option<Self> {
        let raw = core::mem::replace(&mut j.raw, true);
        let ok = j.value(6);
        j.raw = raw;
        ok.then_some(Skip)
    }
}
impl<'de, A: musli::alloc::Allocator> Decode<'de, Text, A> for Skip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = Text, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        d.skip()?;
        Ok(Skip)
    }
}
#[derive(PartialEq)]
struct TrySkip;
impl Spec for TrySkip {
    fn spec(j: &mut J) -> Option<Self> {
        Skip::spec(j).map(|_| TrySkip)
    }
}
impl<'de, A: musli::alloc::Allocator> Decode<'de, Text, A> for TrySkip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = Text, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        d.try_skip()?;
        Ok(TrySkip)
    }
}
/// Bytes of a fixed number, decoded as such.
#[derive(PartialEq)]
struct Arr([u8; 2]);
impl Spec for Arr {
    fn spec(j: &mut J) -> Option<Self> {
        <[u8; 2]>::spec(j).map(Arr)
    }
}
impl<'de, A: musli::alloc::Allocator> Decode<'de, Text, A> for Arr {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = Text, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        d.decode_array().map(Arr)
    }
}
impl Spec for () {
    fn spec(j: &mut J) -> Option<()> {
        Skip::spec(j).map(|_| ())
    }
}
/// A structure with optional fields and room for others.
#[derive(Decode, PartialEq)]
struct Rd {
    #[musli(Text, name = "a")]
    #[musli(default)]
    a: bool,
    #[musli(Text, name = "b")]
    #[musli(default)]
    b: Option<u8>,
}
impl Spec for Rd {
    fn spec(j: &mut J) -> Option<Self> {
        let mut r = Rd { a: false, b: None };
        object(j, |k, j| {
            if k == "a" {
                bool::spec(j).map(|v| r.a = v).is_some()
            } else if k == "b" {
                Option::<u8>::spec(j).map(|v| r.b = v).is_some()
            } else {
                Skip::spec(j).is_some()
            }
        })
        .then_some(r)
    }
}
/// One key with the value that belongs to it.
#[derive(Decode, PartialEq)]
enum En {
    #[musli(Text, name = "a")]
    A(bool),
    #[musli(Text, name = "b")]
    B,
}
impl Spec for En {
    fn spec(j: &mut J) -> Option<Self> {
        j.ws();
        if !j.eat(b'{') {
            return None;
        }
        let k = String::spec(j)?;
        j.ws();
        if !j.eat(b':') {
            return None;
        }
        let v = if k == "a" {
            let mut x = None;
            let mut i = 0;
            let ok = list(j, |j| {
                i += 1;
                if i == 1 {
                    x = bool::spec(j);
                    x.is_some()
                } else {
                    Skip::spec(j).is_some()
                }
            });
            if !ok {
                return None;
            }
            En::A(x?)
        } else if k == "b" {
            j.ws();
            if j.peek() != b'{' {
                return None;
            }
            Skip::spec(j)?;
            En::B
        } else {
            return None;
        };
        j.ws();
        j.eat(b'}').then_some(v)
    }
}

#[inline(never)]
fn check<T: Spec + PartialEq + for<'de> Decode<'de, Text, System>>(pat: &str, from: usize) {
    let b = input(pat, from);
    let mut j = J::lax(&b);
    let want = T::spec(&mut j);
    let end = j.p;
    if sym::bool() {
        let mut r = &b[..];
        match (Json::dec::<_, T>(sx(), &mut r), want) {
            (Ok(v), Some(w)) => {
                if v != w {
                    panic!("another value than the text denotes")
                }
                same!(b.len() - r.len(), end);
                same!(r.as_ptr() as usize, b.as_ptr() as usize + end);
                sym::cover(1);
            }
            (Err(..), None) => sym::cover(2),
            (Ok(..), None) => panic!("malformed text is accepted"),
            (Err(..), Some(..)) => panic!("well-formed text is rejected"),
        }
    } else {
        match (<Json as Fmt>::from::<_, T>(sx(), &b), want) {
            (Ok(v), Some(w)) => {
                if v != w {
                    panic!("another value than the text denotes")
                }
            }
            (Err(..), None) => {}
            (Ok(..), None) => panic!("malformed text is accepted"),
            (Err(..), Some(..)) => panic!("well-formed text is rejected"),
        }
    }
}
/// For shapes without a full oracle: what was consumed is a value.
#[inline(never)]
fn sound<T: for<'de> Decode<'de, Text, System>>(pat: &str, from: usize) {
    let b = input(pat, from);
    let mut r = &b[..];
    if Json::dec::<_, T>(sx(), &mut r).is_ok() {
        let mut j = J::lax(&b);
        j.raw = true;
        if !j.value(6) {
            panic!("malformed text is accepted");
        }
        same!(b.len() - r.len(), j.p);
        sym::cover(1);
    } else {
        sym::cover(2);
    }
    let _ = <Json as Fmt>::from::<_, T>(sx(), &b);
}
/// Texts borrowed from the input are in it.
fn borrowed(pat: &str, from: usize) {
    let b = input(pat, from);
    let mut j = J::lax(&b);
    let want = String::spec(&mut j);
    if sym::bool() {
        // borrowed or not, as needed
        match (<Json as Fmt>::from::<_, Cow<'_, str>>(sx(), &b), want) {
            (Ok(v), Some(w)) => same!(v.as_bytes(), w.as_bytes()),
            (Err(..), None) => {}
            _ => panic!("accepted differently than owned text"),
        }
        return;
    }
    match <Json as Fmt>::from::<_, &str>(sx(), &b) {
        Ok(s) => {
            let p = s.as_ptr() as usize;
            let base = b.as_ptr() as usize;
            if p < base || p + s.len() > base + b.len() {
                panic!("a borrow is not of the input");
            }
            match want {
                Some(w) => same!(s.as_bytes(), w.as_bytes()),
                None => panic!("malformed text is accepted"),
            }
            sym::cover(3);
        }
        Err(..) => sym::cover(2),
    }
}

macro_rules! group {
    ($c:ident $n:ident $k:literal: $($t:ty),* $(,)?) => {
        #[inline(never)]
        fn $n(pat: &str, from: usize) {
            let k = sym::pick($k);
            let mut i = 0;
            $(
                if k == i { return $c::<$t>(pat, from); }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
    };
}
group!(check scalar 6: bool, u8, i16, Option<u8>, Option<bool>, ());
group!(check text 3: String, char, Box<str>);
group!(check seq 5: Vec<u8>, [u8; 2], (u8, u8), Vec<Option<u8>>, Skip);
group!(check nest 3: Vec<Vec<u8>>, Vec<(u8, u8)>, TrySkip);
group!(check map 3: BTreeMap<String, u8>, BTreeMap<u8, u8>, Skip);
group!(check rec 3: Rd, En, Skip);
group!(check skip 2: Skip, TrySkip);
group!(sound more 7: Named, Tuple, Shape, Nested, Skippy, Adjacent, Value<System>);

const R: &str = match tier(4, 5) { 4 => "rrrr", _ => "rrrrr" };
const M: &str = match tier(4, 5) { 4 => "nnnn", _ => "nnnnn" };
const S: &str = match tier(4, 5) { 4 => "'rrrr", _ => "'rrrrr" };
crate::harnesses! {
    fn h_m09_raw_scalar() { scalar(R, 0) }
    fn h_m09_raw_text() { text(R, 0) }
    fn h_m09_raw_seq() { seq(R, 0) }
    fn h_m09_raw_map() { map(R, 0) }
    fn h_m09_raw_rec() { rec(R, 0) }
    fn h_m09_bool() { check::<bool>("trrr", 0) }
    fn h_m09_null() { check::<Option<bool>>("nrrr", 0) }
    fn h_m09_number() { check::<u8>("rrrr", 3) }
    fn h_m09_text() { text(S, 1) }
    fn h_m09_escape() { text("'\\rrr", 2) }
    fn h_m09_unicode() { text("'\\urrrr'", 3) }
    fn h_m09_pair() { text("'\\ud8rr\\udcrr'", 4) }
    fn h_m09_text_between() { text("'\\tr\\tr'r", 6) }
    fn h_m09_chars() { if sym::bool() { check::<char>("'rrr'", 3) } else { check::<char>("'r\\u000r'", 8) } }
    fn h_m09_borrow() { borrowed(S, 0) }
    fn h_m09_array() { seq("[rr1r2r", 1) }
    fn h_m09_bytes_array() { check::<Arr>("[1r2p3]r", 2) }
    fn h_m09_array_long() { check::<[u8; 2]>("[1,2r3]r", 5) }
    fn h_m09_nested() { nest("[[1r2rr[r]r", 5) }
    fn h_m09_object() { map("{r'1'r1r'2'r", 1) }
    fn h_m09_object_end() { map("{'1':1r'2':2rr", 7) }
    fn h_m09_key() { check::<BTreeMap<u8, u8>>("{'rr':1}", 2) }
    fn h_m09_record() { rec("{'r':truerr", 5) }
    fn h_m09_record_skip() { rec("{'c':rrr'a':falser", 5) }
    fn h_m09_skip() { skip("{'c'r[rr1]r'", 5) }
    fn h_m09_skip_text() { skip("'\\urrrrr'", 3) }
    fn h_m09_more_named() { sound::<Named>("{'a':1,'b'ntrue,'c':nn}", 8) }
    fn h_m09_more_value() { sound::<Value<System>>("{'n':[nn,'n'n", 1) }
    fn h_m09_more() { more(M, 0) }
}
