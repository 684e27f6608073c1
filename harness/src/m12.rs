//! M12: JSON strings. Encoding against the literal grammar of RFC 8259,
//! decoding against what the literal denotes, by every way of reading one.
use crate::cx::*;
use crate::fmts::*;
use crate::jsn::*;
use crate::same;
use crate::sym;
use crate::tier;
use musli::alloc::System;
use musli::mode::Text;
use musli::value::Value;
use musli::{Decode, Decoder};
use std::borrow::Cow;
use std::collections::BTreeMap;

struct Skip;
impl<'de, A: musli::alloc::Allocator> Decode<'de, Text, A> for Skip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = Text, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        d.skip()?;
        Ok(Skip)
    }
}
fn value_str(v: &Value<System>) -> Option<String> {
    musli::value::decode::<String>(v).ok()
}

/// Every way of reading the literal at the start of `b` gives `want`, and ends at `end`.
#[inline(never)]
fn reads(b: &[u8], want: Option<&[u8]>, end: usize, raw_ok: Option<usize>) {
    let mut r = b;
    let check = |g: Option<&[u8]>| match (g, want) {
        (Some(g), Some(w)) => same!(g, w),
        (None, None) => {}
        (Some(..), None) => panic!("an invalid literal is accepted"),
        (None, Some(..)) => panic!("a valid literal is rejected"),
    };
    match sym::pick(7) {
        0 => {
            let s = Json::dec::<_, String>(sx(), &mut r).ok();
            check(s.as_ref().map(|s| s.as_bytes()));
            if want.is_some() {
                same!(b.len() - r.len(), end);
            }
        }
        1 => {
            let s = <Json as Fmt>::from::<_, Cow<'_, str>>(sx(), b).ok();
            check(s.as_ref().map(|s| s.as_bytes()));
        }
        2 => {
            // only a literal without escapes can be borrowed
            if let Ok(s) = <Json as Fmt>::from::<_, &str>(sx(), b) {
                check(Some(s.as_bytes()));
            } else if let Some(w) = want {
                if w.len() == end - 2 {
                    panic!("a literal without escapes is not borrowed");
                }
            }
        }
        3 => {
            let s = Json::dec::<_, Value<System>>(sx(), &mut r).ok();
            check(s.as_ref().and_then(value_str).as_ref().map(|s| s.as_bytes()));
            if want.is_some() {
                same!(b.len() - r.len(), end);
            }
        }
        4 => {
            let k = Json::dec::<_, Skip>(sx(), &mut r).is_ok();
            same!(k, raw_ok.is_some());
            if let Some(e) = raw_ok {
                same!(b.len() - r.len(), e);
            }
        }
        5 => {
            let c = Json::dec::<_, char>(sx(), &mut r).ok();
            let w = want.and_then(|w| {
                let s = unsafe { core::str::from_utf8_unchecked(w) };
                let mut i = s.chars();
                match (i.next(), i.next()) {
                    (Some(c), None) => Some(c),
                    _ => None,
                }
            });
            same!(c, w);
        }
        _ => {
            // as a key
            let mut v = Vec::with_capacity(64);
            v.push(b'{');
            v.extend_from_slice(b);
            v.extend_from_slice(b":true}");
            let m = <Json as Fmt>::from::<_, BTreeMap<String, bool>>(sx(), &v).ok();
            if want.is_some() && end == b.len() {
                let m = m.unwrap();
                same!(m.len(), 1);
                check(m.keys().next().map(|k| k.as_bytes()));
            } else if want.is_none() && raw_ok.is_none() {
                // the literal never ends, or is invalid; what follows cannot repair that
                if let Some(m) = m {
                    // unless its quote is the one we added nothing to
                    if m.len() != 1 || !b.is_empty() && b[0] == b'"' {
                        panic!("an invalid key is accepted");
                    }
                }
            }
        }
    }
}

#[inline(never)]
fn input(pat: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    for p in pat.bytes() {
        v.push(match p {
            b'r' => sym::u8(),
            // a hexadecimal digit of either case
            b'x' => {
                let c = sym::u8();
                sym::assume(matches!(c, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'));
                c
            }
            // a byte which is not ASCII
            b'h' => sym::u8() | 0x80,
            b'\'' => b'"',
            c => c,
        });
    }
    v
}
#[inline(never)]
fn literal(pat: &str) {
    let b = input(pat);
    let mut j = J::new(&b);
    let mut out = Vec::with_capacity(64);
    let ok = j.string(&mut out);
    let mut k = J::new(&b);
    k.raw = true;
    let raw = k.string(&mut Vec::with_capacity(64)).then_some(k.p);
    sym::cover(if ok { 1 } else if raw.is_some() { 2 } else { 3 });
    reads(&b, ok.then_some(&out[..]), j.p, raw);
}
/// The literal that encodes a text denotes it, alone and as a key.
#[inline(never)]
fn encode(s: &str) {
    let mut buf = [0u8; 160];
    match sym::pick(3) {
        0 => {
            let n = Json::enc(nx(), &mut buf, s).unwrap();
            let n = sym::concrete(n);
            let mut j = J::new(&buf[..n]);
            let mut out = Vec::with_capacity(160);
            if !j.string(&mut out) || j.p != n {
                panic!("not a JSON string");
            }
            same!(out.as_slice(), s.as_bytes());
            reads(&buf[..n], Some(s.as_bytes()), n, Some(n));
        }
        1 => {
            let mut m = BTreeMap::new();
            m.insert(s.to_string(), true);
            let n = Json::enc(sx(), &mut buf, &m).unwrap();
            let n = sym::concrete(n);
            let mut j = J::new(&buf[..n]);
            let mut out = Vec::with_capacity(160);
            if !j.eat(b'{') || !j.string(&mut out) || !j.word(b":true}") || j.p != n {
                panic!("not a JSON object");
            }
            same!(out.as_slice(), s.as_bytes());
            match <Json as Fmt>::from::<_, BTreeMap<String, bool>>(sx(), &buf[..n]) {
                Ok(d) => if d != m { panic!("another key is decoded") },
                Err(..) => panic!("the object is rejected"),
            }
        }
        _ => {
            // by way of a writer that grows, and a dynamic value
            let v = musli::json::to_vec(s).unwrap();
            let n = Json::enc(nx(), &mut buf, s).unwrap();
            same!(v.as_slice(), &buf[..n]);
            let d = musli::value::encode(s).unwrap();
            let m = Json::enc(sx(), &mut buf, &d).unwrap();
            same!(v.as_slice(), &buf[..m]);
        }
    }
    sym::cover(1);
}

const N: usize = tier(4, 6);
const RAW: &str = match tier(4, 5) { 4 => "'rrrr", _ => "'rrrrr" };
crate::harnesses! {
    fn h_m12_encode() { encode(sym::string::<N>().get()) }
    fn h_m12_encode_long() {
        // runs of plain text around bytes to be escaped
        let mut s = String::from("0123456789abcdefghijklmnopqrs");
        let k = [0, 1, 7, 8, 15, 16, 28][sym::pick(7)];
        let c = sym::u8();
        sym::assume(c < 128);
        s.insert(k, c as char);
        let c = sym::u8();
        sym::assume(c < 128);
        s.insert([k, k + 1, 30][sym::pick(3)], c as char);
        encode(&s)
    }
    fn h_m12_encode_char() {
        let c = sym::char();
        let mut buf = [0u8; 16];
        let n = sym::concrete(Json::enc(nx(), &mut buf, &c).unwrap());
        let mut j = J::new(&buf[..n]);
        let mut out = Vec::with_capacity(8);
        if !j.string(&mut out) || j.p != n {
            panic!("not a JSON string");
        }
        same!(core::str::from_utf8(&out).ok().and_then(|s| s.chars().next()), Some(c));
        same!(Json::dec::<_, char>(sx(), &mut &buf[..n]), Ok(c));
        sym::cover(1);
    }
    fn h_m12_raw() { literal(RAW) }
    fn h_m12_closed() { literal("'rrr'") }
    fn h_m12_long() { literal("'0123456789abcrr'r") }
    fn h_m12_utf8() { literal("'hhrr'") }
    fn h_m12_utf8_late() { literal("'\\nhhh'") }
    fn h_m12_utf8_split() { literal("'h\\nhr'") }
    fn h_m12_utf8_between() { literal("'\\nhh\\tr'") }
    fn h_m12_utf8_beyond() { literal("'\\n\\u0041h\\/h'") }
    fn h_m12_escape() { literal("'\\r\\rr'") }
    fn h_m12_escape_between() { literal("'a\\rb\\rc'") }
    fn h_m12_unicode() { literal("'\\uxxxx'") }
    fn h_m12_unicode_raw() { literal("'\\urrr'r'") }
    fn h_m12_pair() { literal("'\\ud8xx\\udxxx'") }
    fn h_m12_pair_high() { literal("'\\uDBFx\\uDxFF'") }
    fn h_m12_pair_broken() { literal("'\\uDBFFrrDC00'") }
    fn h_m12_pair_cut() { literal("'\\ud800\\rr'r'") }
    fn h_m12_pair_text() { literal("'\\uxx41\\uxx42r'") }
    fn h_m12_lone() { literal("'\\udcxx\\n'") }
}
