//! M22: every way into and out of a format does the same.
use crate::cx::*;
use crate::fmts::*;
use crate::rt::Skipped;
use crate::sym::{self, any};
use crate::tier;
use musli::alloc::{Allocator, Disabled, Slice, System};
use musli::context::{self, ErrorMarker};
use musli::fixed::FixedBytes;
use musli::mode::{Binary, Text};
use musli::reader::{Reader, SliceReader};
use musli::value::{self, Value};
use musli::{Context, Decode, Encode};
use std::collections::BTreeMap;

#[derive(Debug, PartialEq, Encode, Decode)]
struct V {
    a: u16,
    c: String,
    b: bool,
}
#[derive(Debug, PartialEq, Encode, Decode)]
enum E {
    A,
    B(u8),
    C { x: bool },
}
impl sym::Sym for V {
    fn sym() -> V {
        V { a: any(), c: sym::string::<1>().get().to_owned(), b: any() }
    }
}
impl sym::Sym for E {
    fn sym() -> E {
        match sym::pick(3) {
            0 => E::A,
            1 => E::B(any()),
            _ => E::C { x: any() },
        }
    }
}

/// Room for the values above.
const N: usize = 64;

/// Takes as many bytes at once as it is told, and fails once it is full.
struct Part {
    b: [u8; N],
    n: usize,
    room: usize,
    step: usize,
}
impl std::io::Write for Part {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let m = b.len().min(self.step).min(self.room - self.n);
        self.b[self.n..self.n + m].copy_from_slice(&b[..m]);
        self.n += m;
        Ok(m)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

macro_rules! again {
    (text, $e:ident, $cx:expr, $v:expr) => { $e.to_string_with($cx, $v).ok().map(|o| o.len()) };
    (binary, $e:ident, $cx:expr, $v:expr) => { $e.to_vec_with($cx, $v).ok().map(|o| o.len()) };
}
macro_rules! encodes {
    ($f:ident, $m:ident, $mode:ident, $again:ident, |$v:ident, $all:ident| $more:expr) => {
        #[inline(never)]
        fn $f<T: ?Sized + Encode<$mode>>($v: &T) {
            use musli::$m as m;
            const E: m::Encoding = m::Encoding::new();
            // what is to be written
            let mut b = [0u8; N];
            let n = sym::concrete(E.to_slice_with(sx(), &mut b, $v).expect("encode"));
            let $all = &b[..n];

            let $v = $v;
            match sym::pick(4) {
                // anything that grows
                0 => {
                    same!(m::to_vec($v).expect("to_vec"), $all);
                    same!(E.to_vec($v).expect("to_vec"), $all);
                    same!(E.to_vec_with(sx(), $v).expect("to_vec_with"), $all);
                    same!(E.to_vec_with(nx(), $v).expect("to_vec_with without an allocator"), $all);
                    let mut w = vec![0xee, 0xdd];
                    m::encode(&mut w, $v).expect("encode");
                    same!(&w[2..], $all);
                    E.encode(&mut w, $v).expect("encode");
                    same!(&w[2 + n..], $all);
                    E.encode_with(sx(), &mut w, $v).expect("encode_with");
                    same!(&w[2 + 2 * n..], $all);
                    m::to_writer(&mut w, $v).expect("to_writer");
                    E.to_writer(&mut w, $v).expect("to_writer");
                    E.to_writer_with(sx(), &mut w, $v).expect("to_writer_with");
                    same!(w.len(), 2 + 6 * n);
                    for i in 0..6 {
                        same!(&w[2 + i * n..2 + (i + 1) * n], $all);
                    }
                    same!(&w[..2], &[0xee, 0xdd][..]);

                    // what failed before does not matter
                    let cx = context::new().with_trace().with_capture::<m::Error>();
                    for k in 0..6 {
                        same!(E.to_slice_with(&cx, &mut [0u8; 0][..], $v).is_err(), n > 0);
                        same!(cx.errors().next().is_some(), n > 0);
                        same!(cx.result().is_err(), n > 0);
                        let o = match k {
                            0 => E.to_vec_with(&cx, $v).ok().map(|o| o.len()),
                            1 => E.encode_with(&cx, &mut w, $v).ok().map(|_| n),
                            2 => E.to_writer_with(&cx, &mut w, $v).ok().map(|_| n),
                            3 => E.to_fixed_bytes_with(&cx, $v).ok().map(|o: FixedBytes<N>| o.len()),
                            4 => E.to_slice_with(&cx, &mut [0u8; N][..], $v).ok(),
                            _ => again!($again, E, &cx, $v),
                        };
                        same!(o, Some(n));
                        same!(cx.errors().next().is_some(), false);
                        same!(cx.result().is_err(), false);
                    }
                }
                // a slice with some room
                1 => {
                    let room = sym::pick(N as u8 / 2);
                    for k in 0..4 {
                        let mut c = [0xeeu8; N];
                        let o = match k {
                            0 => m::to_slice(&mut c[..room], $v).ok(),
                            1 => E.to_slice(&mut c[..room], $v).ok(),
                            2 => E.to_slice_with(nx(), &mut c[..room], $v).ok(),
                            // the room that is left
                            _ => E.encode_with(sx(), &mut c[..room], $v).ok().map(|left| room - left),
                        };
                        same!(o, if n <= room { Some(n) } else { None });
                        if n <= room {
                            same!(&c[..n], $all);
                        }
                        for i in room.min(n)..N {
                            if i >= room || o.is_some() {
                                same!(c[i], 0xee);
                            }
                        }
                    }
                    sym::cover(1);
                }
                // fixed storage
                2 => {
                    let o: Option<FixedBytes<N>> = m::to_fixed_bytes($v).ok();
                    same!(o.expect("to_fixed_bytes").as_slice(), $all);
                    let o: Option<FixedBytes<N>> = E.to_fixed_bytes_with(nx(), $v).ok();
                    same!(o.expect("to_fixed_bytes_with").as_slice(), $all);
                    let o: Option<FixedBytes<4>> = E.to_fixed_bytes($v).ok();
                    same!(o.is_some(), n <= 4);
                    if let Some(o) = o {
                        same!(o.as_slice(), $all);
                        sym::cover(2);
                    }
                }
                // something that takes the bytes in parts
                _ => {
                    let mut w = Part { b: [0; N], n: 0, room: sym::pick(N as u8 / 2), step: 1 + sym::pick(3) };
                    let ok = match sym::pick(3) {
                        0 => m::to_writer(&mut w, $v).is_ok(),
                        1 => E.to_writer(&mut w, $v).is_ok(),
                        _ => E.to_writer_with(nx(), &mut w, $v).is_ok(),
                    };
                    same!(ok, n <= w.room);
                    if ok {
                        same!(&w.b[..w.n], $all);
                    }
                }
            }
            $more;
            sym::observe_bytes($all);
        }
    };
}
encodes!(en_storage, storage, Binary, binary, |v, all| ());
encodes!(en_wire, wire, Binary, binary, |v, all| ());
encodes!(en_packed, packed, Binary, binary, |v, all| ());
encodes!(en_descriptive, descriptive, Binary, binary, |v, all| ());
encodes!(en_json, json, Text, text, |v, all| {
    same!(musli::json::to_string(v).expect("to_string").as_bytes(), all);
    same!(E.to_string(v).expect("to_string").as_bytes(), all);
    same!(E.to_string_with(nx(), v).expect("to_string_with").as_bytes(), all);
});

/// Whether what another way gave is what was wanted.
#[inline(never)]
fn agree<T: PartialEq, X>(what: &'static str, o: Result<T, X>, want: &Option<T>) {
    if o.ok() != *want {
        crate::differ(what)
    }
}

macro_rules! decodes {
    ($f:ident, $m:ident, $mode:ident, $escapes:literal, |$b:ident, $want:ident, $left:ident| $more:expr) => {
        #[inline(never)]
        fn $f<T>($b: &[u8])
        where
            T: PartialEq
                + for<'de> Decode<'de, $mode, System>
                + for<'de> Decode<'de, $mode, Disabled>
                + for<'de, 'a> Decode<'de, $mode, &'a Slice<'a>>,
        {
            use musli::$m as m;
            const E: m::Encoding = m::Encoding::new();
            // what is to be read, and what is left then
            let mut r = $b;
            let $want: Option<T> = E.decode_with(sx(), &mut r).ok();
            let $left = sym::concrete(r.len());

            agree("from_slice", m::from_slice($b), &$want);
            agree("Encoding::from_slice", E.from_slice($b), &$want);
            agree("from_slice_with", E.from_slice_with(sx(), $b), &$want);
            agree("decode", m::decode($b), &$want);
            agree("Encoding::decode", E.decode($b), &$want);
            agree("decode_with", E.decode_with(sx(), $b), &$want);
            let mut r = $b;
            agree("decode from a mutable slice", m::decode(&mut r), &$want);
            if $want.is_some() {
                same!(r.len(), $left);
            }
            $more;

            // allocators, which only escapes, dynamic values and the like need
            if $escapes {
                let o: Result<T, _> = E.from_slice_with(nx(), $b);
                if o.is_ok() {
                    agree("no allocator", o, &$want);
                }
            } else {
                agree("no allocator", E.from_slice_with(nx(), $b), &$want);
            }
            let mut room = [0u8; 256];
            let al = Slice::new(&mut room);
            agree("slice allocator", E.from_slice_with(Cx(&al), $b), &$want);
            let cx = context::new_in(&al).with_trace();
            agree("traced slice allocator", E.from_slice_with(&cx, $b), &$want);
            let mut room = [0u8; 24];
            let al = Slice::new(&mut room);
            let cx = context::new_in(&al).with_trace();
            let o: Result<T, _> = E.from_slice_with(&cx, $b);
            if o.is_ok() || !$escapes {
                agree("small slice allocator", o, &$want);
            }

            // contexts
            let cx = context::new();
            agree("default context", E.from_slice_with(&cx, $b), &$want);
            let cx = context::new().with_error::<m::Error>();
            agree("context with errors", E.from_slice_with(&cx, $b), &$want);
            let cx = context::new().with_capture::<m::Error>();
            agree("capturing context", E.from_slice_with(&cx, $b), &$want);
            same!(cx.result().is_err(), $want.is_none());
            let cx = context::new().with_trace();
            agree("tracing context", E.from_slice_with(&cx, $b), &$want);
            same!(cx.errors().next().is_some(), $want.is_none());
            let cx = context::new().with_trace().with_type().with_capture::<m::Error>();
            agree("tracing and capturing context", E.from_slice_with(&cx, $b), &$want);
            same!(cx.errors().next().is_some(), $want.is_none());
            same!(cx.result().is_err(), $want.is_none());
            // what happened before does not matter
            let _: Result<bool, _> = E.from_slice_with(&cx, &[0xff; 1]);
            agree("used context", E.from_slice_with(&cx, $b), &$want);
            same!(cx.errors().next().is_some(), $want.is_none());
            same!(cx.result().is_err(), $want.is_none());
            match &$want {
                Some(..) => sym::cover(1),
                None => sym::cover(2),
            }
            sym::observe($left as u64);
        }
    };
}
macro_rules! readers {
    ($b:ident, $want:ident, $left:ident) => {{
        let mut r = SliceReader::new($b);
        agree("borrowed slice reader", E.decode_with(sx(), &mut r), &$want);
        if $want.is_some() {
            same!(r.remaining(), $left);
        }
        // exactly what is needed is enough
        let mut r = $b;
        let mut l = (&mut r).limit($b.len() - $left);
        if $want.is_some() {
            agree("limited reader", E.decode_with(sx(), &mut l), &$want);
            same!(l.remaining(), 0);
            same!(r.len(), $left);
        }
    }};
}
decodes!(de_storage, storage, Binary, false, |b, want, left| readers!(b, want, left));
decodes!(de_wire, wire, Binary, false, |b, want, left| readers!(b, want, left));
decodes!(de_packed, packed, Binary, false, |b, want, left| readers!(b, want, left));
decodes!(de_descriptive, descriptive, Binary, false, |b, want, left| readers!(b, want, left));
decodes!(de_json, json, Text, true, |b, want, left| {
    if let Ok(s) = core::str::from_utf8(b) {
        agree("from_str", m::from_str(s), &want);
        agree("Encoding::from_str", E.from_str(s), &want);
        agree("from_str_with", E.from_str_with(sx(), s), &want);
        agree("decode a string", E.decode_with(sx(), s), &want);
        let mut r = s;
        agree("decode from a mutable string", E.decode_with(sx(), &mut r), &want);
        if want.is_some() {
            same!(r.len(), left);
        }
        // what is left is a string
        let r = core::hint::black_box(r);
        if core::str::from_utf8(r.as_bytes()).is_err() {
            panic!("what is left is not UTF-8");
        }
        same!(r, &s[s.len() - r.len()..]);
    }
});

macro_rules! en {
    ($($n:ident $f:ident $m:ident $fmt:ident),*) => {$(
        fn $n() {
            match sym::pick(4) {
                0 => $f(&any::<V>()),
                1 => $f(&any::<E>()),
                2 => $f(sym::string::<2>().get()),
                _ => $f(&[any::<u8>(), any::<u8>()][..sym::pick(3)]),
            }
        }
    )*};
}
en!(
    e_storage en_storage storage Storage,
    e_wire en_wire wire Wire,
    e_packed en_packed packed Packed,
    e_descriptive en_descriptive descriptive Descriptive,
    e_json en_json json Json
);

macro_rules! de {
    ($f:ident) => {{
        let b = sym::bytes::<4>();
        match sym::pick(4) {
            0 => $f::<u16>(&b[..sym::pick(4)]),
            1 => $f::<(bool, u8)>(&b[..sym::pick(5)]),
            2 => $f::<String>(&b[..sym::pick(4)]),
            _ => $f::<E>(&b[..sym::pick(4)]),
        }
    }};
}

/// The ways out of a dynamic value.
#[inline(never)]
fn dynamic<T, U>(v: &T)
where
    T: Encode<Binary> + Encode<Text>,
    U: PartialEq + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Binary, Disabled>,
{
    use musli::Decoder;
    let d = match value::encode(v) {
        Ok(d) => d,
        Err(..) => panic!("value does not become dynamic"),
    };
    let want: Option<U> = value::decode_with::<_, _, Binary>(sx(), &d).ok();
    agree("value::decode", value::decode(&d), &want);
    agree("value::decode_with", value::decode_with::<_, _, Binary>(nx(), &d), &want);
    const O: musli::options::Options = musli::storage::OPTIONS;
    {
        use musli::de::AsDecoder;
        let e = d.as_decoder::<O, _, Binary>(sx());
        agree("as_decoder", e.as_decoder().expect("as_decoder").decode(), &want);
        agree("as_decoder again", e.as_decoder().expect("as_decoder").decode(), &want);
    }
    let cx = context::new().with_trace();
    agree("traced", value::decode_with::<_, _, Binary>(&cx, &d), &want);
    same!(cx.errors().next().is_some(), want.is_none());
    match &want {
        Some(..) => sym::cover(1),
        None => sym::cover(2),
    }
    {
        use musli::de::AsDecoder;
        let e = d.into_decoder::<O, _, Binary>(sx());
        agree("into_decoder", e.as_decoder().expect("as_decoder").decode(), &want);
    }
}

/// Documents of more than a few bytes.
#[inline(never)]
fn long_json() {
    const NUMBERS: [&[u8]; 11] = [
        b"0",
        b"-12.5",
        b"1.50000000000000000000000000000000",
        b"123456789012345678901234567890",
        b"340282366920938463463374607431768211455",
        b"0.000000000000000000000000000001",
        b"1e10",
        b"-2.5E-07",
        b"100e-2",
        b"7.",
        b"1.x",
    ];
    const TEXTS: [&[u8]; 8] = [
        b"a long string with no escapes at all",
        "\u{e9}\u{20ac}\u{1f600}".as_bytes(),
        b"\\n\\t\\u00e9",
        b"\\ud83d\\ude00 and more of it",
        b"\\ud83d",
        b"\xe2\x82",
        b"\x01",
        b"",
    ];
    let what = sym::pick(7);
    let mut b = Vec::new();
    b.extend_from_slice([&b""[..], b"", b"[", b" [ ", b"\"", b"\"", b"{\""][what]);
    if what < 4 {
        b.extend_from_slice(NUMBERS[sym::pick(11)]);
    } else {
        b.extend_from_slice(TEXTS[sym::pick(8)]);
        b.extend_from_slice(TEXTS[sym::pick(8)]);
    }
    b.extend_from_slice([&b""[..], b" ", b", 2]", b" ,\n2 ]", b"\"", b"\"", b"\" : 1}"][what]);
    match sym::pick(4) {
        0 => b.truncate(b.len() - 1),
        1 => b.extend_from_slice(" \u{e9}".as_bytes()),
        _ => {}
    }
    let v = sym::bool();
    match what {
        0 | 1 if v => de_json::<f64>(&b),
        0 => de_json::<u128>(&b),
        1 => de_json::<f32>(&b),
        2 if v => de_json::<(f64, u8)>(&b),
        2 | 3 => de_json::<Vec<f32>>(&b),
        4 if v => de_json::<Box<str>>(&b),
        4 | 5 => de_json::<String>(&b),
        _ => de_json::<BTreeMap<String, u8>>(&b),
    }
}
macro_rules! long {
    ($f:ident, $m:ident) => {{
        use musli::$m as m;
        let mut b = match sym::pick(5) {
            0 => m::to_vec(&[any::<u32>(), 1, u32::MAX][..]).expect("encode"),
            1 => m::to_vec(&"x".repeat([62, 63, 64, 130][sym::pick(4)])).expect("encode"),
            2 => m::to_vec(&[(any::<bool>(), String::from("\u{1f600}")), (true, String::new())][..]).expect("encode"),
            3 => m::to_vec(&[7u8; 70][..]).expect("encode"),
            _ => m::to_vec(&(any::<u64>(), -1i64, 7u32)).expect("encode"),
        };
        match sym::pick(4) {
            0 => b.truncate(b.len() - 1),
            1 => b.push(1),
            _ => {}
        }
        match sym::pick(5) {
            0 => $f::<Vec<u32>>(&b),
            1 => $f::<String>(&b),
            2 => $f::<Vec<(bool, String)>>(&b),
            3 => $f::<Vec<u8>>(&b),
            _ => $f::<(u64, i64, u32)>(&b),
        }
    }};
}

crate::harnesses! {
    fn h_m22_long_json() { long_json() }
    fn h_m22_long_storage() { long!(de_storage, storage) }
    fn h_m22_long_wire() { long!(de_wire, wire) }
    fn h_m22_long_descriptive() { long!(de_descriptive, descriptive) }
    fn h_m22_dynamic() {
        match sym::pick(7) {
            0 => dynamic::<u16, u8>(&any()),
            1 => dynamic::<i32, u16>(&any()),
            2 => dynamic::<(u8, bool), (bool, u8)>(&any()),
            3 => dynamic::<(u8, bool), (u8, bool)>(&any()),
            4 => dynamic::<E, E>(&any()),
            5 => dynamic::<Option<u8>, Option<bool>>(&any()),
            _ => dynamic::<V, V>(&any()),
        }
    }
    fn h_m22_en_storage() { e_storage() }
    fn h_m22_en_wire() { e_wire() }
    fn h_m22_en_packed() { e_packed() }
    fn h_m22_en_descriptive() { e_descriptive() }
    fn h_m22_en_json() { e_json() }
    fn h_m22_de_storage() { de!(de_storage) }
    fn h_m22_de_wire() { de!(de_wire) }
    fn h_m22_de_packed() { de!(de_packed) }
    fn h_m22_de_descriptive() { de!(de_descriptive) }
    fn h_m22_de_json() {
        let b = sym::bytes::<4>();
        match sym::pick(4) {
            0 => de_json::<u16>(&b[..sym::pick(4)]),
            1 => de_json::<bool>(&b[..sym::pick(5)]),
            2 => de_json::<String>(&b[..sym::pick(5)]),
            _ => de_json::<Option<bool>>(&b[..sym::pick(5)]),
        }
    }
}
