//! M17: what the derived implementations write is what their attributes say,
//! and it decodes to the value.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{any, string, vec};
use crate::rt::{buf, B};
use crate::sym::{self, Sym};
use crate::tier;
use musli::alloc::System;
use musli::en::{EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder};
use musli::mode::{Binary, Text};
use musli::{Decode, Decoder, Encode, Encoder};
use std::collections::BTreeMap;

/// What is expected to be written, written by hand.
pub enum Sh<'a> {
    U8(u8),
    U16(u16),
    U32(u32),
    Us(usize),
    I(isize),
    Bool(bool),
    Str(&'a str),
    Bytes(&'a [u8]),
    Two([u8; 2]),
    Empty,
    None,
    Some(&'a Sh<'a>),
    Same(&'a Sh<'a>),
    Map(&'a [(Sh<'a>, Sh<'a>)]),
    Seq(&'a [Sh<'a>]),
    Pack(&'a [Sh<'a>]),
    Var(&'a Sh<'a>, &'a Sh<'a>),
}
use Sh::*;
impl<'a, M> Encode<M> for Sh<'a> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        match self {
            U8(v) => e.encode_u8(*v),
            U16(v) => e.encode_u16(*v),
            U32(v) => e.encode_u32(*v),
            Us(v) => e.encode_usize(*v),
            I(v) => e.encode_isize(*v),
            Bool(v) => e.encode_bool(*v),
            Str(v) => e.encode_string(v),
            Bytes(v) => e.encode_bytes(v),
            Two(v) => e.encode_array(v),
            Empty => e.encode_empty(),
            None => e.encode_none(),
            Some(v) => {
                let e = e.encode_some()?;
                Encode::<M>::encode(*v, e)
            }
            Same(v) => Encode::<M>::encode(*v, e),
            Map(v) => e.encode_map_fn(v.len(), |m| {
                for (k, v) in *v {
                    m.encode_entry_fn(|p| {
                        Encode::<M>::encode(k, p.encode_key()?)?;
                        Encode::<M>::encode(v, p.encode_value()?)?;
                        Ok(())
                    })?;
                }
                Ok(())
            }),
            Seq(v) => e.encode_sequence_fn(v.len(), |s| {
                for v in *v {
                    Encode::<M>::encode(v, s.encode_next()?)?;
                }
                Ok(())
            }),
            Pack(v) => e.encode_pack_fn(|s| {
                for v in *v {
                    Encode::<M>::encode(v, s.encode_next()?)?;
                }
                Ok(())
            }),
            Var(t, v) => e.encode_variant_fn(|w| {
                Encode::<M>::encode(*t, w.encode_tag()?)?;
                Encode::<M>::encode(*v, w.encode_data()?)?;
                Ok(())
            }),
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

/// Writes what is expected and reads it back.
#[inline(never)]
fn one<F: Fmt, T>(v: &T, want: &Sh)
where
    T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let (mut a, mut b) = (buf::<F>(), buf::<F>());
    let m = sym::concrete(F::enc(sx(), &mut b, want).expect("encode what is expected"));
    let Ok(n) = F::enc(sx(), &mut a, v) else { panic!("value does not encode") };
    let n = sym::concrete(n);
    same!(n, m);
    same!(&a[..n], &b[..n]);
    reads::<F, T>(&a, n, v);
    sym::observe_bytes(&a[..n]);
    sym::cover(1);
}
/// What is written in `a` reads as `v`.
fn reads<F: Fmt, T>(a: &[u8], n: usize, v: &T)
where
    T: PartialEq + for<'de> Decode<'de, F::Mode, System>,
{
    let Ok(o) = F::from::<_, T>(sx(), &a[..n]) else { panic!("does not decode") };
    if !(o == *v) {
        panic!("decodes to another value");
    }
    let mut r = a;
    if let Ok(o) = F::dec::<_, T>(sx(), &mut r) {
        if !(o == *v) {
            panic!("decodes to another value when more data follows");
        }
        same!(r.len(), a.len() - n);
    } else {
        panic!("does not decode when more data follows");
    }
}
/// Other ways to write a value.
#[inline(never)]
fn alt<F: Fmt, T>(want: Option<&T>, sh: &Sh)
where
    T: PartialEq + for<'de> Decode<'de, F::Mode, System>,
{
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, sh).expect("encode"));
    match want {
        Option::Some(v) => {
            reads::<F, T>(&b, n, v);
            sym::cover(2);
        }
        Option::None => {
            if F::from::<_, T>(sx(), &b[..n]).is_ok() {
                panic!("decodes although nothing of the type is written like that");
            }
            sym::cover(3);
        }
    }
    sym::observe_bytes(&b[..n]);
}

pub trait Both: PartialEq + Encode<Binary> + Encode<Text> + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Text, System> {}
impl<T: PartialEq + Encode<Binary> + Encode<Text> + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Text, System>> Both for T {}

type StorageFix = StorageO<FIX_BE>;
/// Formats that carry their own description.
fn described<T: Both>(v: T, bin: &Sh, text: &Sh) {
    match sym::pick(2) {
        0 => one::<Descriptive, T>(&v, bin),
        _ => one::<Json, T>(&v, text),
    }
}
/// All formats.
fn full<T: Both>(v: T, bin: &Sh, text: &Sh) {
    match sym::pick(5) {
        0 => one::<Storage, T>(&v, bin),
        1 => one::<StorageFix, T>(&v, bin),
        2 => one::<Wire, T>(&v, bin),
        3 => one::<Packed, T>(&v, bin),
        _ => described(v, bin, text),
    }
}
/// All but the packed format.
fn tagged<T: Both>(v: T, bin: &Sh, text: &Sh) {
    match sym::pick(4) {
        0 => one::<Storage, T>(&v, bin),
        1 => one::<StorageFix, T>(&v, bin),
        2 => one::<Wire, T>(&v, bin),
        _ => described(v, bin, text),
    }
}
/// What something else decodes to.
fn also<T: Both>(v: Option<&T>, bin: &Sh, text: &Sh) {
    match sym::pick(4) {
        0 => alt::<Storage, T>(v, bin),
        1 => alt::<Wire, T>(v, bin),
        2 => alt::<Descriptive, T>(v, bin),
        _ => alt::<Json, T>(v, text),
    }
}

// ----- names -----

macro_rules! cases {
    ($($n:ident $e:ident $k:literal $a:literal $b:literal $v:literal $w:literal;)*) => {
        $(
            #[derive(PartialEq, Encode, Decode)]
            #[musli(name_all = $k)]
            struct $n { field_one: u8, other2_field: bool }
            #[derive(PartialEq, Encode, Decode)]
            #[musli(name_all = $k)]
            enum $e {
                FirstOne(u8),
                #[musli(name_all = $k)]
                SecondOne { field_one: u8, other2_field: bool },
            }
        )*
        fn cases() {
            let (a, b) = (any::<u8>(), any::<bool>());
            let mut i = 0;
            let k = sym::pick(2 * 7);
            $(
                if k == i {
                    let sh = &Map(&[(Str($a), U8(a)), (Str($b), Bool(b))]);
                    tagged($n { field_one: a, other2_field: b }, sh, sh);
                }
                i += 1;
                if k == i {
                    if sym::bool() {
                        let (b, t) = (&Var(&Str($v), &Map(&[(Us(0), U8(a))])), &Var(&Str($v), &Map(&[(Us(0), U8(a))])));
                        tagged($e::FirstOne(a), b, t);
                    } else {
                        let sh = &Var(&Str($w), &Map(&[(Str($a), U8(a)), (Str($b), Bool(b))]));
                        tagged($e::SecondOne { field_one: a, other2_field: b }, sh, sh);
                    }
                }
                i += 1;
            )*
        }
    };
}
cases! {
    Name NameE "name" "field_one" "other2_field" "FirstOne" "SecondOne";
    Pascal PascalE "PascalCase" "FieldOne" "Other2Field" "FirstOne" "SecondOne";
    Camel CamelE "camelCase" "fieldOne" "other2Field" "firstOne" "secondOne";
    Snake SnakeE "snake_case" "field_one" "other2_field" "first_one" "second_one";
    Scream ScreamE "SCREAMING_SNAKE_CASE" "FIELD_ONE" "OTHER2_FIELD" "FIRST_ONE" "SECOND_ONE";
    Kebab KebabE "kebab-case" "field-one" "other2-field" "first-one" "second-one";
    ScreamKebab ScreamKebabE "SCREAMING-KEBAB-CASE" "FIELD-ONE" "OTHER2-FIELD" "FIRST-ONE" "SECOND-ONE";
}

#[derive(PartialEq, Encode, Decode)]
#[musli(Text, name_all = "index")]
struct Index {
    x: u8,
    y: bool,
}
#[derive(PartialEq, Encode, Decode)]
struct ByMode {
    #[musli(Binary, name = 3)]
    #[musli(Text, name = "drei")]
    x: u8,
    y: bool,
    #[musli(Text, name = "zz")]
    z: u8,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(name_all = "kebab-case")]
struct Some1 {
    the_x: u8,
    #[musli(name = "Why Not")]
    y: bool,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(name(type = u8))]
struct Num8 {
    #[musli(name = 200)]
    x: u8,
    #[musli(name = 7)]
    y: bool,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(name(type = isize))]
struct Neg {
    #[musli(name = -200)]
    x: u8,
    #[musli(name = 7)]
    y: bool,
}
#[derive(PartialEq, Encode, Decode)]
struct Plain(u8, bool);
#[derive(PartialEq, Encode, Decode)]
#[musli(name(type = str))]
struct TupleNamed(#[musli(name = "p")] u8, #[musli(name = "q")] bool);
#[derive(PartialEq, Encode, Decode)]
struct Raw {
    r#type: u8,
    r#match: bool,
}
/// Names that are values of a type.
#[derive(Debug, PartialEq, Eq, Clone, Copy, Encode, Decode)]
#[musli(transparent)]
pub struct Tag16(pub u16);
#[derive(PartialEq, Encode, Decode)]
#[musli(name(type = Tag16, format_with = tag16))]
struct ByTag {
    #[musli(name = Tag16(513))]
    x: u8,
    #[musli(name = Tag16(1))]
    y: bool,
}
fn tag16(t: &Tag16) -> u16 {
    t.0
}
#[derive(PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
enum OwnNames {
    #[musli(name = 5, name(type = Tag16, format_with = tag16))]
    A {
        #[musli(name = Tag16(300))]
        x: u8,
        #[musli(name = Tag16(2))]
        y: bool,
    },
    #[musli(name = 6, name_all = "name")]
    B { x: u8, y: bool },
    #[musli(name = 7, name(type = str))]
    C { x: u8 },
}
fn show(_: &[u8]) -> &'static str {
    "bytes"
}
/// Names that are bytes.
#[derive(PartialEq, Encode, Decode)]
#[musli(Binary, name(type = [u8], format_with = show))]
struct ByBytes {
    #[musli(Binary, name = b"ab\0")]
    x: u8,
    #[musli(Binary, name = b"a")]
    y: bool,
}
fn names() {
    let (a, b) = (any::<u8>(), any::<bool>());
    match sym::pick(11) {
        0 => {
            let sh = &Map(&[(Us(0), U8(a)), (Us(1), Bool(b))]);
            tagged(Index { x: a, y: b }, sh, sh)
        }
        1 => {
            let c = any();
            tagged(
                ByMode { x: a, y: b, z: c },
                &Map(&[(Us(3), U8(a)), (Us(1), Bool(b)), (Us(2), U8(c))]),
                &Map(&[(Str("drei"), U8(a)), (Str("y"), Bool(b)), (Str("zz"), U8(c))]),
            )
        }
        2 => {
            let sh = &Map(&[(Str("the-x"), U8(a)), (Str("Why Not"), Bool(b))]);
            tagged(Some1 { the_x: a, y: b }, sh, sh)
        }
        3 => {
            let sh = &Map(&[(U8(200), U8(a)), (U8(7), Bool(b))]);
            tagged(Num8 { x: a, y: b }, sh, sh)
        }
        4 => {
            let sh = &Map(&[(I(-200), U8(a)), (I(7), Bool(b))]);
            tagged(Neg { x: a, y: b }, sh, sh)
        }
        5 => {
            let sh = &Map(&[(Us(0), U8(a)), (Us(1), Bool(b))]);
            tagged(Plain(a, b), sh, sh)
        }
        6 => {
            let sh = &Map(&[(Str("p"), U8(a)), (Str("q"), Bool(b))]);
            tagged(TupleNamed(a, b), sh, sh)
        }
        7 => tagged(
            Raw { r#type: a, r#match: b },
            &Map(&[(Us(0), U8(a)), (Us(1), Bool(b))]),
            &Map(&[(Str("type"), U8(a)), (Str("match"), Bool(b))]),
        ),
        8 => {
            let sh = &Map(&[(U16(513), U8(a)), (U16(1), Bool(b))]);
            tagged(ByTag { x: a, y: b }, sh, sh)
        }
        9 => match sym::pick(3) {
            0 => {
                let sh = &Var(&Us(5), &Map(&[(U16(300), U8(a)), (U16(2), Bool(b))]));
                tagged(OwnNames::A { x: a, y: b }, sh, sh)
            }
            1 => {
                let sh = &Var(&Us(6), &Map(&[(Str("x"), U8(a)), (Str("y"), Bool(b))]));
                tagged(OwnNames::B { x: a, y: b }, sh, sh)
            }
            _ => {
                let sh = &Var(&Us(7), &Map(&[(Str("x"), U8(a))]));
                tagged(OwnNames::C { x: a }, sh, sh)
            }
        },
        _ => tagged(
            ByBytes { x: a, y: b },
            &Map(&[(Bytes(b"ab\0"), U8(a)), (Bytes(b"a"), Bool(b))]),
            &Map(&[(Str("x"), U8(a)), (Str("y"), Bool(b))]),
        ),
    }
}

// ----- presence -----

fn seven() -> u8 {
    7
}
fn is_seven(v: &u8) -> bool {
    *v == 7
}
#[derive(PartialEq, Clone, Encode, Decode)]
struct Present {
    #[musli(skip)]
    gone: u8,
    a: u8,
    #[musli(skip, default = seven)]
    seven: u8,
    #[musli(default = seven, skip_encoding_if = is_seven)]
    b: u8,
    #[musli(default, skip_encoding_if = Option::is_none)]
    c: Option<u8>,
    #[musli(default)]
    d: bool,
}
fn entries(v: &Present, text: bool, f: impl FnOnce(&[(Sh, Sh)])) {
    let k = |i: usize, s: &'static str| if text { Str(s) } else { Us(i) };
    let c = v.c.map(U8);
    let mut es = Vec::new();
    es.push((k(1, "a"), U8(v.a)));
    if v.b != 7 {
        es.push((k(3, "b"), U8(v.b)));
    }
    if let Option::Some(c) = &c {
        es.push((k(4, "c"), Some(c)));
    }
    es.push((k(5, "d"), Bool(v.d)));
    f(&es)
}
/// Skipped and defaulted fields of structs.
fn presence() {
    let v = Present { gone: 0, a: any(), seven: 7, b: any(), c: any(), d: any() };
    match sym::pick(3) {
        0 => {
            // fields which are not encoded come back as their default
            let w = Present { gone: any(), seven: any(), ..v.clone() };
            entries(&v, false, |b| entries(&v, true, |t| {
                match sym::pick(4) {
                    0 => lossy::<Storage>(&w, &v, &Map(b)),
                    1 => lossy::<Wire>(&w, &v, &Map(b)),
                    2 => lossy::<Descriptive>(&w, &v, &Map(b)),
                    _ => lossy::<Json>(&w, &v, &Map(t)),
                }
            }))
        }
        1 => entries(&v, false, |b| entries(&v, true, |t| tagged(v.clone(), &Map(b), &Map(t)))),
        _ => {
            // nothing but the required field, and not even that
            let p = Present { gone: 0, a: v.a, seven: 7, b: 7, c: Option::None, d: false };
            if sym::bool() {
                also(Option::Some(&p), &Map(&[(Us(1), U8(v.a))]), &Map(&[(Str("a"), U8(v.a))]))
            } else {
                also::<Present>(Option::None, &Map(&[(Us(5), Bool(v.d))]), &Map(&[(Str("d"), Bool(v.d))]))
            }
        }
    }
}
fn lossy<F: Fmt>(w: &Present, v: &Present, want: &Sh)
where
    Present: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let (mut a, mut b) = (buf::<F>(), buf::<F>());
    let m = sym::concrete(F::enc(sx(), &mut b, want).expect("encode"));
    let n = sym::concrete(F::enc(sx(), &mut a, w).expect("encode"));
    same!(n, m);
    same!(&a[..n], &b[..n]);
    reads::<F, _>(&a, n, v);
    sym::cover(1);
}

#[derive(PartialEq, Encode, Decode)]
struct TupleSkip(#[musli(skip)] u8, u8, #[musli(default, skip_encoding_if = Option::is_none)] Option<bool>);

/// The same in the variants of enums, each with its own number of fields.
#[derive(PartialEq, Encode, Decode)]
enum SkipVar {
    A {
        #[musli(default, skip_encoding_if = Option::is_none)]
        x: Option<u8>,
        #[musli(default = seven, skip_encoding_if = is_seven)]
        y: u8,
        z: bool,
    },
    B(#[musli(default, skip_encoding_if = Option::is_none)] Option<u8>),
    C(u8),
}
#[derive(PartialEq, Encode, Decode)]
#[musli(tag = "t", name(type = str), name_all = "name")]
enum SkipTag {
    #[musli(name_all = "name")]
    A {
        #[musli(default, skip_encoding_if = Option::is_none)]
        x: Option<u8>,
        #[musli(default = seven, skip_encoding_if = is_seven)]
        y: u8,
        z: bool,
    },
    #[musli(name_all = "name")]
    B {
        #[musli(skip)]
        x: u8,
    },
}
#[derive(PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c", name_all = "name")]
enum SkipAdj {
    #[musli(name_all = "name")]
    A {
        #[musli(default, skip_encoding_if = Option::is_none)]
        x: Option<u8>,
        #[musli(default = seven, skip_encoding_if = is_seven)]
        y: u8,
        z: bool,
    },
    B(#[musli(default, skip_encoding_if = Option::is_none)] Option<u8>),
}
#[derive(PartialEq, Encode, Decode)]
#[musli(untagged)]
enum SkipUn {
    #[musli(name_all = "name")]
    A {
        #[musli(default, skip_encoding_if = Option::is_none)]
        x: Option<u8>,
        #[musli(default = seven, skip_encoding_if = is_seven)]
        y: u8,
        z: bool,
    },
    #[musli(transparent)]
    B(u8),
}
fn abc<'a>(x: &'a Option<Sh<'a>>, y: u8, z: bool, name: bool, first: Option<(Sh<'a>, Sh<'a>)>) -> Vec<(Sh<'a>, Sh<'a>)> {
    let k = |i: usize, s: &'static str| if name { Str(s) } else { Us(i) };
    let mut es: Vec<_> = first.into_iter().collect();
    if let Option::Some(x) = x {
        es.push((k(0, "x"), Some(x)));
    }
    if y != 7 {
        es.push((k(1, "y"), U8(y)));
    }
    es.push((k(2, "z"), Bool(z)));
    es
}
fn skip_variants() {
    let (x, y, z) = (any::<Option<u8>>(), any::<u8>(), any::<bool>());
    let xs = x.map(U8);
    match sym::pick(8) {
        0 => tagged(
            SkipVar::A { x, y, z },
            &Var(&Us(0), &Map(&abc(&xs, y, z, false, Option::None))),
            &Var(&Str("A"), &Map(&abc(&xs, y, z, true, Option::None))),
        ),
        1 => {
            let es: Vec<_> = xs.iter().map(|x| (Us(0), Some(x))).collect();
            tagged(SkipVar::B(x), &Var(&Us(1), &Map(&es)), &Var(&Str("B"), &Map(&es)))
        }
        2 => tagged(SkipVar::C(y), &Var(&Us(2), &Map(&[(Us(0), U8(y))])), &Var(&Str("C"), &Map(&[(Us(0), U8(y))]))),
        3 => {
            let sh = &Map(&abc(&xs, y, z, true, Option::Some((Str("t"), Str("A")))));
            described(SkipTag::A { x, y, z }, sh, sh)
        }
        4 => {
            let sh = &Map(&[(Str("t"), Str("B"))]);
            described(SkipTag::B { x: 0 }, sh, sh)
        }
        5 => {
            let sh = &Map(&[(Str("t"), Str("A")), (Str("c"), Map(&abc(&xs, y, z, true, Option::None)))]);
            tagged(SkipAdj::A { x, y, z }, sh, sh)
        }
        6 => {
            let es: Vec<_> = xs.iter().map(|x| (Us(0), Some(x))).collect();
            let sh = &Map(&[(Str("t"), Str("B")), (Str("c"), Map(&es))]);
            tagged(SkipAdj::B(x), sh, sh)
        }
        _ => {
            let es: Vec<_> = xs.iter().map(|x| (Us(2), Some(x))).collect();
            let sh: Vec<_> = [(Us(1), U8(y))].into_iter().chain(es).collect();
            tagged(TupleSkip(0, y, x.map(|x| x > 100)), &{ let _ = &sh; Map(&tuple_skip(y, &x.map(|x| Bool(x > 100)))) }, &Map(&tuple_skip(y, &x.map(|x| Bool(x > 100)))))
        }
    }
}
fn tuple_skip<'a>(y: u8, x: &'a Option<Sh<'a>>) -> Vec<(Sh<'a>, Sh<'a>)> {
    let mut es = vec![(Us(1), U8(y))];
    if let Option::Some(x) = x {
        es.push((Us(2), Some(x)));
    }
    es
}
fn skip_untagged() {
    let (x, y, z) = (any::<Option<u8>>(), any::<u8>(), any::<bool>());
    let xs = x.map(U8);
    match sym::pick(2) {
        0 => {
            let sh = &Map(&abc(&xs, y, z, true, Option::None));
            described(SkipUn::A { x, y, z }, sh, sh)
        }
        _ => described(SkipUn::B(y), &U8(y), &U8(y)),
    }
}
// ----- enum representations -----

#[derive(PartialEq, Encode, Decode)]
enum Ext {
    Unit,
    New(u8),
    Two(u8, bool),
    Rec {
        x: u8,
        #[musli(Text, name = "why")]
        y: bool,
    },
    #[musli(transparent)]
    Thru(u16),
    #[musli(transparent)]
    ThruRec { only: Plain },
    #[musli(packed)]
    Pk(u8, u16),
    #[musli(Text, name = "Renamed")]
    #[musli(Binary, name = 300)]
    Other(u8),
    Nothing {},
}
fn external() {
    let (a, b) = (any::<u8>(), any::<bool>());
    match sym::pick(9) {
        0 => tagged(Ext::Unit, &Var(&Us(0), &Map(&[])), &Var(&Str("Unit"), &Map(&[]))),
        1 => tagged(Ext::New(a), &Var(&Us(1), &Map(&[(Us(0), U8(a))])), &Var(&Str("New"), &Map(&[(Us(0), U8(a))]))),
        2 => {
            let m = Map(&[(Us(0), U8(a)), (Us(1), Bool(b))]);
            tagged(Ext::Two(a, b), &Var(&Us(2), &m), &Var(&Str("Two"), &m))
        }
        3 => tagged(
            Ext::Rec { x: a, y: b },
            &Var(&Us(3), &Map(&[(Us(0), U8(a)), (Us(1), Bool(b))])),
            &Var(&Str("Rec"), &Map(&[(Str("x"), U8(a)), (Str("why"), Bool(b))])),
        ),
        4 => {
            let v = any();
            tagged(Ext::Thru(v), &Var(&Us(4), &U16(v)), &Var(&Str("Thru"), &U16(v)))
        }
        5 => {
            let m = Map(&[(Us(0), U8(a)), (Us(1), Bool(b))]);
            tagged(Ext::ThruRec { only: Plain(a, b) }, &Var(&Us(5), &m), &Var(&Str("ThruRec"), &m))
        }
        6 => {
            let c = any();
            tagged(Ext::Pk(a, c), &Var(&Us(6), &Pack(&[U8(a), U16(c)])), &Var(&Str("Pk"), &Pack(&[U8(a), U16(c)])))
        }
        7 => tagged(Ext::Other(a), &Var(&Us(300), &Map(&[(Us(0), U8(a))])), &Var(&Str("Renamed"), &Map(&[(Us(0), U8(a))]))),
        _ => tagged(Ext::Nothing {}, &Var(&Us(8), &Map(&[])), &Var(&Str("Nothing"), &Map(&[]))),
    }
}

/// Enums without any data are their name.
#[derive(PartialEq, Clone, Encode, Decode)]
enum Bare {
    One,
    #[musli(Binary, name = 9)]
    #[musli(Text, name = "deux")]
    Two,
    Three,
}
#[derive(PartialEq, Clone, Encode, Decode)]
#[musli(name(type = u8))]
enum Fall {
    #[musli(name = 3)]
    A,
    #[musli(pattern = 10..=19)]
    #[musli(name = 10)]
    B,
    #[musli(name = 100, pattern = (100 | 200..=210))]
    C,
    #[musli(name = 0, default)]
    Rest,
}
#[derive(PartialEq, Clone, Encode, Decode)]
#[musli(name(type = u8))]
enum Strict {
    #[musli(name = 3)]
    A,
    #[musli(name = 10, pattern = 10..=19)]
    B,
}
#[derive(PartialEq, Clone, Encode, Decode)]
#[musli(name_all = "kebab-case")]
enum Words {
    FirstWord,
    Second,
    #[musli(default)]
    Unknown,
}
fn bare() {
    match sym::pick(7) {
        0 => tagged(Bare::One, &Us(0), &Str("One")),
        1 => tagged(Bare::Two, &Us(9), &Str("deux")),
        2 => tagged(Bare::Three, &Us(2), &Str("Three")),
        3 => {
            let (v, n) = [(Fall::A, 3), (Fall::B, 10), (Fall::C, 100), (Fall::Rest, 0)][sym::pick(4)].clone();
            tagged(v, &U8(n), &U8(n))
        }
        4 => {
            // any number: patterns, then the default
            let n = any::<u8>();
            let v = match n {
                3 => Fall::A,
                10..=19 => Fall::B,
                100 | 200..=210 => Fall::C,
                _ => Fall::Rest,
            };
            also(Option::Some(&v), &U8(n), &U8(n))
        }
        5 => {
            let n = any::<u8>();
            let v = match n {
                3 => Option::Some(Strict::A),
                10..=19 => Option::Some(Strict::B),
                _ => Option::None,
            };
            also(v.as_ref(), &U8(n), &U8(n))
        }
        _ => {
            let s = sym::string::<{ tier(2, 3) }>();
            let s = ["first-word", "second", "unknown", s.get()][sym::pick(4)];
            let v = match s {
                "first-word" => Words::FirstWord,
                "second" => Words::Second,
                _ => Words::Unknown,
            };
            also(Option::Some(&v), &Str(s), &Str(s))
        }
    }
}
impl Sym for Plain {
    fn sym() -> Self {
        Plain(any(), any())
    }
}

/// Patterns and defaults where variants carry data.
#[derive(PartialEq, Clone, Encode, Decode)]
#[musli(name(type = u8))]
enum FallData {
    #[musli(name = 3)]
    A(u8),
    #[musli(name = 10, pattern = 10..=19)]
    B(u8, #[musli(default)] bool),
    #[musli(name = 0, default)]
    Rest,
}
#[derive(PartialEq, Clone, Encode, Decode)]
#[musli(name(type = u8))]
struct FieldPat {
    #[musli(name = 1)]
    a: u8,
    #[musli(name = 10, pattern = (10 | 20..=29))]
    b: u8,
}
fn patterns() {
    let (n, a) = (any::<u8>(), any::<u8>());
    match sym::pick(2) {
        0 => {
            let v = match n {
                3 => FallData::A(a),
                10..=19 => FallData::B(a, false),
                _ => FallData::Rest,
            };
            let sh = &Var(&U8(n), &Map(&[(Us(0), U8(a))]));
            let _ = &v;
            match v {
                // the default takes no data, and what is there is skipped
                FallData::Rest => match sym::pick(3) {
                    0 => alt::<Wire, _>(Option::Some(&v), sh),
                    1 => alt::<Descriptive, _>(Option::Some(&v), sh),
                    _ => alt::<Json, _>(Option::Some(&v), sh),
                },
                _ => also(Option::Some(&v), sh, sh),
            }
        }
        _ => {
            let b = any();
            let ok = matches!(n, 10 | 20..=29);
            let v = FieldPat { a, b };
            let sh = &Map(&[(U8(n), U8(b)), (U8(1), U8(a))]);
            sym::assume(n != 1);
            also(if ok { Option::Some(&v) } else { Option::None }, sh, sh)
        }
    }
}

#[derive(PartialEq, Encode, Decode)]
#[musli(tag = "kind", name_all = "kebab-case")]
enum Int {
    #[musli(name_all = "name")]
    RecOne { x: u8, y: Option<bool> },
    Unit,
    #[musli(name_all = "name")]
    Empty {},
    #[musli(transparent)]
    Thru(IntInner),
    #[musli(transparent)]
    Deep(IntNum),
}
#[derive(PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct IntInner {
    p: u8,
    #[musli(default, skip_encoding_if = Option::is_none)]
    q: Option<u8>,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(tag(value = "num", type = str), name(type = u16))]
enum IntNum {
    #[musli(name = 300, name_all = "name")]
    A { x: u8 },
    #[musli(name = 1, name_all = "name")]
    B { y: u8 },
}
#[derive(PartialEq, Encode, Decode)]
#[musli(tag(value = 10, type = u8), name(type = u8))]
enum IntKeys {
    #[musli(name = 1, name(type = u8))]
    A {
        #[musli(name = 4)]
        x: u8,
        #[musli(name = 250)]
        y: bool,
    },
    #[musli(name = 2)]
    B,
}
fn internal() {
    let (a, b) = (any::<u8>(), any::<bool>());
    let t = |s| (Str("kind"), Str(s));
    match sym::pick(8) {
        0 => {
            let y = any::<Option<bool>>();
            let yb = y.map(Bool);
            let sh = &Map(&[t("rec-one"), (Str("x"), U8(a)), (Str("y"), match &yb { Option::Some(y) => Some(y), _ => None })]);
            described(Int::RecOne { x: a, y }, sh, sh)
        }
        1 => described(Int::Unit, &Map(&[t("unit")]), &Map(&[t("unit")])),
        2 => described(Int::Empty {}, &Map(&[t("empty")]), &Map(&[t("empty")])),
        3 => {
            let q = any::<Option<u8>>();
            let qs = q.map(U8);
            let mut es = vec![t("thru"), (Str("p"), U8(a))];
            if let Option::Some(q) = &qs {
                es.push((Str("q"), Some(q)));
            }
            described(Int::Thru(IntInner { p: a, q }), &Map(&es), &Map(&es))
        }
        4 => {
            let sh = &Map(&[t("deep"), (Str("num"), U16(300)), (Str("x"), U8(a))]);
            described(Int::Deep(IntNum::A { x: a }), sh, sh)
        }
        5 => {
            let sh = &Map(&[(Str("num"), U16(1)), (Str("y"), U8(a))]);
            described(IntNum::B { y: a }, sh, sh)
        }
        6 => {
            let sh = &Map(&[(U8(10), U8(1)), (U8(4), U8(a)), (U8(250), Bool(b))]);
            described(IntKeys::A { x: a, y: b }, sh, sh)
        }
        _ => described(IntKeys::B, &Map(&[(U8(10), U8(2))]), &Map(&[(U8(10), U8(2))])),
    }
}
/// The tag may be anywhere.
fn internal_order() {
    let (a, b) = (any::<u8>(), any::<bool>());
    let v = IntKeys::A { x: a, y: b };
    let es: [fn(u8, bool) -> (Sh<'static>, Sh<'static>); 3] = [|_, _| (U8(10), U8(1)), |a, _| (U8(4), U8(a)), |_, b| (U8(250), Bool(b))];
    let [i, j, k] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][sym::pick(6)];
    let sh = &Map(&[es[i](a, b), es[j](a, b), es[k](a, b)]);
    match sym::pick(3) {
        0 => alt::<Descriptive, _>(Option::Some(&v), sh),
        1 => alt::<Json, _>(Option::Some(&v), sh),
        // without its tag, or with another
        _ => {
            let n = any::<u8>();
            sym::assume(n != 1 && n != 2);
            let sh = &Map(&[es[1](a, b), (U8(10), U8(n)), es[2](a, b)]);
            let un = &Map(&[es[1](a, b), es[2](a, b)]);
            match sym::pick(4) {
                0 => alt::<Descriptive, IntKeys>(Option::None, sh),
                1 => alt::<Json, IntKeys>(Option::None, sh),
                2 => alt::<Descriptive, IntKeys>(Option::None, un),
                _ => alt::<Json, IntKeys>(Option::None, un),
            }
        }
    }
}

/// What formats buffer to find the tag decodes as if it was read directly.
macro_rules! held {
    ($($n:ident($t:ty) = $v:expr;)*) => {
        $(
            #[derive(PartialEq, Encode, Decode)]
            #[musli(tag = "t", name_all = "name")]
            enum $n {
                #[musli(name_all = "name")]
                A { x: $t },
                #[musli(name_all = "name")]
                B { x: u8, y: $t },
            }
        )*
        fn held(from: u8, to: u8) {
            let k = sym::pick(to - from) + from as usize;
            let mut i = 0;
            $(
                if k == i {
                    let v = if sym::bool() { $n::A { x: $v } } else { $n::B { x: 1, y: $v } };
                    match sym::pick(2) {
                        0 => back::<Descriptive, _>(&v),
                        _ => back::<Json, _>(&v),
                    }
                }
                i += 1;
            )*
            let _ = i;
        }
    };
}
#[inline(never)]
fn back<F: Fmt, T>(v: &T)
where
    T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let mut a = buf::<F>();
    let Ok(n) = F::enc(sx(), &mut a, v) else { panic!("value does not encode") };
    let n = sym::concrete(n);
    reads::<F, T>(&a, n, v);
    sym::observe_bytes(&a[..n]);
    sym::cover(1);
}
#[derive(PartialEq, Encode, Decode)]
enum Inner {
    U,
    N(u8),
    #[musli(transparent)]
    T(bool),
    #[musli(name_all = "name")]
    R { x: Option<u8> },
}
#[derive(PartialEq, Encode, Decode)]
#[musli(name(type = u8))]
enum Numbered {
    #[musli(name = 3)]
    A(u8),
    #[musli(name = 200, transparent)]
    B(bool),
}
#[derive(PartialEq, Encode, Decode)]
struct InBytes(#[musli(bytes)] Vec<u8>, #[musli(bytes)] [u8; 2]);
#[derive(PartialEq, Encode, Decode)]
#[musli(untagged)]
enum InAny {
    #[musli(transparent)]
    A(u8),
    #[musli(transparent)]
    B(bool),
    #[musli(transparent)]
    C(Vec<u8>),
}
fn inner() -> Inner {
    match sym::pick(4) {
        0 => Inner::U,
        1 => Inner::N(any()),
        2 => Inner::T(any()),
        _ => Inner::R { x: any() },
    }
}
fn float64() -> f64 {
    [0.0, -0.0, 0.3, -0.3, 1.0, -1.0, 255.0, 1e300, 5e-324, f64::MAX, 123456789.125, 0.1 + 0.2][sym::pick(12)]
}
fn float32() -> f32 {
    [0.0, -0.0, 0.3, -0.3, 1.0, -1.0, 255.0, 1e30, 1e-45, f32::MAX, 12345.125, 16777216.0][sym::pick(12)]
}
held! {
    HU8(u8) = any();
    HI8(i8) = any();
    HBool(bool) = any();
    HChar(char) = sym::char();
    HText(String) = string::<2>();
    HOpt(Option<bool>) = any();
    HOpts(Vec<Option<bool>>) = vec::<Option<bool>, 2>();
    HOptOpt(Option<Option<bool>>) = any::<Option<bool>>().map(Option::Some);
    HUnit(()) = ();
    HPair((u8, bool)) = (7, any());
    HArr([bool; 2]) = any();
    HSeq(Vec<bool>) = vec::<bool, 2>();
    HTable(BTreeMap<u8, bool>) = [(any(), true)].into_iter().collect();
    HTable2(BTreeMap<String, Option<bool>>) = [("k".to_string(), any()), ("l".to_string(), Option::None)].into_iter().collect();
    HBytes(InBytes) = InBytes(vec![1, 2][..sym::pick(3)].to_vec(), [any(), 3]);
    HInner(Inner) = inner();
    HNumbered(Numbered) = if sym::bool() { Numbered::A(any()) } else { Numbered::B(any()) };
    HRes(Result<bool, u8>) = if sym::bool() { Ok(any()) } else { Err(any()) };
    HRec(IntInner) = IntInner { p: 1, q: any() };
    HDeep(IntNum) = IntNum::A { x: any() };
    HAny(InAny) = match sym::pick(3) { 0 => InAny::A(any()), 1 => InAny::B(any()), _ => InAny::C(vec![any()]) };
    HBox(Box<bool>) = Box::new(any());
    HPath(std::path::PathBuf) = "a/b".into();
    HC(std::ffi::CString) = std::ffi::CString::new(&b"ab"[..sym::pick(3)]).unwrap();
    HIp(std::net::Ipv4Addr) = [127, 0, any(), 1].into();
    HF64(f64) = float64();
    HF32(f32) = float32();
    HU64(u64) = [0, 1 << 32, u64::MAX, 999][sym::pick(4)];
    HI64(i64) = [0, i64::MIN, i64::MAX, -129][sym::pick(4)];
    HU128(u128) = [0, 1 << 64, u128::MAX][sym::pick(3)];
    HI128(i128) = [0, i128::MIN, i128::MAX][sym::pick(3)];
}

#[derive(PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
enum Adj {
    Unit,
    New(u8),
    #[musli(name_all = "name")]
    Rec { x: u8, y: bool },
    #[musli(transparent)]
    Thru(u16),
}
#[derive(PartialEq, Encode, Decode)]
#[musli(tag(value = 10, type = u8), content(value = 20, type = u8), name(type = u8))]
enum AdjNum {
    #[musli(name = 100)]
    A(u8),
    #[musli(name = 200)]
    B { x: bool },
}
fn adjacent() {
    let (a, b) = (any::<u8>(), any::<bool>());
    macro_rules! both {
        ($v:expr, $n:literal, $s:literal, $c:expr) => {
            tagged($v, &Map(&[(Str("t"), Us($n)), (Str("c"), $c)]), &Map(&[(Str("t"), Str($s)), (Str("c"), $c)]))
        };
    }
    match sym::pick(7) {
        0 => both!(Adj::Unit, 0, "Unit", Map(&[])),
        1 => both!(Adj::New(a), 1, "New", Map(&[(Us(0), U8(a))])),
        2 => both!(Adj::Rec { x: a, y: b }, 2, "Rec", Map(&[(Str("x"), U8(a)), (Str("y"), Bool(b))])),
        3 => {
            let v = any();
            both!(Adj::Thru(v), 3, "Thru", U16(v))
        }
        4 => {
            let sh = &Map(&[(U8(10), U8(100)), (U8(20), Map(&[(Us(0), U8(a))]))]);
            tagged(AdjNum::A(a), sh, sh)
        }
        5 => tagged(
            AdjNum::B { x: b },
            &Map(&[(U8(10), U8(200)), (U8(20), Map(&[(Us(0), Bool(b))]))]),
            &Map(&[(U8(10), U8(200)), (U8(20), Map(&[(Str("x"), Bool(b))]))]),
        ),
        _ => {
            // any other tag is refused
            let n = any::<u8>();
            let v = AdjNum::A(a);
            sym::assume(n != 200);
            let sh = &Map(&[(U8(10), U8(n)), (U8(20), Map(&[(Us(0), U8(a))]))]);
            also(if n == 100 { Option::Some(&v) } else { Option::None }, sh, sh)
        }
    }
}

#[derive(PartialEq, Encode, Decode)]
#[musli(untagged)]
enum Un {
    #[musli(name_all = "name")]
    Rec { x: u8, y: bool },
    #[musli(transparent)]
    Num(u8),
    #[musli(name_all = "name")]
    Rec2 { z: bool },
    #[musli(packed)]
    Pk(u8, bool),
    #[musli(transparent)]
    Text(String),
}
fn untagged() {
    let (a, b) = (any::<u8>(), any::<bool>());
    macro_rules! both {
        ($v:expr, $c:expr) => {
            described($v, $c, $c)
        };
    }
    match sym::pick(5) {
        0 => both!(Un::Rec { x: a, y: b }, &Map(&[(Str("x"), U8(a)), (Str("y"), Bool(b))])),
        1 => both!(Un::Num(a), &U8(a)),
        2 => both!(Un::Rec2 { z: b }, &Map(&[(Str("z"), Bool(b))])),
        3 => both!(Un::Pk(a, b), &Pack(&[U8(a), Bool(b)])),
        _ => {
            let s = sym::string::<2>();
            both!(Un::Text(s.get().to_string()), &Str(s.get()))
        }
    }
}
/// Followed by something else.
#[derive(PartialEq, Encode, Decode)]
struct HoldUn {
    a: u8,
    un: Un,
    z: bool,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(untagged)]
enum UnFirst {
    #[musli(packed)]
    Pk(u8, u16),
    Rec { x: u8, y: bool },
}
#[derive(PartialEq, Encode, Decode)]
struct HoldFirst {
    un: Vec<UnFirst>,
    z: bool,
}
fn untagged_held() {
    let (a, b, c) = (any::<u8>(), any::<bool>(), any::<u16>());
    match sym::pick(4) {
        0 => {
            let (un, sh) = match sym::pick(4) {
                0 => (Un::Rec { x: a, y: b }, &Map(&[(Str("x"), U8(a)), (Str("y"), Bool(b))])),
                1 => (Un::Num(a), &U8(a)),
                2 => (Un::Rec2 { z: b }, &Map(&[(Str("z"), Bool(b))])),
                _ => (Un::Text("ab".to_string()), &Str("ab")),
            };
            described(
                HoldUn { a: 7, un, z: true },
                &Map(&[(Us(0), U8(7)), (Us(1), Same(sh)), (Us(2), Bool(true))]),
                &Map(&[(Str("a"), U8(7)), (Str("un"), Same(sh)), (Str("z"), Bool(true))]),
            )
        }
        1 => described(
            vec![Un::Num(a), Un::Rec2 { z: b }, Un::Rec { x: a, y: b }],
            &Seq(&[U8(a), Map(&[(Str("z"), Bool(b))]), Map(&[(Str("x"), U8(a)), (Str("y"), Bool(b))])]),
            &Seq(&[U8(a), Map(&[(Str("z"), Bool(b))]), Map(&[(Str("x"), U8(a)), (Str("y"), Bool(b))])]),
        ),
        // what is written is never ambiguous when the first variant is used
        2 => tagged(UnFirst::Pk(a, c), &Pack(&[U8(a), U16(c)]), &Pack(&[U8(a), U16(c)])),
        _ => tagged(
            HoldFirst { un: vec![UnFirst::Pk(a, c), UnFirst::Pk(1, 2)], z: b },
            &Map(&[(Us(0), Seq(&[Pack(&[U8(a), U16(c)]), Pack(&[U8(1), U16(2)])])), (Us(1), Bool(b))]),
            &Map(&[(Str("un"), Seq(&[Pack(&[U8(a), U16(c)]), Pack(&[U8(1), U16(2)])])), (Str("z"), Bool(b))]),
        ),
    }
}

// ----- how fields are encoded -----

mod flip {
    use musli::{Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &u8, e: E) -> Result<(), E::Error> {
        e.encode_u16(*v as u16 + 1000)
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u8, D::Error> {
        Ok((d.decode_u16()? - 1000) as u8)
    }
}
mod wrap {
    use musli::{Decode, Decoder, Encode, Encoder};
    pub fn encode<E: Encoder, T: Encode<E::Mode>>(v: &super::Holds<T>, e: E) -> Result<(), E::Error> {
        e.encode(&v.0)
    }
    pub fn decode<'de, D: Decoder<'de>, T: Decode<'de, D::Mode, D::Allocator>>(d: D) -> Result<super::Holds<T>, D::Error> {
        d.decode().map(super::Holds)
    }
}
#[derive(PartialEq)]
pub struct Holds<T>(T);
#[derive(PartialEq, Encode, Decode)]
struct Ways {
    #[musli(with = self::flip)]
    a: u8,
    #[musli(with = self::wrap)]
    b: Holds<u16>,
    #[musli(bytes)]
    c: Vec<u8>,
    #[musli(bytes)]
    d: [u8; 2],
    #[musli(packed)]
    e: (u8, u16),
    #[musli(packed)]
    f: [u8; 2],
    g: [u8; 2],
    h: (u8, bool),
}
fn ways() {
    // one field at a time
    let k = sym::pick(8);
    fn at<T: Sym>(k: usize, i: usize, d: T) -> T {
        if k == i {
            any()
        } else {
            d
        }
    }
    let n = if k == 2 { sym::pick(3) } else { 1 };
    let cs: [u8; 2] = at(k, 2, [1, 2]);
    let (a, b, d, e) = (at(k, 0, 3u8), at(k, 1, 4u16), at(k, 3, [5u8, 6]), at(k, 4, (7u8, 8u16)));
    let (f, g, h) = (at(k, 5, [9u8, 10]), at(k, 6, [11u8, 12]), at(k, 7, (13u8, true)));
    let v = Ways { a, b: Holds(b), c: cs[..n].to_vec(), d, e, f, g, h };
    let vals = || [
        U16(a as u16 + 1000),
        U16(b),
        Bytes(&cs[..n]),
        Two(d),
    ];
    let [v0, v1, v2, v3] = vals();
    let [w0, w1, w2, w3] = vals();
    tagged(
        v,
        &Map(&[
            (Us(0), v0),
            (Us(1), v1),
            (Us(2), v2),
            (Us(3), v3),
            (Us(4), Pack(&[U8(e.0), U16(e.1)])),
            (Us(5), Pack(&[U8(f[0]), U8(f[1])])),
            (Us(6), Seq(&[U8(g[0]), U8(g[1])])),
            (Us(7), Seq(&[U8(h.0), Bool(h.1)])),
        ]),
        &Map(&[
            (Str("a"), w0),
            (Str("b"), w1),
            (Str("c"), w2),
            (Str("d"), w3),
            (Str("e"), Pack(&[U8(e.0), U16(e.1)])),
            (Str("f"), Pack(&[U8(f[0]), U8(f[1])])),
            (Str("g"), Seq(&[U8(g[0]), U8(g[1])])),
            (Str("h"), Seq(&[U8(h.0), Bool(h.1)])),
        ]),
    )
}

// ----- containers -----

#[derive(PartialEq, Encode, Decode)]
#[musli(transparent)]
struct Thru(u32);
#[derive(PartialEq, Encode, Decode)]
#[musli(transparent)]
struct ThruNamed {
    only: Plain,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(transparent)]
struct ThruSkip {
    #[musli(skip)]
    gone: u8,
    only: u8,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(transparent)]
struct ThruBytes(#[musli(bytes)] Vec<u8>);
#[derive(PartialEq, Encode, Decode)]
#[musli(packed)]
struct Pk {
    a: u8,
    b: u16,
    #[musli(with = self::flip)]
    c: u8,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(packed)]
struct PkTuple(u8, bool);
#[derive(PartialEq, Encode, Decode)]
struct NoFields {}
#[derive(PartialEq, Encode, Decode)]
struct UnitStruct;
#[derive(PartialEq, Encode, Decode)]
#[musli(Text, packed)]
#[musli(Binary, transparent)]
struct PerMode {
    a: u8,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(Binary, bound = {T: Encode<Binary>}, decode_bound<'de, A> = {T: Decode<'de, Binary, A>})]
#[musli(Text, bound = {T: Encode<Text>}, decode_bound<'de, A> = {T: Decode<'de, Text, A>})]
struct Gen<T> {
    t: bool,
    list: Vec<T>,
}
fn containers() {
    let (a, b) = (any::<u8>(), any::<bool>());
    match sym::pick(10) {
        0 => {
            let v = any::<u16>() as u32;
            full(Thru(v), &U32(v), &U32(v))
        }
        1 => {
            let m = &Map(&[(Us(0), U8(a)), (Us(1), Bool(b))]);
            tagged(ThruNamed { only: Plain(a, b) }, m, m)
        }
        2 => full(ThruSkip { gone: 0, only: a }, &U8(a), &U8(a)),
        3 => {
            let v = vec::<u8, 2>();
            full(ThruBytes(v.clone()), &Bytes(&v), &Bytes(&v))
        }
        4 => {
            let w = any();
            let sh = &Pack(&[U8(a), U16(w), U16(a as u16 + 1000)]);
            full(Pk { a, b: w, c: a }, sh, sh)
        }
        5 => {
            let sh = &Pack(&[U8(a), Bool(b)]);
            full(PkTuple(a, b), sh, sh)
        }
        6 => tagged(NoFields {}, &Map(&[]), &Map(&[])),
        7 => tagged(UnitStruct, &Map(&[]), &Map(&[])),
        8 => full(PerMode { a }, &U8(a), &Pack(&[U8(a)])),
        _ => {
            let u = any::<u16>();
            tagged(
                Gen { t: b, list: vec![u] },
                &Map(&[(Us(0), Bool(b)), (Us(1), Seq(&[U16(u)]))]),
                &Map(&[(Str("t"), Bool(b)), (Str("list"), Seq(&[U16(u)]))]),
            )
        }
    }
}

// ----- modes -----

enum Alt {}
#[derive(PartialEq, Encode, Decode)]
#[musli(mode = Alt, packed)]
struct Modal {
    #[musli(mode = Alt, with = self::flip)]
    a: u8,
    #[musli(Text, skip)]
    b: bool,
    #[musli(Binary, default, skip_encoding_if = is_seven)]
    c: u8,
}
#[derive(PartialEq, Encode)]
#[musli(mode = Alt, encode_only, untagged)]
#[derive(Decode)]
enum OneWay {
    A(u8),
    B { x: bool },
}
fn enc_alt<T: Encode<Alt>>(k: usize, b: &mut [u8], v: &T) -> Result<usize, Er> {
    match k {
        0 => musli::storage::Encoding::new().with_mode::<Alt>().to_slice_with(sx(), b, v),
        1 => musli::wire::Encoding::new().with_mode::<Alt>().to_slice_with(sx(), b, v),
        2 => musli::descriptive::Encoding::new().with_mode::<Alt>().to_slice_with(sx(), b, v),
        _ => musli::json::Encoding::new().with_mode::<Alt>().to_slice_with(sx(), b, v),
    }
}
fn dec_alt<T: for<'de> Decode<'de, Alt, System>>(k: usize, b: &[u8]) -> Result<T, Er> {
    match k {
        0 => musli::storage::Encoding::new().with_mode::<Alt>().from_slice_with(sx(), b),
        1 => musli::wire::Encoding::new().with_mode::<Alt>().from_slice_with(sx(), b),
        2 => musli::descriptive::Encoding::new().with_mode::<Alt>().from_slice_with(sx(), b),
        _ => musli::json::Encoding::new().with_mode::<Alt>().from_slice_with(sx(), b),
    }
}
fn modes() {
    let (a, b, c) = (any::<u8>(), any::<bool>(), any::<u8>());
    let k = sym::pick(4);
    let (mut x, mut y) = ([0u8; 80], [0u8; 80]);
    match sym::pick(4) {
        0 => {
            let v = Modal { a, b, c };
            let n = sym::concrete(enc_alt(k, &mut x, &v).expect("encode"));
            let m = sym::concrete(enc_alt(k, &mut y, &Pack(&[U16(a as u16 + 1000), Bool(b), U8(c)])).expect("encode"));
            same!(n, m);
            same!(&x[..n], &y[..n]);
            if !(dec_alt::<Modal>(k, &x[..n]).expect("decode") == v) {
                panic!("another value");
            }
            sym::cover(4);
        }
        1 => {
            let mut es = vec![(Us(0), U8(a)), (Us(1), Bool(b))];
            if c != 7 {
                es.push((Us(2), U8(c)));
            }
            sym::assume(c != 7 || k == 9);
            match k {
                0 => one::<Storage, _>(&Modal { a, b, c }, &Map(&es)),
                1 => one::<Wire, _>(&Modal { a, b, c }, &Map(&es)),
                2 => one::<Descriptive, _>(&Modal { a, b, c }, &Map(&es)),
                _ => one::<Json, _>(&Modal { a, b: false, c }, &Map(&[(Str("a"), U8(a)), (Str("c"), U8(c))])),
            }
        }
        2 => {
            let v = if b { OneWay::A(a) } else { OneWay::B { x: b } };
            let n = sym::concrete(enc_alt(k, &mut x, &v).expect("encode"));
            let m = if b { enc_alt(k, &mut y, &Map(&[(Us(0), U8(a))])) } else { enc_alt(k, &mut y, &Map(&[(Us(0), Bool(b))])) };
            same!(n, sym::concrete(m.expect("encode")));
            same!(&x[..n], &y[..n]);
            sym::cover(4);
        }
        _ => {
            if b {
                tagged(OneWay::A(a), &Var(&Us(0), &Map(&[(Us(0), U8(a))])), &Var(&Str("A"), &Map(&[(Us(0), U8(a))])))
            } else {
                tagged(OneWay::B { x: b }, &Var(&Us(1), &Map(&[(Us(0), Bool(b))])), &Var(&Str("B"), &Map(&[(Str("x"), Bool(b))])))
            }
        }
    }
}

#[derive(PartialEq, Encode, Decode)]
#[musli(tag = "t")]
enum Indexed {
    A { x: u8 },
    B,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(packed)]
struct InTagged(u8, bool);
#[derive(PartialEq, Encode, Decode)]
#[musli(tag = "t", name_all = "name")]
enum HoldsPacked {
    #[musli(name_all = "name")]
    A { p: InTagged },
}
fn reads_or<F: Fmt, T>(v: &T, known: u32)
where
    T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let mut a = buf::<F>();
    let Ok(n) = F::enc(sx(), &mut a, v) else { panic!("value does not encode") };
    let n = sym::concrete(n);
    let mut r = &a[..n];
    match F::dec::<_, T>(sx(), &mut r) {
        Ok(o) => {
            if o != *v {
                panic!("another value is decoded");
            }
            sym::cover(1);
        }
        Err(..) => sym::known(known),
    }
}
/// Recorded in known-findings.
fn rejected() {
    match sym::pick(5) {
        // the names of the fields are numbers and the tag is a string
        0 => reads_or::<Descriptive, _>(&Indexed::A { x: any() }, 1),
        1 => back::<Descriptive, _>(&Indexed::B),
        2 => {
            let v = if sym::bool() { Indexed::A { x: any() } } else { Indexed::B };
            back::<Json, _>(&v)
        }
        // an array cannot be decoded as a pack once it is buffered
        3 => reads_or::<Json, _>(&HoldsPacked::A { p: InTagged(any(), any()) }, 2),
        _ => back::<Descriptive, _>(&HoldsPacked::A { p: InTagged(any(), any()) }),
    }
}

crate::harnesses! {
    fn h_m17_rejected() { rejected() }
    fn h_m17_name_all() { cases() }
    fn h_m17_names() { names() }
    fn h_m17_presence() { presence() }
    fn h_m17_skip_in_variants() { skip_variants() }
    fn h_m17_skip_in_untagged() { skip_untagged() }
    fn h_m17_external() { external() }
    fn h_m17_bare() { bare() }
    fn h_m17_patterns() { patterns() }
    fn h_m17_internal() { internal() }
    fn h_m17_internal_fields() { held(0, 10) }
    fn h_m17_internal_fields2() { held(10, 21) }
    fn h_m17_internal_fields3() { held(21, 31) }
    fn h_m17_internal_order() { internal_order() }
    fn h_m17_adjacent() { adjacent() }
    fn h_m17_untagged() { untagged() }
    fn h_m17_untagged_held() { untagged_held() }
    fn h_m17_fields() { ways() }
    fn h_m17_containers() { containers() }
    fn h_m17_modes() { modes() }
}
