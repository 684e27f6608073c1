//! M18: what is encoded through the serde bridge decodes through it.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any, Visit};
use crate::rt::*;
use crate::sym::{self, Sym};
use crate::tier;
use musli::alloc::{Allocator, System};
use musli::mode::Binary;
use musli::options::{ByteOrder, Float, Integer, Options, Width};
use musli::{Decode, Decoder, Encode, Encoder};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

type D = Descriptive;
type J = Json;
type W = Wire;
type S = Storage;
const MIX: Options = mixed(Integer::Variable, Float::Fixed, ByteOrder::Big, Width::U16);

/// All of it through the bridge.
#[derive(PartialEq)]
struct B1<T>(T);
impl<M, T: Serialize> Encode<M> for B1<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    #[inline]
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        musli::serde::encode(&self.0, e)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator, T: Deserialize<'de>> Decode<'de, M, A> for B1<T> {
    const IS_BITWISE_DECODE: bool = false;
    #[inline]
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        musli::serde::decode(d).map(B1)
    }
}
/// Between other fields.
#[derive(PartialEq, Encode, Decode)]
#[musli(
    name_all = "name",
    bound = {T: Serialize}, decode_bound<'de, A> = {T: Deserialize<'de>}
)]
struct Within<T> {
    a: u8,
    #[musli(with = musli::serde)]
    t: T,
    b: bool,
}

#[inline(never)]
fn go<F: Fmt, T>(v: T)
where
    T: PartialEq + Serialize + for<'de> Deserialize<'de>,
{
    Rt::<F>::go(B1(v));
}

#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Rec { a: u8, b: Option<bool>, c: String }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct New(u16);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Tup(u8, bool, i16);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Empty {}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
enum E { U, N(u8), T(bool, u8), R { x: bool, y: Option<u8> }, O(Option<bool>), V(()) }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
enum Renamed { #[serde(rename = "")] A, #[serde(rename = "b b")] B(u8) }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Opts { #[serde(default, skip_serializing_if = "Option::is_none")] a: Option<u8>, #[serde(rename = "B")] b: u8, #[serde(skip)] c: u8, #[serde(default)] d: bool }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "t")] enum Int { U, R { x: u8, y: bool }, N(Sub), S { s: String, o: Option<u8> } }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")] enum Adj { U, N(u8), T(bool, u8), R { x: bool } }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(untagged)] enum Unt { A(bool), B(u8), C(String), D { x: bool }, E(Vec<bool>), F(bool, u8), G(i8) }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Sub { p: bool, q: u8 }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Deep { s: Sub, e: E, v: Vec<Sub>, n: New }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(transparent)] struct Thru { v: u8 }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(deny_unknown_fields)] struct Deny { a: u8, b: bool }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(from = "u8", into = "u8")] struct Conv(u8);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Unit;
impl From<u8> for Conv {
    fn from(v: u8) -> Self {
        Conv(v)
    }
}
impl From<Conv> for u8 {
    fn from(v: Conv) -> Self {
        v.0
    }
}
/// Bytes rather than a sequence.
#[derive(PartialEq, Debug, Clone)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct BytesVisitor(bool);
impl<'de> serde::de::Visitor<'de> for BytesVisitor {
    type Value = Bytes;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<X>(self, v: &[u8]) -> Result<Bytes, X> {
        Ok(Bytes(v.to_vec()))
    }
    fn visit_byte_buf<X>(self, v: Vec<u8>) -> Result<Bytes, X> {
        Ok(Bytes(v))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Self, X::Error> {
        d.deserialize_byte_buf(BytesVisitor(true))
    }
}
/// A string that is displayed, and depends on the kind of format.
#[derive(PartialEq, Debug, Clone)]
struct Shown(u8);
impl Serialize for Shown {
    fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
        if s.is_human_readable() {
            s.collect_str(&format_args!("#{}", self.0))
        } else {
            s.serialize_u8(self.0)
        }
    }
}
impl<'de> Deserialize<'de> for Shown {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Self, X::Error> {
        if d.is_human_readable() {
            let s = String::deserialize(d)?;
            match s.strip_prefix('#').and_then(|s| s.parse().ok()) {
                Some(v) => Ok(Shown(v)),
                None => Err(serde::de::Error::custom("not shown")),
            }
        } else {
            u8::deserialize(d).map(Shown)
        }
    }
}

fn s2() -> String {
    model::string::<2>()
}
fn rec() -> Rec {
    Rec { a: any(), b: any(), c: model::string::<1>() }
}
fn sub() -> Sub {
    Sub { p: any(), q: 3 }
}
fn e() -> E {
    match sym::pick(6) {
        0 => E::U,
        1 => E::N(any()),
        2 => E::T(any(), 4),
        3 => E::R { x: any(), y: if sym::bool() { Some(5) } else { None } },
        4 => E::O(any()),
        _ => E::V(()),
    }
}
fn scalars<F: Fmt>() {
    match sym::pick(14) {
        0 => go::<F, u8>(any()),
        1 => go::<F, i8>(any()),
        2 => go::<F, u16>(any()),
        3 => go::<F, i16>(any()),
        4 => go::<F, u32>(any()),
        5 => go::<F, i32>(any()),
        6 => go::<F, u64>(any()),
        7 => go::<F, i64>(any()),
        8 => go::<F, u128>(any()),
        9 => go::<F, i128>(any()),
        10 => go::<F, usize>(any()),
        11 => go::<F, isize>(any()),
        12 => go::<F, f64>([0.0, -1.5, 1e300, f64::MIN_POSITIVE][sym::pick(4)]),
        _ => go::<F, f32>([0.0, -1.5, 1e30, f32::MIN_POSITIVE][sym::pick(4)]),
    }
}
fn others<F: Fmt>() {
    match sym::pick(6) {
        0 => go::<F, bool>(any()),
        1 => go::<F, char>(any()),
        2 => go::<F, ()>(()),
        3 => go::<F, String>(model::string::<{ tier(3, 4) }>()),
        4 => go::<F, Box<str>>(s2().into()),
        _ => go::<F, Cow<'static, str>>(s2().into()),
    }
}
/// One number at a time, since digits of JSON multiply.
fn json_scalars() {
    match sym::pick(8) {
        0 => go::<J, u8>(any()),
        1 => go::<J, i8>(any()),
        2 => go::<J, u16>(any::<u8>() as u16 * 257),
        3 => go::<J, i32>([0, i32::MIN, i32::MAX, 10][sym::pick(4)]),
        4 => go::<J, u64>([0, u64::MAX, 10][sym::pick(3)]),
        5 => go::<J, i128>([0, i128::MIN, i128::MAX][sym::pick(3)]),
        6 => go::<J, f64>([0.0, -1.5, 0.3, 1e300, f64::MIN_POSITIVE][sym::pick(5)]),
        _ => go::<J, f32>([0.0, -1.5, 0.3, 1e30, f32::MIN_POSITIVE][sym::pick(5)]),
    }
}
fn containers<F: Fmt>() {
    match sym::pick(13) {
        0 => go::<F, Option<u8>>(any()),
        1 => go::<F, Vec<u8>>(match sym::pick(3) { 0 => vec![], 1 => vec![any()], _ => vec![1, any(), 3] }),
        2 => go::<F, Vec<bool>>(model::vec::<bool, { tier(3, 4) }>()),
        3 => go::<F, (u8, bool, char)>((7, any(), any())),
        4 => go::<F, [bool; 3]>(any()),
        5 => go::<F, Vec<Vec<bool>>>(vec![vec![], model::vec::<bool, 2>()]),
        6 => go::<F, BTreeMap<String, bool>>([(s2(), any())].into_iter().collect()),
        7 => go::<F, BTreeMap<u8, Option<bool>>>([(any(), any()), (1, None)].into_iter().collect()),
        8 => go::<F, BTreeSet<u8>>([any(), 5].into_iter().collect()),
        9 => go::<F, Vec<Option<bool>>>(vec![any(), None, any()]),
        10 => go::<F, Bytes>(Bytes(sym::slice::<2>().get().to_vec())),
        11 => go::<F, Result<bool, u8>>(if sym::bool() { Ok(any()) } else { Err(any()) }),
        _ => go::<F, (Box<u8>, std::num::Wrapping<i8>)>((Box::new(any()), std::num::Wrapping(4))),
    }
}
fn structs<F: Fmt>() {
    match sym::pick(13) {
        0 => go::<F, Rec>(rec()),
        1 => go::<F, New>(New(any::<u8>() as u16)),
        2 => go::<F, Tup>(Tup(any(), any(), -300)),
        3 => go::<F, Empty>(Empty {}),
        4 => go::<F, Unit>(Unit),
        5 => go::<F, Opts>(Opts { a: any(), b: 1, c: 0, d: any() }),
        6 => go::<F, Deep>(Deep { s: sub(), e: e(), v: if sym::bool() { vec![sub()] } else { vec![] }, n: New(7) }),
        7 => go::<F, Thru>(Thru { v: any() }),
        8 => go::<F, Deny>(Deny { a: any(), b: any() }),
        9 => go::<F, Conv>(Conv(any())),
        10 => go::<F, Shown>(Shown(any())),
        11 => go::<F, (Rec, Unit)>((rec(), Unit)),
        _ => go::<F, Option<Rec>>(if sym::bool() { Some(rec()) } else { None }),
    }
}
fn enums<F: Fmt>() {
    match sym::pick(4) {
        0 => go::<F, E>(e()),
        1 => go::<F, Renamed>(if sym::bool() { Renamed::A } else { Renamed::B(any()) }),
        2 => go::<F, Vec<E>>(vec![e(), E::U]),
        _ => go::<F, Option<E>>(if sym::bool() { Some(e()) } else { None }),
    }
}
/// Adjacent tags need no description, except (in serde) those of struct variants.
fn adjacent<F: Fmt>(described: bool) {
    go::<F, Adj>(match sym::pick(4) {
        0 => Adj::U,
        1 => Adj::N(any()),
        2 if described => Adj::R { x: any() },
        _ => Adj::T(any(), 4),
    })
}
/// Formats which describe their data.
fn described<F: Fmt>() {
    match sym::pick(3) {
        0 => go::<F, Int>(match sym::pick(4) {
            0 => Int::U,
            1 => Int::R { x: any(), y: any() },
            2 => Int::N(sub()),
            _ => Int::S { s: model::string::<1>(), o: if sym::bool() { Some(8) } else { None } },
        }),
        1 => go::<F, Unt>(match sym::pick(7) {
            0 => Unt::A(any()),
            1 => Unt::B(any()),
            2 => Unt::C(s2()),
            3 => Unt::D { x: any() },
            4 => {
                // the rest of the variants have something else
                Unt::E(model::vec::<bool, 2>())
            }
            5 => Unt::F(any(), any()),
            _ => {
                let v: i8 = any();
                if v < 0 { Unt::G(v) } else { Unt::B(v as u8) }
            }
        }),
        _ => go::<F, Vec<Int>>(vec![Int::R { x: 1, y: any() }, Int::U, Int::N(sub())]),
    }
}
fn within<F: Fmt<Mode = Binary>>() {
    fn w<F: Fmt<Mode = Binary>, T: PartialEq + Serialize + for<'de> Deserialize<'de>>(t: T) {
        Rt::<F>::go(Within { a: any(), t, b: any() });
    }
    match sym::pick(5) {
        0 => w::<F, _>(rec()),
        1 => w::<F, _>(e()),
        2 => w::<F, _>(model::vec::<bool, 2>()),
        3 => w::<F, _>(Unit),
        _ => w::<F, _>([(s2(), any::<bool>())].into_iter().collect::<BTreeMap<_, _>>()),
    }
}

/// The same types in terms of this crate.
#[derive(PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct MRec { a: u8, b: Option<bool>, c: String }
#[derive(PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct MSub { p: bool, q: u8 }
#[derive(PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
enum ME {
    N(u8),
    #[musli(name_all = "name")]
    R { x: bool, y: Option<u8> },
    #[musli(transparent)]
    O(Option<bool>),
}
/// Encodes as the compatible type, and decodes from it.
#[inline(never)]
fn like<F: Fmt, T, M>(t: T, m: M)
where
    T: PartialEq + Serialize + for<'de> Deserialize<'de>,
    M: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let (mut a, mut b) = (buf::<F>(), buf::<F>());
    let t = B1(t);
    let n = sym::concrete(F::enc(sx(), &mut a, &t).expect("encode"));
    let k = sym::concrete(F::enc(sx(), &mut b, &m).expect("encode"));
    let o: M = F::from(sx(), &a[..n]).expect("decode as the compatible type");
    if o != m {
        panic!("the compatible type is another value");
    }
    let o: B1<T> = F::from(sx(), &b[..k]).expect("decode out of the compatible type");
    if o != t {
        panic!("another value out of the compatible type");
    }
    sym::observe_bytes(&a[..n]);
    sym::cover(1);
}
fn compatible<F: Fmt>()
where
    MRec: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    MSub: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    ME: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    match sym::pick(7) {
        0 => {
            let r = rec();
            like::<F, _, _>(r.clone(), MRec { a: r.a, b: r.b, c: r.c })
        }
        1 => {
            let v = model::vec::<bool, 2>();
            like::<F, _, _>(v.clone(), v)
        }
        2 => {
            let m: BTreeMap<String, bool> = [(s2(), any())].into_iter().collect();
            like::<F, _, _>(m.clone(), m)
        }
        3 => {
            let x = any::<bool>();
            like::<F, _, _>(E::R { x, y: Some(9) }, ME::R { x, y: Some(9) })
        }
        4 => {
            let o = any::<Option<bool>>();
            like::<F, _, _>(E::O(o), ME::O(o))
        }
        5 => {
            let s = (s2(), any::<char>());
            like::<F, _, _>(s.0.clone(), s.0);
            like::<F, _, _>(s.1, s.1);
        }
        _ => {
            let (a, b) = (any::<u8>(), any::<bool>());
            like::<F, _, _>((a, b), (a, b));
            let v: Option<Sub> = Some(Sub { p: b, q: 1 });
            like::<F, _, _>(v, Some(MSub { p: b, q: 1 }));
        }
    }
}

/// A field that is not known to who decodes is passed over.
#[derive(Serialize)]
struct More<T> { a: u8, x: T, c: bool }
#[derive(PartialEq, Deserialize)]
struct Less { a: u8, c: bool }
#[derive(PartialEq, Decode)]
#[musli(name_all = "name")]
struct MLess { a: u8, c: bool }
#[inline(never)]
fn unknown<F: Fmt, T: Serialize>(x: T)
where
    MLess: for<'de> Decode<'de, F::Mode, System>,
{
    let (a, c) = (any(), any());
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &B1(More { a, x, c })).expect("encode"));
    let b = &b[..n];
    let mut r = b;
    if F::dec::<_, B1<Less>>(sx(), &mut r).expect("decode with less fields").0 != (Less { a, c }) {
        panic!("the fields around the unknown one are others");
    }
    if !r.is_empty() {
        panic!("something is left");
    }
    if F::from::<_, MLess>(sx(), b).expect("decode with less fields") != (MLess { a, c }) {
        panic!("the fields around the unknown one are others");
    }
    sym::observe_bytes(b);
    sym::cover(1);
}
fn evolves<F: Fmt>()
where
    MLess: for<'de> Decode<'de, F::Mode, System>,
{
    match sym::pick(9) {
        0 => unknown::<F, _>(()),
        1 => unknown::<F, _>(any::<Option<bool>>()),
        2 => unknown::<F, _>(rec()),
        3 => unknown::<F, _>(e()),
        4 => unknown::<F, _>(model::vec::<bool, 2>()),
        5 => unknown::<F, _>((s2(), [any::<u8>(), 1])),
        6 => unknown::<F, _>(Bytes(vec![any(), 0x22])),
        7 => unknown::<F, _>([(s2(), any::<bool>())].into_iter().collect::<BTreeMap<_, _>>()),
        _ => unknown::<F, _>((any::<char>(), any::<i16>(), 0.5f32, Unit)),
    }
}

/// Data that is borrowed from the input.
fn borrowed<F: Fmt<Mode = Binary>>() {
    let s = sym::string::<3>();
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &B1(s.get())).expect("encode"));
    let o: B1<&str> = F::from(sx(), &b[..n]).expect("decode");
    if o.0 != s.get() {
        panic!("another string is decoded");
    }
    let d = sym::slice::<3>();
    let m = sym::concrete(F::enc(sx(), &mut b, &B1(Bytes(d.get().to_vec()))).expect("encode"));
    let o: B1<&[u8]> = F::from(sx(), &b[..m]).expect("decode");
    if o.0 != d.get() {
        panic!("other bytes are decoded");
    }
    sym::cover(1);
}

/// Any input: what decodes is encoded as the same value.
fn input<F: Fmt, T, const N: usize>()
where
    T: PartialEq + Serialize + for<'de> Deserialize<'de>,
{
    let b = sym::slice::<N>();
    let mut r = b.get();
    let Ok(v) = F::dec::<_, B1<T>>(sx(), &mut r) else { return };
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &v).expect("encode"));
    let mut r = &b[..n];
    let o: B1<T> = F::dec(sx(), &mut r).expect("decode");
    if o != v {
        panic!("another value is decoded");
    }
    sym::cover(1);
}

crate::harnesses! {
    fn h_m18_storage_scalars() { scalars::<S>() }
    fn h_m18_wire_scalars() { scalars::<W>() }
    fn h_m18_descriptive_scalars() { scalars::<D>() }
    fn h_m18_json_scalars() { json_scalars() }
    fn h_m18_storage_others() { others::<S>() }
    fn h_m18_wire_others() { others::<W>() }
    fn h_m18_descriptive_others() { others::<D>() }
    fn h_m18_json_others() { others::<J>() }
    fn h_m18_storage_containers() { containers::<S>() }
    fn h_m18_wire_containers() { containers::<W>() }
    fn h_m18_descriptive_containers() { containers::<D>() }
    fn h_m18_json_containers() { containers::<J>() }
    fn h_m18_storage_structs() { structs::<S>() }
    fn h_m18_wire_structs() { structs::<W>() }
    fn h_m18_descriptive_structs() { structs::<D>() }
    fn h_m18_json_structs() { structs::<J>() }
    fn h_m18_mixed() { structs::<StorageO<MIX>>() }
    fn h_m18_mixed_wire() { containers::<WireO<FIX_BE>>() }
    fn h_m18_storage_enums() { enums::<S>(); }
    fn h_m18_wire_enums() { enums::<W>() }
    fn h_m18_descriptive_enums() { enums::<D>() }
    fn h_m18_json_enums() { enums::<J>() }
    fn h_m18_adjacent() {
        match sym::pick(4) {
            0 => adjacent::<S>(false),
            1 => adjacent::<W>(false),
            2 => adjacent::<D>(true),
            _ => adjacent::<J>(true),
        }
    }
    fn h_m18_described() {
        match sym::pick(2) {
            0 => described::<D>(),
            _ => described::<J>(),
        }
    }
    fn h_m18_within() {
        match sym::pick(3) {
            0 => within::<S>(),
            1 => within::<W>(),
            _ => within::<D>(),
        }
    }
    fn h_m18_compatible() {
        match sym::pick(4) {
            0 => compatible::<S>(),
            1 => compatible::<W>(),
            2 => compatible::<D>(),
            _ => compatible::<J>(),
        }
    }
    fn h_m18_unknown() {
        match sym::pick(3) {
            0 => evolves::<W>(),
            1 => evolves::<D>(),
            _ => evolves::<J>(),
        }
    }
    fn h_m18_borrowed() {
        match sym::pick(3) {
            0 => borrowed::<S>(),
            1 => borrowed::<W>(),
            _ => borrowed::<D>(),
        }
    }
    fn h_m18_input() {
        match sym::pick(4) {
            0 => input::<S, E, 6>(),
            1 => input::<W, (u8, Option<bool>), 5>(),
            2 => input::<D, Rec, 4>(),
            _ => input::<D, Sub, 5>(),
        }
    }
}
