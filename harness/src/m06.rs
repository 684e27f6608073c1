//! M06: upgrade stability: unknown, missing and reordered fields.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any, Visit};
use crate::rt::*;
use crate::sym::{self, Sym};
use crate::tier;
use core::marker::PhantomData;
use musli::alloc::System;
use musli::{Decode, Encode};

type J = Json;
type W = Wire;
type D = Descriptive;
type S = Storage;
type WF = WireO<FIX_BE>;
type DF = DescriptiveO<FIX_LE>;

/// The reader.
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct R {
    #[musli(Binary, name = 1)]
    pub a: u8,
    #[musli(Binary, name = 2)]
    #[musli(default)]
    pub b: Option<u8>,
    #[musli(Binary, name = 3)]
    #[musli(default)]
    pub c: bool,
    #[musli(Binary, name = 4)]
    pub d: u8,
}

macro_rules! writer {
    ($n:ident [$($g:ident)?] $($f:ident $k:literal: $t:ty),* $(,)?) => {
        #[derive(Encode)]
        $(#[musli(Binary, bound = {$g: Encode<musli::mode::Binary>})] #[musli(Text, bound = {$g: Encode<musli::mode::Text>})])?
        pub struct $n$(<$g>)? {
            $(#[musli(Binary, name = $k)] pub $f: $t,)*
        }
    };
}

writer!(Front [T] x 9: T, a 1: u8, d 4: u8);
writer!(Middle [T] a 1: u8, x 0: T, d 4: u8);
writer!(End [T] d 4: u8, a 1: u8, x 300: T);
writer!(Twice [T] d 4: u8, x 8: T, a 1: u8, c 3: bool, y 7: bool, b 2: Option<u8>);
writer!(Reordered [] d 4: u8, b 2: Option<u8>, c 3: bool, a 1: u8);
writer!(NoA [] d 4: u8, b 2: Option<u8>, c 3: bool);
writer!(NoD [] a 1: u8, b 2: Option<u8>, c 3: bool);
writer!(NoB [] c 3: bool, a 1: u8, d 4: u8);
writer!(Min [] d 4: u8, a 1: u8);
writer!(Nothing []);

#[inline]
fn enc<F: Fmt, T: Encode<F::Mode>>(b: &mut [u8], v: &T) -> usize {
    sym::concrete(F::enc(sx(), b, v).expect("encode"))
}

/// The encoded value reads as `want`, exactly.
fn reads<F: Fmt, T: Encode<F::Mode>, O>(v: &T, want: O)
where
    O: PartialEq + for<'de> Decode<'de, F::Mode, System>,
{
    let mut b = buf::<F>();
    let n = enc::<F, T>(&mut b, v);
    let mut r = &b[..];
    let o: O = F::dec(sx(), &mut r).expect("decode another version");
    if !(o == want) {
        panic!("another version decodes to the wrong value");
    }
    same!(r.len(), B - n);
    let o: O = F::from(sx(), &b[..n]).expect("decode another version");
    if !(o == want) {
        panic!("another version decodes to the wrong value");
    }
    sym::observe_bytes(&b[..n]);
    sym::cover(1);
}

/// The encoded value cannot be read.
fn refuses<F: Fmt, T: Encode<F::Mode>, O>(v: &T)
where
    O: for<'de> Decode<'de, F::Mode, System>,
{
    let mut b = buf::<F>();
    let n = enc::<F, T>(&mut b, v);
    if F::from::<_, O>(sx(), &b[..n]).is_ok() {
        panic!("decodes although its fields are not those of the type");
    }
    let mut r = &b[..];
    if F::dec::<_, O>(sx(), &mut r).is_ok() {
        panic!("decodes although its fields are not those of the type");
    }
    sym::observe_bytes(&b[..n]);
    sym::cover(2);
}

// ----- unknown fields -----

#[derive(Encode)]
#[musli(Binary, bound = {T: Encode<musli::mode::Binary>})]
#[musli(Text, bound = {T: Encode<musli::mode::Text>})]
struct OuterW<T> {
    #[musli(Binary, name = 0)]
    list: Vec<T>,
    #[musli(Binary, name = 1)]
    z: u8,
}
#[derive(Debug, PartialEq, Decode)]
struct OuterR {
    #[musli(Binary, name = 0)]
    list: Vec<R>,
    #[musli(Binary, name = 1)]
    z: u8,
}

#[derive(Encode)]
#[musli(Binary, bound = {T: Encode<musli::mode::Binary>})]
#[musli(Text, bound = {T: Encode<musli::mode::Text>})]
enum ChoiceW<T> {
    #[musli(Binary, name = 5)]
    One {
        #[musli(Binary, name = 1)]
        v: u8,
        #[musli(Binary, name = 6)]
        x: T,
    },
}
#[derive(Debug, PartialEq, Decode)]
enum ChoiceR {
    #[musli(Binary, name = 2)]
    Zero,
    #[musli(Binary, name = 5)]
    One {
        #[musli(Binary, name = 1)]
        v: u8,
    },
}

#[derive(Encode)]
#[musli(name_all = "name")]
#[musli(Binary, bound = {T: Encode<musli::mode::Binary>})]
#[musli(Text, bound = {T: Encode<musli::mode::Text>})]
struct TextW<T> {
    alpha: u8,
    alphabet: T,
    al: u8,
    beta: u8,
}
#[derive(Debug, PartialEq, Decode)]
#[musli(name_all = "name")]
struct TextR {
    beta: u8,
    alpha: u8,
}

#[derive(Encode)]
#[musli(Binary, bound = {T: Encode<musli::mode::Binary>})]
#[musli(Text, bound = {T: Encode<musli::mode::Text>})]
struct TupleW<T>(u8, u8, T);
#[derive(Debug, PartialEq, Decode)]
struct TupleR(u8, u8);

/// Unknown fields of any shape are skipped.
struct Unknown<F>(PhantomData<F>);
impl<F: Fmt> Visit<F::Mode> for Unknown<F>
where
    R: for<'de> Decode<'de, F::Mode, System>,
    Vec<R>: for<'de> Decode<'de, F::Mode, System>,
    ChoiceR: for<'de> Decode<'de, F::Mode, System>,
    TextR: for<'de> Decode<'de, F::Mode, System>,
    TupleR: for<'de> Decode<'de, F::Mode, System>,
    F: Writers,
{
    #[inline(never)]
    fn go<T>(x: T)
    where
        T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    {
        let (a, d) = (sym::below(100), 7);
        let w = R { a, b: None, c: false, d };
        match sym::pick(7) {
            0 => F::front(x, a, d, w),
            1 => F::middle(x, a, d, w),
            2 => F::end(x, a, d, w),
            3 => {
                let (b, c) = (sym::bool().then_some(3), sym::bool());
                F::twice(x, a, d, b, c, R { a, b, c, d })
            }
            4 => F::choice(x, a),
            5 => F::text(x, a, d),
            _ => F::tuple(x, a, d),
        }
    }
}

/// The derives bound by mode: one implementation per mode.
pub trait Writers: Fmt + Sized {
    fn front<T: Encode<Self::Mode>>(x: T, a: u8, d: u8, w: R);
    fn middle<T: Encode<Self::Mode>>(x: T, a: u8, d: u8, w: R);
    fn end<T: Encode<Self::Mode>>(x: T, a: u8, d: u8, w: R);
    fn twice<T: Encode<Self::Mode>>(x: T, a: u8, d: u8, b: Option<u8>, c: bool, w: R);
    fn choice<T: Encode<Self::Mode>>(x: T, v: u8);
    fn text<T: Encode<Self::Mode>>(x: T, a: u8, d: u8);
    fn tuple<T: Encode<Self::Mode>>(x: T, a: u8, d: u8);
}
macro_rules! writers {
    ($m:ty: $([$($g:tt)*] $f:ty),*) => {$(
        impl<$($g)*> Writers for $f {
            fn front<T: Encode<$m>>(x: T, a: u8, d: u8, w: R) { reads::<Self, _, R>(&Front { x, a, d }, w) }
            fn middle<T: Encode<$m>>(x: T, a: u8, d: u8, w: R) { reads::<Self, _, R>(&Middle { x, a, d }, w) }
            fn end<T: Encode<$m>>(x: T, a: u8, d: u8, w: R) { reads::<Self, _, R>(&End { x, a, d }, w) }
            fn twice<T: Encode<$m>>(x: T, a: u8, d: u8, b: Option<u8>, c: bool, w: R) { reads::<Self, _, R>(&Twice { x, a, d, b, c, y: true }, w) }
            fn choice<T: Encode<$m>>(x: T, v: u8) { reads::<Self, _, ChoiceR>(&ChoiceW::One { v, x }, ChoiceR::One { v }) }
            fn text<T: Encode<$m>>(x: T, a: u8, d: u8) { reads::<Self, _, TextR>(&TextW { alpha: a, alphabet: x, al: 1, beta: d }, TextR { alpha: a, beta: d }) }
            fn tuple<T: Encode<$m>>(x: T, a: u8, d: u8) { reads::<Self, _, TupleR>(&TupleW(a, d, x), TupleR(a, d)) }
        }
    )*};
}
writers!(musli::mode::Binary: [const O: musli::options::Options] WireO<O>, [const O: musli::options::Options] DescriptiveO<O>);
writers!(musli::mode::Text: [] Json);

/// Storage refuses unknown fields.
struct Refuse;
impl Visit<musli::mode::Binary> for Refuse {
    #[inline(never)]
    fn go<T>(x: T)
    where
        T: PartialEq + Encode<musli::mode::Binary> + for<'de> Decode<'de, musli::mode::Binary, System>,
    {
        let (a, d) = (any(), any());
        match sym::pick(3) {
            0 => refuses::<S, _, R>(&Front { x, a, d }),
            1 => refuses::<S, _, R>(&End { x, a, d }),
            _ => refuses::<S, _, ChoiceR>(&ChoiceW::One { v: a, x }),
        }
    }
}

// ----- any order and any subset of fields -----

/// Entries as they come, keyed by numbers.
struct Entries<'a>(&'a [(u8, u8)]);
impl<'a> Encode<musli::mode::Binary> for Entries<'a> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: musli::Encoder<Mode = musli::mode::Binary>>(&self, e: E) -> Result<(), E::Error> {
        use musli::en::MapEncoder;
        e.encode_map_fn(self.0.len(), |m| {
            for (k, v) in self.0 {
                m.insert_entry(*k as usize, *v)?;
            }
            Ok(())
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

#[derive(Debug, PartialEq, Decode)]
#[musli(name(type = usize))]
struct Keyed {
    #[musli(name = 0)]
    a: u8,
    #[musli(name = 2, default)]
    b: u8,
    #[musli(name = 200)]
    c: u8,
    #[musli(name = 7, default)]
    d: u8,
}

/// Entries with symbolic keys, each at most once.
fn keyed<F: Fmt<Mode = musli::mode::Binary>>(tolerant: bool) {
    let n = sym::pick(tier(4, 5) as u8);
    let mut es = [(0u8, 0u8); 5];
    for i in 0..n {
        let k = sym::u8();
        for j in 0..i {
            sym::assume(es[j].0 != k);
        }
        es[i] = (k, sym::u8());
    }
    let es = &es[..n];
    let mut b = buf::<F>();
    let len = enc::<F, _>(&mut b, &Entries(es));
    let mut r = &b[..];
    let got = F::dec::<_, Keyed>(sx(), &mut r);
    let find = |k: u8| es.iter().find(|e| e.0 == k).map(|e| e.1);
    let known = |k: u8| matches!(k, 0 | 2 | 7 | 200);
    let all = es.iter().all(|e| known(e.0));
    match (find(0), find(200)) {
        (Some(a), Some(c)) if tolerant || all => {
            let g = got.expect("decode");
            same!(r.len(), B - len);
            same!(g.a, a);
            same!(g.c, c);
            same!(g.b, find(2).unwrap_or(0));
            same!(g.d, find(7).unwrap_or(0));
            sym::cover(if all { 1 } else { 3 });
        }
        _ => {
            if got.is_ok() {
                panic!("decodes without its required fields");
            }
            sym::cover(2);
        }
    }
    sym::observe_bytes(&b[..len]);
}

/// JSON members as they come, with unknown keys.
fn members() {
    struct Mem<'a>(&'a [(&'a str, u8)]);
    impl<'a> Encode<musli::mode::Text> for Mem<'a> {
        type Encode = Self;
        const IS_BITWISE_ENCODE: bool = false;
        fn encode<E: musli::Encoder<Mode = musli::mode::Text>>(&self, e: E) -> Result<(), E::Error> {
            use musli::en::MapEncoder;
            e.encode_map_fn(self.0.len(), |m| {
                for (k, v) in self.0 {
                    m.insert_entry(*k, *v)?;
                }
                Ok(())
            })
        }
        fn as_encode(&self) -> &Self {
            self
        }
    }
    #[derive(Decode)]
    #[musli(name_all = "name")]
    struct Mr {
        a: u8,
        #[musli(default)]
        bb: u8,
    }
    let s1 = sym::string::<1>();
    let s2 = sym::string::<{ tier(2, 3) }>();
    let k1 = s1.get();
    let k2 = s2.get();
    sym::assume(k1 != k2);
    let es = [(k1, 5), (k2, 6), ("z", 1)];
    let es = &es[..1 + sym::pick(3)];
    let mut b = buf::<J>();
    let len = enc::<J, _>(&mut b, &Mem(es));
    let got = <J as Fmt>::from::<_, Mr>(sx(), &b[..len]);
    let find = |k: &str| es.iter().find(|e| e.0 == k).map(|e| e.1);
    match find("a") {
        Some(a) => {
            let g = got.expect("decode");
            same!(g.a, a);
            same!(g.bb, find("bb").unwrap_or(0));
            sym::cover(1);
        }
        None => {
            if got.is_ok() {
                panic!("decodes without its required fields");
            }
            sym::cover(2);
        }
    }
    sym::observe_bytes(&b[..len]);
}

fn known<F: Fmt>()
where
    Reordered: Encode<F::Mode>,
    NoA: Encode<F::Mode>,
    NoB: Encode<F::Mode>,
    NoD: Encode<F::Mode>,
    Min: Encode<F::Mode>,
    Nothing: Encode<F::Mode>,
    R: for<'de> Decode<'de, F::Mode, System>,
{
    let (a, d, c) = (any(), sym::below(100), any());
    let b = if sym::bool() { Some(sym::below(100)) } else { None };
    match sym::pick(6) {
        0 => reads::<F, _, R>(&Reordered { a, b, c, d }, R { a, b, c, d }),
        1 => refuses::<F, _, R>(&NoA { b, c, d }),
        2 => reads::<F, _, R>(&NoB { a, c, d }, R { a, b: None, c, d }),
        3 => refuses::<F, _, R>(&NoD { a, b, c }),
        4 => reads::<F, _, R>(&Min { a, d }, R { a, b: None, c: false, d }),
        _ => refuses::<F, _, R>(&Nothing {}),
    }
}

// ----- enums -----

#[derive(Encode)]
#[musli(name(type = usize))]
enum NewEnum {
    #[musli(name = 1)]
    Known,
    #[musli(name = 2)]
    New,
    #[musli(name = 500)]
    NewData(String),
    #[musli(name = 3)]
    Rec { a: u8 },
}
#[derive(Debug, PartialEq, Decode)]
#[musli(name(type = usize))]
enum OldEnum {
    #[musli(name = 3)]
    Rec { a: u8 },
    #[musli(name = 1)]
    Known,
}
#[derive(Debug, PartialEq, Decode)]
#[musli(name(type = usize))]
enum OldDefault {
    #[musli(name = 1)]
    Known,
    #[musli(name = 600)]
    Never { x: u8 },
    #[musli(default)]
    Other,
}

/// Enums without data are encoded as their tags alone.
#[derive(Encode)]
#[musli(name(type = usize))]
enum NewUnit {
    #[musli(name = 1)]
    Known,
    #[musli(name = 200)]
    Last,
    #[musli(name = 0)]
    First,
}
#[derive(Debug, PartialEq, Decode)]
#[musli(name(type = usize))]
enum OldUnit {
    #[musli(name = 200)]
    Last,
    #[musli(name = 1)]
    Known,
}
#[derive(Debug, PartialEq, Decode)]
#[musli(name(type = usize))]
enum OldUnitDefault {
    #[musli(name = 1)]
    Known,
    #[musli(default)]
    Other,
}
fn units<F: Fmt>()
where
    NewUnit: Encode<F::Mode>,
    OldUnit: for<'de> Decode<'de, F::Mode, System>,
    OldUnitDefault: for<'de> Decode<'de, F::Mode, System>,
{
    match sym::pick(5) {
        0 => reads::<F, _, OldUnit>(&NewUnit::Known, OldUnit::Known),
        1 => reads::<F, _, OldUnit>(&NewUnit::Last, OldUnit::Last),
        2 => refuses::<F, _, OldUnit>(&NewUnit::First),
        3 => reads::<F, _, OldUnitDefault>(&NewUnit::Known, OldUnitDefault::Known),
        _ => reads::<F, _, OldUnitDefault>(&NewUnit::Last, OldUnitDefault::Other),
    }
}

fn enums<F: Fmt>(tolerant: bool)
where
    NewEnum: Encode<F::Mode>,
    OldEnum: for<'de> Decode<'de, F::Mode, System>,
    OldDefault: for<'de> Decode<'de, F::Mode, System>,
{
    let v = match sym::pick(4) {
        0 => NewEnum::Known,
        1 => NewEnum::New,
        2 => NewEnum::NewData(model::string::<2>()),
        _ => NewEnum::Rec { a: any() },
    };
    if sym::bool() {
        match v {
            NewEnum::Known => reads::<F, _, OldEnum>(&v, OldEnum::Known),
            NewEnum::Rec { a } => reads::<F, _, OldEnum>(&v, OldEnum::Rec { a }),
            _ => refuses::<F, _, OldEnum>(&v),
        }
    } else {
        match v {
            NewEnum::Known => reads::<F, _, OldDefault>(&v, OldDefault::Known),
            _ if tolerant => reads::<F, _, OldDefault>(&v, OldDefault::Other),
            _ => {}
        }
    }
}

crate::harnesses! {
    fn h_m06_known_storage() { known::<S>() }
    fn h_m06_known_wire() { known::<W>() }
    fn h_m06_known_desc() { known::<D>() }
    fn h_m06_known_json() { known::<J>() }
    fn h_m06_keyed_storage() { keyed::<S>(false) }
    fn h_m06_keyed_wire() { keyed::<W>(true) }
    fn h_m06_keyed_desc() { keyed::<D>(true) }
    fn h_m06_keyed_fixed() { if sym::bool() { keyed::<WF>(true) } else { keyed::<DF>(true) } }
    fn h_m06_members_json() { members() }
    fn h_m06_enums() {
        match sym::pick(4) {
            0 => enums::<S>(false),
            1 => enums::<W>(true),
            2 => enums::<D>(true),
            _ => enums::<J>(true),
        }
    }
    fn h_m06_units() {
        match sym::pick(5) {
            0 => units::<S>(),
            1 => units::<W>(),
            2 => units::<D>(),
            3 => units::<WF>(),
            _ => units::<J>(),
        }
    }
    fn h_m06_refuse_scalars() { model::scalars::<_, Refuse>(sym::pick(model::SCALARS)) }
    fn h_m06_refuse_containers() { model::containers::<_, Refuse>(sym::pick(model::CONTAINERS)) }
    fn h_m06_refuse_structs() { model::structs::<_, Refuse>(sym::pick(model::STRUCTS)) }
    fn h_m06_wire_scalars() { model::scalars::<_, Unknown<W>>(sym::pick(model::SCALARS)) }
    fn h_m06_wire_floats() { model::floats::<_, Unknown<W>>(sym::pick(2)) }
    fn h_m06_wire_containers() { model::containers::<_, Unknown<W>>(sym::pick(model::CONTAINERS)) }
    fn h_m06_wire_texts() { model::texts::<_, Unknown<W>>(sym::pick(model::TEXTS)) }
    fn h_m06_wire_structs() { model::structs::<_, Unknown<W>>(sym::pick(model::STRUCTS)) }
    fn h_m06_wire_longs() { model::longs::<_, Unknown<W>>(sym::pick(model::LONGS)) }
    fn h_m06_wire_fixed() { model::structs::<_, Unknown<WF>>(sym::pick(model::STRUCTS)) }
    fn h_m06_desc_scalars() { model::scalars::<_, Unknown<D>>(sym::pick(model::SCALARS)) }
    fn h_m06_desc_floats() { model::floats::<_, Unknown<D>>(sym::pick(2)) }
    fn h_m06_desc_containers() { model::containers::<_, Unknown<D>>(sym::pick(model::CONTAINERS)) }
    fn h_m06_desc_texts() { model::texts::<_, Unknown<D>>(sym::pick(model::TEXTS)) }
    fn h_m06_desc_structs() { model::structs::<_, Unknown<D>>(sym::pick(model::STRUCTS)) }
    fn h_m06_desc_longs() { model::longs::<_, Unknown<D>>(sym::pick(model::LONGS)) }
    fn h_m06_desc_tagged() { model::tagged::<_, Unknown<D>>(sym::pick(model::TAGGED)) }
    fn h_m06_json_values() {
        type U = Unknown<J>;
        match sym::pick(14) {
            0 => U::go(sym::i8()),
            1 => U::go(any::<bool>()),
            2 => U::go(model::string::<2>()),
            3 => U::go(any::<char>()),
            4 => U::go(()),
            5 => U::go(model::vec::<bool, 2>()),
            6 => U::go(vec![model::string::<1>(), "]}".into()]),
            7 => U::go(any::<Option<bool>>()),
            8 => U::go(model::Shape::Rec { x: 1, y: any() }),
            9 => U::go(model::F64([1.5, -0.25, 1e300, 1e-7, 1.5e300, -2.25e-7, 123456.75, 0.0][sym::pick(8)])),
            11 => U::go(vec![vec![vec![], vec![any::<bool>()]], vec![], vec![vec![true, false], vec![]]]),
            12 => U::go((0u8, vec![model::string::<1>()], Some(vec![1u8, 2]), ((), 7u8))),
            10 => U::go(u128::MAX - sym::u8() as u128),
            _ => U::go(model::Named { a: 1, b: any(), c: -2 }),
        }
    }
}
