//! M13: dynamic values hold what is encoded into them, and survive formats.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any, Visit};
use crate::rt::*;
use crate::sym::{self, Sym};
use crate::tier;
use core::marker::PhantomData;
use musli::alloc::System;
use musli::mode::Binary;
use musli::value::{self, Value};
use musli::{Decode, Encode};

type D = Descriptive;
type V = Value<System>;
type Vs<T> = musli::alloc::Vec<T, System>;

fn val<T: Encode<Binary>>(v: T) -> V {
    value::encode(v).expect("encode as a dynamic value")
}
fn as_a<T: for<'de> Decode<'de, Binary, System>>(v: &V) -> Result<T, Er> {
    value::decode_with::<_, T, Binary>(sx(), v)
}

/// What is put into a dynamic value comes out of it.
pub struct Keep;
impl Visit<Binary> for Keep {
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<Binary> + for<'de> Decode<'de, Binary, System>,
    {
        let d = val(&v);
        let o: T = as_a(&d).expect("decode out of the dynamic value");
        if o != v {
            panic!("value out of the dynamic value differs");
        }
        let o: T = value::decode(&d).expect("decode out of the dynamic value");
        if o != v {
            panic!("value out of the dynamic value differs");
        }
        sym::cover(1);
    }
}

/// A dynamic value is encoded just as what was put into it.
pub struct Same<F>(PhantomData<F>);
impl<F: Fmt<Mode = Binary>> Visit<Binary> for Same<F> {
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<Binary> + for<'de> Decode<'de, Binary, System>,
    {
        let (mut a, mut b) = (buf::<F>(), buf::<F>());
        let n = F::enc(sx(), &mut a, &v);
        let m = F::enc(sx(), &mut b, &val(&v));
        let (Ok(n), Ok(m)) = (n, m) else {
            same!(n.is_ok(), m.is_ok());
            return;
        };
        let (n, m) = (sym::concrete(n), sym::concrete(m));
        if a[..n] != b[..m] {
            panic!("the dynamic value is encoded as something else");
        }
        sym::observe_bytes(&a[..n]);
        sym::cover(1);
    }
}

/// What is encoded into and decoded from a format is also what is decoded out
/// of the dynamic value which the format was decoded as.
pub struct Out<F>(PhantomData<F>);
impl<F: Fmt> Visit<F::Mode> for Out<F>
where
    V: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    {
        let mut b = buf::<F>();
        let n = sym::concrete(F::enc(sx(), &mut b, &v).expect("encode"));
        let d: V = F::from(sx(), &b[..n]).expect("decode as a dynamic value");
        let o: T = value::decode_with(sx(), &d).expect("decode out of the dynamic value");
        if o != v {
            panic!("value out of the dynamic value differs");
        }
        sym::cover(1);
    }
}

fn leaf() -> V {
    match sym::pick(20) {
        0 => V::Unit,
        1 => V::Bool(any()),
        2 => V::Char(any()),
        3 => val(any::<u8>()),
        4 => val(any::<u16>()),
        5 => val(any::<u32>()),
        6 => val(any::<u64>()),
        7 => val(any::<u128>()),
        8 => val(any::<i8>()),
        9 => val(any::<i16>()),
        10 => val(any::<i32>()),
        11 => val(any::<i64>()),
        12 => val(any::<i128>()),
        13 => val(any::<usize>()),
        14 => val(any::<isize>()),
        15 => val([0.0f32, -0.0, 0.1, f32::MAX, f32::NEG_INFINITY, f32::NAN][sym::pick(6)]),
        16 => val([0.0f64, -0.0, 0.1, f64::MIN_POSITIVE, f64::INFINITY, f64::NAN][sym::pick(6)]),
        17 => V::try_from(sym::slice::<3>().get()).unwrap(),
        18 => V::try_from(sym::string::<3>().get()).unwrap(),
        _ => V::Option(None),
    }
}
/// Some of them, for use within other values.
fn small() -> V {
    match sym::pick(5) {
        0 => V::Unit,
        1 => V::Bool(any()),
        2 => val(any::<i16>()),
        3 => V::try_from(sym::string::<1>().get()).unwrap(),
        _ => V::Option(None),
    }
}
fn vs<T>(v: Vec<T>) -> Vs<T> {
    v.into()
}
fn boxed<T>(v: T) -> musli::alloc::Box<T, System> {
    musli::alloc::Box::new_in(v, System::new()).unwrap()
}
fn node(mut leaf: impl FnMut() -> V) -> V {
    match sym::pick(9) {
        0 => V::Sequence(vs(vec![])),
        1 => V::Sequence(vs(vec![leaf()])),
        2 => V::Sequence(vs(vec![leaf(), V::Unit, V::Bool(true)])),
        3 => V::Map(vs(vec![])),
        4 => V::Map(vs(vec![(leaf(), V::Bool(false))])),
        5 => V::Map(vs(vec![(val(1u8), leaf()), (V::Bool(true), V::Unit)])),
        6 => V::Variant(boxed((leaf(), V::Unit))),
        7 => V::Variant(boxed((V::try_from("T").unwrap(), leaf()))),
        _ => V::Option(Some(boxed(leaf()))),
    }
}
fn tree(k: usize) -> V {
    match k {
        0 => leaf(),
        1 => node(leaf),
        _ => node(|| node(small)),
    }
}
/// Equal, with floats being equal by their bits.
fn eq(a: &V, b: &V) -> bool {
    if a == b {
        return true;
    }
    match (a, b) {
        (V::Number(..), V::Number(..)) => {
            format_of(a) == format_of(b)
        }
        (V::Sequence(a), V::Sequence(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| eq(a, b)),
        (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| eq(&a.0, &b.0) && eq(&a.1, &b.1)),
        (V::Variant(a), V::Variant(b)) => eq(&a.0, &b.0) && eq(&a.1, &b.1),
        (V::Option(Some(a)), V::Option(Some(b))) => eq(a, b),
        _ => false,
    }
}
/// The exact bytes of a number.
fn format_of(v: &V) -> [u8; 24] {
    let mut b = [0; 24];
    <StorageO<FIX_LE> as Fmt>::enc(sx(), &mut b, v).expect("encode");
    b
}

/// A format that describes all of its data decodes to the same dynamic value.
fn described<F: Fmt<Mode = Binary>>(v: V) {
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &v).expect("encode"));
    let mut r = &b[..];
    let o: V = F::dec(sx(), &mut r).expect("decode");
    same!(r.len(), B - n);
    if !eq(&o, &v) {
        panic!("another dynamic value is decoded");
    }
    let mut r = &b[..];
    F::dec::<_, Skipped>(sx(), &mut r).expect("skip");
    same!(r.len(), B - n);
    sym::observe_bytes(&b[..n]);
    sym::cover(1);
}

/// A dynamic value decoded as one is itself.
fn itself(v: V) {
    let o: V = as_a(&v).expect("decode as itself");
    if !eq(&o, &v) {
        panic!("another dynamic value is decoded");
    }
    sym::cover(1);
}

/// What JSON keeps of a dynamic value.
fn json_eq(v: &V, j: &V) -> bool {
    match (v, j) {
        (V::Unit | V::Option(None), V::Unit | V::Option(None)) => true,
        (V::Option(Some(v)), j) => json_eq(v, j),
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Char(c), V::String(s)) => {
            let mut b = [0; 4];
            **s == *c.encode_utf8(&mut b)
        }
        (V::String(a), V::String(b)) => **a == **b,
        (V::Number(..), V::Number(..)) => match (as_a::<i128>(v), as_a::<i128>(j)) {
            (Ok(a), Ok(b)) => a == b,
            (Err(..), Err(..)) => matches!((as_a::<u128>(v), as_a::<u128>(j)), (Ok(a), Ok(b)) if a == b),
            _ => false,
        },
        (V::Bytes(a), V::Sequence(b)) => {
            a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| as_a::<u8>(b).is_ok_and(|b| *a == b))
        }
        (V::Sequence(a), V::Sequence(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| json_eq(a, b)),
        (V::Map(a), V::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| key_eq(&a.0, &b.0) && json_eq(&a.1, &b.1))
        }
        (V::Variant(a), V::Map(b)) => b.len() == 1 && key_eq(&a.0, &b[0].0) && json_eq(&a.1, &b[0].1),
        _ => false,
    }
}
fn key_eq(v: &V, j: &V) -> bool {
    match (v, j) {
        (V::Number(..), V::String(s)) => match as_a::<i128>(v) {
            Ok(v) => s.parse::<i128>() == Ok(v),
            Err(..) => false,
        },
        _ => json_eq(v, j),
    }
}
fn json(v: V) {
    let mut b = buf::<Json>();
    let n = sym::concrete(Json::enc(sx(), &mut b, &v).expect("encode"));
    let mut r = &b[..n];
    let o: V = Json::dec(sx(), &mut r).expect("decode");
    same!(r.len(), 0);
    if !json_eq(&v, &o) {
        panic!("JSON represents something else");
    }
    sym::observe_bytes(&b[..n]);
    sym::cover(1);
}
fn json_leaf() -> V {
    match sym::pick(10) {
        0 => V::Unit,
        1 => V::Bool(any()),
        2 => V::Char(any()),
        3 => val(any::<u8>()),
        4 => val(any::<i8>()),
        5 => val([0u64, 999, 1 << 32, u64::MAX][sym::pick(4)]),
        6 => val([i128::MIN, i128::MAX, -1][sym::pick(3)]),
        7 => V::try_from(sym::slice::<1>().get()).unwrap(),
        8 => V::try_from(sym::string::<2>().get()).unwrap(),
        _ => V::Option(None),
    }
}
fn json_node(mut leaf: impl FnMut() -> V) -> V {
    match sym::pick(9) {
        0 => V::Sequence(vs(vec![])),
        1 => V::Sequence(vs(vec![leaf()])),
        2 => V::Sequence(vs(vec![leaf(), V::Unit, V::Bool(true)])),
        3 => V::Map(vs(vec![])),
        4 => V::Map(vs(vec![(V::try_from(sym::string::<1>().get()).unwrap(), leaf())])),
        5 => V::Map(vs(vec![(val(1u8), leaf()), (val(-300i16), V::Unit)])),
        6 => V::Variant(boxed((V::try_from("T").unwrap(), leaf()))),
        7 => V::Variant(boxed((val(7u8), leaf()))),
        _ => V::Option(Some(boxed(leaf()))),
    }
}
fn json_small() -> V {
    match sym::pick(4) {
        0 => V::Unit,
        1 => V::Bool(any()),
        2 => val([0u8, 10, 255][sym::pick(3)]),
        _ => V::try_from(["", "\"", "\n"][sym::pick(3)]).unwrap(),
    }
}

/// A number is decoded as any type that holds it, and as no other.
#[inline(never)]
fn number<A, T>()
where
    A: Sym + Copy + Encode<Binary> + TryInto<T>,
    T: PartialEq + for<'de> Decode<'de, Binary, System>,
{
    let a: A = any();
    let want: Option<T> = a.try_into().ok();
    let got: Option<T> = as_a(&val(a)).ok();
    if want != got {
        panic!("number is converted differently");
    }
    sym::cover(1);
}
macro_rules! grid {
    ($go:ident [$($a:ident)*] $b:tt) => {
        fn $go(k: usize) {
            let mut i = 0;
            $(
                if k == i {
                    grid!(@ $a $b);
                }
                i += 1;
            )*
            let _ = i;
        }
    };
    (@ $a:ident [$($b:ident)*]) => {
        let k = sym::pick(12);
        let mut i = 0;
        $(
            if k == i {
                number::<$a, $b>();
            }
            i += 1;
        )*
        let _ = i;
    };
}
grid!(numbers [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize] [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize]);

/// Floats are decoded as integers only if that is what they are.
fn floats() {
    const F: [f64; 20] = [
        0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -0.5, 255.0, 256.0, -128.0, -129.0, 65535.0, 4294967295.0, 4294967296.0,
        9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, f64::INFINITY, f64::NAN, 1e40,
    ];
    let f = F[sym::pick(20)];
    // the whole number it is
    let whole: Option<i128> = (f as i128 as f64 == f && f.abs() < 1e38).then_some(f as i128);
    macro_rules! each {
        ($($k:literal $t:ty),*) => {
            match sym::pick(12) {
                $($k => {
                    let want = whole.and_then(|v| <$t>::try_from(v).ok());
                    same!(as_a::<$t>(&val(f)).ok(), want);
                    if f as f32 as f64 == f {
                        same!(as_a::<$t>(&val(f as f32)).ok(), want);
                    }
                })*
                _ => {}
            }
        };
    }
    each!(0 u8, 1 u16, 2 u32, 3 u64, 4 u128, 5 usize, 6 i8, 7 i16, 8 i32, 9 i64, 10 i128, 11 isize);
    sym::cover(1);
}

/// Another shape is an error.
fn shapes() {
    let k = sym::pick(9);
    let v = match k {
        0 => V::Bool(any()),
        1 => V::Char(any()),
        2 => val(any::<u16>()),
        3 => V::try_from(sym::slice::<2>().get()).unwrap(),
        4 => V::try_from(sym::string::<2>().get()).unwrap(),
        5 => V::Sequence(vs(vec![V::Bool(any())])),
        6 => V::Map(vs(vec![(V::Bool(any()), V::Unit), (V::Bool(any()), V::Unit)])),
        7 => V::Variant(boxed((V::Unit, V::Unit))),
        _ => V::Unit,
    };
    let fits = |n: &[usize], ok: bool| {
        if ok && !n.contains(&k) {
            panic!("decoded as another shape");
        }
    };
    match sym::pick(9) {
        0 => fits(&[0], as_a::<bool>(&v).is_ok()),
        // a string of one character as in JSON
        1 => fits(&[1, 4], as_a::<char>(&v).is_ok()),
        2 => fits(&[2], as_a::<u32>(&v).is_ok()),
        3 => fits(&[2], as_a::<f64>(&v).is_ok()),
        4 => fits(&[4], as_a::<String>(&v).is_ok()),
        5 => fits(&[5], as_a::<Vec<bool>>(&v).is_ok()),
        6 => fits(&[6], as_a::<std::collections::BTreeMap<bool, ()>>(&v).is_ok()),
        7 => fits(&[7], as_a::<Result<(), ()>>(&v).is_ok()),
        _ => fits(&[8], as_a::<()>(&v).is_ok()),
    }
    sym::cover(1);
}

/// Empty values are not lost.
fn empties() {
    match sym::pick(6) {
        0 => Keep::go(vec![(); sym::pick(4)]),
        1 => Keep::go(if sym::bool() { Some(()) } else { None }),
        2 => Keep::go(vec![Some(()), None][..sym::pick(3)].to_vec()),
        3 => Keep::go(((), any::<u8>(), ())),
        4 => Keep::go([((), 1u8)].into_iter().collect::<std::collections::BTreeMap<_, _>>()),
        _ => Keep::go(if sym::bool() { Some(None) } else { Some(Some(())) }),
    }
}

/// Keys of JSON objects are strings, and more than one number is beyond reach.
fn json_containers() {
    type O = Out<Json>;
    match sym::pick(8) {
        0 => O::go(any::<Option<u8>>()),
        1 => O::go((any::<i8>(), any::<bool>(), 300u16)),
        2 => O::go([0u16, any::<u8>() as u16]),
        3 => O::go(model::vec::<bool, { tier(3, 4) }>()),
        4 => O::go(vec![model::vec::<bool, 2>(), vec![]]),
        5 => O::go(vec![any::<Option<bool>>(), None, any()]),
        6 => O::go([(model::string::<1>(), any::<bool>())].into_iter().collect::<std::collections::BTreeMap<_, _>>()),
        _ => O::go(if sym::bool() { Ok::<bool, u8>(any()) } else { Err(any()) }),
    }
}

/// Any input that decodes as a dynamic value is encoded as an equal one.
fn input<F: Fmt, const N: usize>()
where
    V: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let b = sym::slice::<N>();
    let mut r = b.get();
    let Ok(v) = F::dec::<_, V>(sx(), &mut r) else { return };
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &v).expect("encode"));
    let mut r = &b[..n];
    let o: V = F::dec(sx(), &mut r).expect("decode");
    if !eq(&o, &v) {
        panic!("another dynamic value is decoded");
    }
    sym::cover(1);
}

crate::harnesses! {
    fn h_m13_scalars() { model::scalars::<_, Keep>(sym::pick(model::SCALARS)) }
    fn h_m13_floats() { model::floats::<_, Keep>(sym::pick(2)) }
    fn h_m13_containers() { model::containers::<_, Keep>(sym::pick(model::CONTAINERS)) }
    fn h_m13_texts() { model::texts::<_, Keep>(sym::pick(model::TEXTS)) }
    fn h_m13_structs() { model::structs::<_, Keep>(sym::pick(model::STRUCTS)) }
    fn h_m13_tagged() { model::tagged::<_, Keep>(sym::pick(model::TAGGED)) }
    fn h_m13_others() { model::others::<_, Keep>(sym::pick(model::OTHERS)) }
    fn h_m13_system() { model::system::<_, Keep>(sym::pick(model::SYSTEM)) }
    fn h_m13_longs() { model::longs::<_, Keep>(sym::pick(model::LONGS)) }
    fn h_m13_empties() { empties() }
    fn h_m13_same_scalars() {
        match sym::pick(3) {
            0 => model::scalars::<_, Same<Storage>>(sym::pick(model::SCALARS)),
            1 => model::scalars::<_, Same<Wire>>(sym::pick(model::SCALARS)),
            _ => model::scalars::<_, Same<D>>(sym::pick(model::SCALARS)),
        }
    }
    fn h_m13_same_containers() {
        match sym::pick(3) {
            0 => model::containers::<_, Same<Storage>>(sym::pick(model::CONTAINERS)),
            1 => model::containers::<_, Same<Wire>>(sym::pick(model::CONTAINERS)),
            _ => model::containers::<_, Same<D>>(sym::pick(model::CONTAINERS)),
        }
    }
    fn h_m13_same_texts() {
        match sym::pick(3) {
            0 => model::texts::<_, Same<StorageO<FIX_BE>>>(sym::pick(model::TEXTS)),
            1 => model::texts::<_, Same<Wire>>(sym::pick(model::TEXTS)),
            _ => model::texts::<_, Same<D>>(sym::pick(model::TEXTS)),
        }
    }
    // packs and arrays of bytes are held as bytes
    fn h_m13_same_structs() {
        let k = model::except(model::STRUCTS, &[2, 4, 8, 9]);
        match sym::pick(3) {
            0 => model::structs::<_, Same<Storage>>(k),
            1 => model::structs::<_, Same<WireO<FIX_BE>>>(k),
            _ => model::structs::<_, Same<D>>(k),
        }
    }
    fn h_m13_leaf() { described::<D>(tree(0)) }
    fn h_m13_node() { described::<D>(tree(1)) }
    fn h_m13_deep() { described::<D>(tree(2)) }
    fn h_m13_fixed() { described::<DescriptiveO<FIX_BE>>(tree(1)) }
    fn h_m13_itself() { itself(tree(sym::pick(2))) }
    fn h_m13_json_leaf() { json(json_leaf()) }
    fn h_m13_json_node() { json(json_node(json_leaf)) }
    fn h_m13_json_deep() { json(json_node(|| json_node(json_small))) }
    fn h_m13_json_containers() { json_containers() }
    fn h_m13_json_texts() { model::texts::<_, Out<Json>>(sym::pick(model::TEXTS)) }
    fn h_m13_numbers() { numbers(sym::pick(12)) }
    fn h_m13_number_floats() { floats() }
    fn h_m13_shapes() { shapes() }
    fn h_m13_input() { input::<D, { tier(4, 5) }>() }
}
