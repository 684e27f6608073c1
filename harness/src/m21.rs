//! M21: the ways to put a value together with an encoder agree.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any};
use crate::rt::*;
use crate::sym::{self, Sym};
use core::marker::PhantomData;
use musli::alloc::{Allocator, System};
use musli::en::{EntriesEncoder, EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder};
use musli::mode::{Binary, Text};
use musli::options::Options;
use musli::value::{self, Value};
use musli::{Decode, Encode, Encoder};
use std::collections::{BTreeMap, VecDeque};

type D = Descriptive;
type J = Json;
type P = Packed;
type W = Wire;
type S = Storage;

/// `$f(self, encoder)`
macro_rules! by {
    ($(#[$a:meta])* $n:ident<$t:ident>($($f:ident: $ft:ty),*) |$s:ident, $e:ident| $b:expr) => {
        $(#[$a])*
        struct $n<'a, $t>{$($f: $ft,)* of: PhantomData<&'a $t>}
        impl<'a, M: 'static, $t: Encode<M>> Encode<M> for $n<'a, $t> {
            type Encode = Self;
            const IS_BITWISE_ENCODE: bool = false;
            #[inline(never)]
            fn encode<E: Encoder<Mode = M>>(&self, $e: E) -> Result<(), E::Error> {
                let $s = self;
                $b
            }
            fn as_encode(&self) -> &Self {
                self
            }
        }
    };
}

const SEQS: usize = 9;
by! {
    /// A sequence by its elements; `at` is where it's split.
    Seq<T>(style: usize, at: usize, v: &'a [T]) |s, e| {
        let (a, b) = s.v.split_at(s.at);
        let n = s.v.len();
        match s.style {
            0 => {
                let mut q = e.encode_sequence(n)?;
                for x in s.v {
                    q.push(x)?;
                }
                q.finish_sequence()
            }
            1 => {
                let mut q = e.encode_sequence(Some(n))?;
                for x in s.v {
                    q.encode_next()?.encode(x)?;
                }
                q.finish_sequence()
            }
            2 => e.encode_sequence_fn(n, |q| {
                for x in s.v {
                    q.push(x)?;
                }
                Ok(())
            }),
            3 => e.encode_sequence_fn(n, |q| q.encode_slice(s.v)),
            4 => e.encode_sequence_fn(n, |q| {
                q.encode_slice(a)?;
                q.encode_slice(b)
            }),
            5 => e.encode_sequence_fn(n, |q| q.encode_slices([a, b])),
            6 => e.encode_sequence_fn(n, |q| {
                for x in a {
                    q.push(x)?;
                }
                q.encode_slice(b)
            }),
            7 => e.encode_sequence_fn(n, |q| {
                q.encode_slices([a, &[]])?;
                for x in b {
                    q.push(x)?;
                }
                Ok(())
            }),
            _ => {
                let mut q = e.encode_sequence(n)?;
                for x in s.v {
                    x.encode(q.encode_next()?)?;
                }
                q.finish_sequence()
            }
        }
    }
}
const SLICES: usize = 4;
by! {
    /// A slice of elements.
    Slice<T>(style: usize, at: usize, v: &'a [T]) |s, e| {
        let (a, b) = s.v.split_at(s.at);
        match s.style {
            0 => e.encode_slice(s.v),
            1 => e.encode_slices(s.v.len(), [a, b]),
            2 => e.encode_slices(s.v.len(), [a, &[], b, &[]]),
            _ => e.encode(s.v),
        }
    }
}
const PACKS: usize = 5;
by! {
    /// A pack of elements.
    Pack<T>(style: usize, at: usize, v: &'a [T]) |s, e| {
        let (a, b) = s.v.split_at(s.at);
        match s.style {
            0 => {
                let mut q = e.encode_pack()?;
                for x in s.v {
                    q.push(x)?;
                }
                q.finish_sequence()
            }
            1 => e.encode_pack_fn(|q| {
                for x in s.v {
                    q.encode_next()?.encode(x)?;
                }
                Ok(())
            }),
            2 => e.encode_pack_fn(|q| q.encode_slice(s.v)),
            3 => e.encode_pack_fn(|q| q.encode_slices([a, b])),
            _ => e.encode_pack_fn(|q| {
                q.encode_slice(a)?;
                for x in b {
                    q.push(x)?;
                }
                Ok(())
            }),
        }
    }
}
const MAPS: usize = 7;
by! {
    /// A map with keys which are numbers.
    Map<T>(style: usize, v: &'a [(u8, T)]) |s, e| {
        let n = s.v.len();
        match s.style {
            0 => {
                let mut m = e.encode_map(n)?;
                for (k, v) in s.v {
                    let mut x = m.encode_entry()?;
                    x.encode_key()?.encode(k)?;
                    x.encode_value()?.encode(v)?;
                    x.finish_entry()?;
                }
                m.finish_map()
            }
            1 => {
                let mut m = e.encode_map(Some(n))?;
                for (k, v) in s.v {
                    m.insert_entry(k, v)?;
                }
                m.finish_map()
            }
            2 => e.encode_map_fn(n, |m| {
                for (k, v) in s.v {
                    m.encode_entry_fn(|x| {
                        x.encode_key()?.encode(k)?;
                        x.encode_value()?.encode(v)
                    })?;
                }
                Ok(())
            }),
            3 => {
                let mut m = e.encode_map_entries(n)?;
                for (k, v) in s.v {
                    m.encode_entry_key()?.encode(k)?;
                    m.encode_entry_value()?.encode(v)?;
                }
                m.finish_entries()
            }
            4 => {
                let mut m = e.encode_map_entries(n)?;
                for (k, v) in s.v {
                    m.insert_entry(k, v)?;
                }
                m.finish_entries()
            }
            5 => e.encode_map_fn(n, |m| {
                for (k, v) in s.v {
                    m.encode_entry()?.insert_entry(k, v)?;
                }
                Ok(())
            }),
            6 => e.encode_map_fn(n, |m| {
                let mut x = m.as_encoder().encode_map(n)?;
                for (k, v) in s.v {
                    x.insert_entry(k, v)?;
                }
                x.finish_map()
            }),
            _ => unreachable!(),
        }
    }
}
const VARIANTS: usize = 4;
by! {
    /// A variant of one value.
    Var<T>(style: usize, tag: u8, v: &'a T) |s, e| {
        match s.style {
            0 => {
                let mut x = e.encode_variant()?;
                x.encode_tag()?.encode(s.tag)?;
                x.encode_data()?.encode(s.v)?;
                x.finish_variant()
            }
            1 => e.encode_variant_fn(|x| {
                x.encode_tag()?.encode(s.tag)?;
                x.encode_data()?.encode(s.v)
            }),
            2 => e.encode_variant()?.insert_variant(s.tag, s.v),
            _ => {
                let mut x = e.encode_variant()?;
                x.encode_tag()?.encode_u8(s.tag)?;
                s.v.encode(x.encode_data()?)?;
                x.finish_variant()
            }
        }
    }
}
by! {
    /// A variant without anything in it.
    Empty<T>(style: usize, tag: u8, v: &'a T) |s, e| {
        match s.style {
            0 => e.encode_variant_fn(|x| {
                x.encode_tag()?.encode(s.tag)?;
                x.encode_data()?.encode_empty()
            }),
            _ => e.encode_unit_variant(&s.tag),
        }
    }
}
by! {
    /// A variant of a sequence.
    SeqVar<T>(style: usize, tag: u8, v: &'a [T]) |s, e| {
        match s.style {
            0 => e.encode_variant_fn(|x| {
                x.encode_tag()?.encode(s.tag)?;
                x.encode_data()?.encode_sequence_fn(s.v.len(), |q| {
                    for x in s.v {
                        q.push(x)?;
                    }
                    Ok(())
                })
            }),
            _ => {
                let mut q = e.encode_sequence_variant(&s.tag, s.v.len())?;
                for x in s.v {
                    q.push(x)?;
                }
                q.finish_sequence()
            }
        }
    }
}
by! {
    /// A variant of a map.
    MapVar<T>(style: usize, tag: u8, v: &'a [(u8, T)]) |s, e| {
        match s.style {
            0 => e.encode_variant_fn(|x| {
                x.encode_tag()?.encode(s.tag)?;
                x.encode_data()?.encode_map_fn(s.v.len(), |m| {
                    for (k, v) in s.v {
                        m.insert_entry(k, v)?;
                    }
                    Ok(())
                })
            }),
            _ => {
                let mut m = e.encode_map_variant(&s.tag, s.v.len())?;
                for (k, v) in s.v {
                    m.insert_entry(k, v)?;
                }
                m.finish_map()
            }
        }
    }
}
by! {
    /// Bytes.
    Bytes<T>(style: usize, at: usize, v: &'a [u8], x: &'a T) |s, e| {
        let _ = s.x;
        let (a, b) = s.v.split_at(s.at);
        match s.style {
            0 => e.encode_bytes(s.v),
            1 => e.encode_bytes_vectored(s.v.len(), [a, b]),
            _ => e.encode_bytes_vectored(s.v.len(), [&[], a, &[], b]),
        }
    }
}
/// Displayed in parts.
struct Show<'a>(&'a str, char, u8);
impl core::fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        match self.2 {
            0 => {
                f.write_str(self.0)?;
                core::fmt::Write::write_char(f, self.1)
            }
            1 => write!(f, "{}{}", self.0, self.1),
            _ => {
                for c in self.0.chars() {
                    core::fmt::Write::write_char(f, c)?;
                }
                write!(f, "{}", self.1)
            }
        }
    }
}
by! {
    /// Text.
    Str<T>(style: usize, v: &'a Show<'a>, x: &'a T, all: &'a str) |s, e| {
        let _ = s.x;
        match s.style {
            0 => e.encode_string(s.all),
            1 => e.encode(s.all),
            _ => e.collect_string(s.v),
        }
    }
}
by! {
    /// An optional value.
    Opt<T>(style: usize, v: &'a Option<T>) |s, e| {
        match (s.style, s.v) {
            (0, Some(v)) => e.encode_some()?.encode(v),
            (1, Some(v)) => v.encode(e.encode_some()?),
            (_, None) => e.encode_none(),
            (_, v) => e.encode(v),
        }
    }
}

/// Something to encode with.
trait Sink {
    /// The encodings are the same.
    fn same<A, B>(a: &A, b: &B)
    where
        A: Encode<Binary> + Encode<Text>,
        B: Encode<Binary> + Encode<Text>;
    /// And are of the given value.
    fn back<A, T>(a: &A, v: &T)
    where
        A: Encode<Binary> + Encode<Text>,
        T: PartialEq + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Text, System>;
}
fn same<F: Fmt, A: Encode<F::Mode>, B: Encode<F::Mode>>(a: &A, b: &B) {
    let (mut x, mut y) = (buf::<F>(), buf::<F>());
    let n = sym::concrete(F::enc(sx(), &mut x, a).expect("encode"));
    let m = sym::concrete(F::enc(sx(), &mut y, b).expect("encode in another way"));
    if x[..n] != y[..m] {
        panic!("the encoding depends on how it's put together");
    }
    // between other values
    let n = sym::concrete(F::enc(sx(), &mut x, &(true, a, 7u8)).expect("encode"));
    let m = sym::concrete(F::enc(sx(), &mut y, &(true, b, 7u8)).expect("encode in another way"));
    if x[..n] != y[..m] {
        panic!("the encoding in between depends on how it's put together");
    }
    sym::observe_bytes(&x[..n]);
    sym::cover(1);
}
fn back<F: Fmt, A, T>(a: &A, v: &T)
where
    A: Encode<F::Mode>,
    T: PartialEq + for<'de> Decode<'de, F::Mode, System>,
{
    let mut x = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut x, a).expect("encode"));
    let o: T = F::from(sx(), &x[..n]).expect("decode what is put together");
    if o != *v {
        panic!("another value is put together");
    }
    sym::cover(2);
}
macro_rules! sink {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Sink for $t {
            fn same<A, B>(a: &A, b: &B)
            where
                A: Encode<Binary> + Encode<Text>,
                B: Encode<Binary> + Encode<Text>,
            {
                same::<$t, A, B>(a, b)
            }
            fn back<A, T>(a: &A, v: &T)
            where
                A: Encode<Binary> + Encode<Text>,
                T: PartialEq + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Text, System>,
            {
                back::<$t, A, T>(a, v)
            }
        }
    };
}
sink!([const O: Options] StorageO<O>);
sink!([const O: Options] WireO<O>);
sink!([const O: Options] PackedO<O>);
sink!([const O: Options] DescriptiveO<O>);
sink!([] Json);
/// Dynamic values.
struct Dyn;
impl Sink for Dyn {
    fn same<A, B>(a: &A, b: &B)
    where
        A: Encode<Binary> + Encode<Text>,
        B: Encode<Binary> + Encode<Text>,
    {
        let a: Value<System> = value::encode(a).expect("encode");
        let b: Value<System> = value::encode(b).expect("encode in another way");
        if a != b {
            panic!("the dynamic value depends on how it's put together");
        }
        sym::cover(1);
    }
    fn back<A, T>(a: &A, v: &T)
    where
        A: Encode<Binary> + Encode<Text>,
        T: PartialEq + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Text, System>,
    {
        let a: Value<System> = value::encode(a).expect("encode");
        let o: T = value::decode_with::<_, T, Binary>(sx(), &a).expect("decode what is put together");
        if o != *v {
            panic!("another value is put together");
        }
        sym::cover(2);
    }
}

fn pick(n: usize) -> usize {
    sym::pick(n as u8)
}

trait Elem: Clone + PartialEq + Encode<Binary> + Encode<Text> + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Text, System> {}
impl<T> Elem for T where T: Clone + PartialEq + Encode<Binary> + Encode<Text> + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, Text, System> {}

fn seqs_of<F: Sink, T: Elem>(v: &[T], decodes: bool) {
    let len = pick(v.len() + 1);
    let (v, at) = (&v[..len], pick(len + 1));
    let a = Seq { style: 0, at: 0, v, of: PhantomData };
    let b = Seq { style: 1 + pick(SEQS - 1), at, v, of: PhantomData };
    F::same(&a, &b);
    if decodes {
        F::back(&b, &Many(v.to_vec()));
    }
}
/// Decodes the elements one by one.
#[derive(PartialEq)]
struct Many<T>(Vec<T>);
impl<'de, M: 'static, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Many<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: musli::Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        use musli::de::SequenceDecoder;
        d.decode_sequence(|s| {
            let mut o = vec![];
            while let Some(x) = s.try_next()? {
                o.push(x);
            }
            Ok(Many(o))
        })
    }
}
/// Decodes elements of a pack.
#[derive(PartialEq)]
struct Three<T>(T, T, T);
impl<'de, M: 'static, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Three<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: musli::Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        use musli::de::SequenceDecoder;
        d.decode_pack(|s| Ok(Three(s.next()?, s.next()?, s.next()?)))
    }
}
fn slices_of<F: Sink, T: Elem>(v: &[T]) {
    let len = pick(v.len() + 1);
    let (v, at) = (&v[..len], pick(len + 1));
    let a = Slice { style: 0, at: 0, v, of: PhantomData };
    let b = Slice { style: 1 + pick(SLICES - 1), at, v, of: PhantomData };
    F::same(&a, &b);
    F::back(&b, &v.to_vec());
    let mut q: VecDeque<T> = v[at..].iter().cloned().collect();
    for x in v[..at].iter().rev() {
        q.push_front(x.clone());
    }
    F::same(&a, &q);
}
fn packs_of<F: Sink, T: Elem>(v: &[T]) {
    let len = pick(v.len() + 1);
    let (v, at) = (&v[..len], pick(len + 1));
    let a = Pack { style: 0, at: 0, v, of: PhantomData };
    let b = Pack { style: 1 + pick(PACKS - 1), at, v, of: PhantomData };
    F::same(&a, &b);
    if let [x, y, z] = v {
        F::back(&b, &Three(x.clone(), y.clone(), z.clone()));
    }
}
/// Elements of every kind that may be copied as they are, and others.
fn seqs<F: Sink>() {
    match sym::pick(7) {
        0 => seqs_of::<F, u8>(&[1, any(), 200], true),
        1 => seqs_of::<F, bool>(&[true, any(), false], true),
        2 => seqs_of::<F, u32>(&[1, 70000, 3], true),
        3 => seqs_of::<F, (u8, bool)>(&[(1, any()), (any(), true)], true),
        4 => seqs_of::<F, String>(&["".into(), model::string::<2>(), "x".into()], true),
        5 => seqs_of::<F, char>(&['a', '\u{10000}', 'é'], true),
        _ => seqs_of::<F, Vec<bool>>(&[vec![], vec![any()]], true),
    }
}
fn packed<F: Sink>() {
    match sym::pick(5) {
        0 => seqs_of::<F, u8>(&[1, any(), 200], false),
        1 => seqs_of::<F, u32>(&[any(), any(), 3], false),
        2 => seqs_of::<F, (u8, bool)>(&[(1, any()), (any(), true)], false),
        3 => packs_of::<F, u16>(&[1, any(), any()]),
        _ => packs_of::<F, String>(&["".into(), model::string::<2>(), "x".into()]),
    }
}
fn slices<F: Sink>() {
    match sym::pick(6) {
        0 => slices_of::<F, u8>(&[1, any(), 200]),
        1 => slices_of::<F, bool>(&[true, any(), false]),
        2 => slices_of::<F, u32>(&[1, 70000, 3]),
        3 => slices_of::<F, (u8, bool)>(&[(1, any()), (any(), true)]),
        4 => slices_of::<F, String>(&["".into(), model::string::<2>(), "x".into()]),
        _ => slices_of::<F, char>(&['a', '\u{10000}', 'é']),
    }
}
fn packs<F: Sink>() {
    match sym::pick(4) {
        0 => packs_of::<F, u8>(&[1, any(), 200]),
        1 => packs_of::<F, bool>(&[true, any(), false]),
        2 => packs_of::<F, u32>(&[1, 70000, 3]),
        _ => packs_of::<F, String>(&["".into(), model::string::<2>(), "x".into()]),
    }
}
fn maps<F: Sink>() {
    fn of<F: Sink, T: Elem>(v: &[(u8, T)]) {
        let v = &v[..pick(v.len() + 1)];
            let a = Map { style: 0, v, of: PhantomData };
        let b = Map { style: 1 + pick(MAPS - 1), v, of: PhantomData };
        F::same(&a, &b);
        F::back(&b, &v.iter().cloned().collect::<BTreeMap<u8, T>>());
    }
    match sym::pick(3) {
        0 => of::<F, bool>(&[(3, any()), (200, any())]),
        1 => of::<F, String>(&[(0, model::string::<2>()), (200, "".into())]),
        _ => of::<F, Vec<bool>>(&[(1, vec![any()]), (20, vec![])]),
    }
}
#[derive(PartialEq)]
struct Back<T>(u8, T);
impl<'de, M: 'static, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Back<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: musli::Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        use musli::de::VariantDecoder;
        use musli::Decoder;
        d.decode_variant(|v| {
            let t = v.decode_tag()?.decode()?;
            Ok(Back(t, v.decode_value()?.decode()?))
        })
    }
}
fn variants<F: Sink>() {
    let tag = [0u8, 127, 255][pick(3)];
    match sym::pick(5) {
        0 => {
            let x = any::<bool>();
            let b = Var { style: 1 + pick(VARIANTS - 1), tag, v: &x, of: PhantomData };
            F::same(&Var { style: 0, tag, v: &x, of: PhantomData }, &b);
            F::back(&b, &Back(tag, x.clone()));
        }
        1 => {
            let x = model::string::<2>();
            let b = Var { style: 1 + pick(VARIANTS - 1), tag, v: &x, of: PhantomData };
            F::same(&Var { style: 0, tag, v: &x, of: PhantomData }, &b);
            F::back(&b, &Back(tag, x.clone()));
        }
        2 => {
            let b = Empty { style: 1, tag, v: &true, of: PhantomData };
            F::same(&Empty { style: 0, tag, v: &true, of: PhantomData }, &b);
            F::back(&b, &Back(tag, ()));
        }
        3 => {
            let v = [any::<bool>(), true];
            let v = &v[..pick(3)];
            let b = SeqVar { style: 1, tag, v, of: PhantomData };
            F::same(&SeqVar { style: 0, tag, v, of: PhantomData }, &b);
            F::back(&b, &Back(tag, Many(v.to_vec())));
        }
        _ => {
            let v = [(4u8, any::<bool>()), (99, true)];
            let v = &v[..pick(3)];
            let b = MapVar { style: 1, tag, v, of: PhantomData };
            F::same(&MapVar { style: 0, tag, v, of: PhantomData }, &b);
            F::back(&b, &Back(tag, v.iter().copied().collect::<BTreeMap<_, _>>()));
        }
    }
}
fn others<F: Sink>() {
    match sym::pick(3) {
        0 => {
            let v = [1, any::<u8>(), 255];
            let v = &v[..pick(4)];
            let at = pick(v.len() + 1);
            let b = Bytes { style: 1 + pick(2), at, v, x: &(), of: PhantomData };
            F::same(&Bytes { style: 0, at, v, x: &(), of: PhantomData }, &b);
        }
        1 => {
            let s = model::string::<2>();
            let c = ['a', '"', '\n', '\u{10ffff}'][pick(4)];
            let mut all = s.clone();
            all.push(c);
            let v = Show(&s, c, sym::pick(3) as u8);
            let b = Str { style: 1 + pick(2), v: &v, all: &all, x: &(), of: PhantomData };
            F::same(&Str { style: 0, v: &v, all: &all, x: &(), of: PhantomData }, &b);
            F::back(&b, &all);
        }
        _ => {
            let v = any::<Option<u8>>();
            let b = Opt { style: 1 + pick(2), v: &v, of: PhantomData };
            F::same(&Opt { style: 0, v: &v, of: PhantomData }, &b);
            F::back(&b, &v);
        }
    }
}
fn vars<F: Sink>() {
    match sym::pick(3) {
        0 => variants::<F>(),
        1 => others::<F>(),
        _ => maps::<F>(),
    }
}

crate::harnesses! {
    fn h_m21_storage_seqs() { seqs::<S>() }
    fn h_m21_fixed_seqs() { seqs::<StorageO<FIX_NE>>() }
    fn h_m21_swapped_seqs() { seqs::<StorageO<FIX_BE>>() }
    fn h_m21_wire_seqs() { seqs::<W>() }
    fn h_m21_descriptive_seqs() { seqs::<D>() }
    fn h_m21_json_seqs() { seqs::<J>() }
    fn h_m21_dyn_seqs() { seqs::<Dyn>() }
    fn h_m21_packed() { packed::<P>() }
    fn h_m21_storage_slices() { slices::<S>() }
    fn h_m21_fixed_slices() { slices::<StorageO<FIX_NE>>() }
    fn h_m21_swapped_slices() { slices::<StorageO<FIX_BE>>() }
    fn h_m21_wire_slices() { slices::<W>() }
    fn h_m21_descriptive_slices() { slices::<D>() }
    fn h_m21_json_slices() { slices::<J>() }
    fn h_m21_dyn_slices() { slices::<Dyn>() }
    fn h_m21_packs() {
        match sym::pick(7) {
            0 => packs::<S>(),
            1 => packs::<W>(),
            2 => packs::<D>(),
            3 => packs::<J>(),
            4 => packs::<StorageO<FIX_NE>>(),
            5 => packs::<WireO<FIX_BE>>(),
            _ => packs::<Dyn>(),
        }
    }
    fn h_m21_storage_rest() { vars::<S>() }
    fn h_m21_fixed_rest() { vars::<StorageO<FIX_BE>>() }
    fn h_m21_wire_rest() { vars::<W>() }
    fn h_m21_descriptive_rest() { vars::<D>() }
    fn h_m21_json_rest() { vars::<J>() }
    fn h_m21_dyn_rest() { vars::<Dyn>() }
}
