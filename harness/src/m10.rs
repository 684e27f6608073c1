//! M10: types that may be copied as raw memory encode and decode like their
//! parts do one by one.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{F32, F64};
use crate::sym::{self, Sym};
use crate::tier;
use musli::alloc::{Allocator, System};
use musli::mode::Binary;
use musli::options::{ByteOrder, Float, Integer, Width};
use musli::{Decode, Decoder, Encode, Encoder};
use std::collections::VecDeque;
use std::num::*;

/// The same value, never copied as raw memory.
#[derive(Default)]
pub struct Slow<T>(pub T);
impl<M, T: Encode<M>> Encode<M> for Slow<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    #[inline]
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        self.0.encode(e)
    }
    #[inline]
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Slow<T> {
    const IS_BITWISE_DECODE: bool = false;
    #[inline]
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        T::decode(d).map(Slow)
    }
}

pub trait All: Encode<Binary> + for<'de> Decode<'de, Binary, System> {}
impl<T: Encode<Binary> + for<'de> Decode<'de, Binary, System>> All for T {}

/// A type and its counterpart which is not copied as raw memory.
pub trait Twin: All + Sized {
    type Slow: All;
    fn gen() -> Self;
    fn slow(&self) -> Self::Slow;
    fn eqs(&self, s: &Self::Slow) -> bool;
}

macro_rules! prim {
    ($($t:ty: $g:expr;)*) => {$(
        impl Twin for $t {
            type Slow = Slow<$t>;
            fn gen() -> Self {
                $g
            }
            fn slow(&self) -> Slow<$t> {
                Slow(*self)
            }
            #[inline]
            fn eqs(&self, s: &Slow<$t>) -> bool {
                *self == s.0
            }
        }
    )*};
}
macro_rules! nonzero {
    ($($t:ident $p:ident)*) => {prim! {$(
        $t: match $t::new(sym::any::<$p>()) {
            Some(v) => v,
            None => {
                sym::assume(false);
                $t::MIN
            }
        };
    )*}};
}
prim! {
    u8: sym::any(); u16: sym::any(); u32: sym::any(); u64: sym::any(); u128: sym::any(); usize: sym::any();
    i8: sym::any(); i16: sym::any(); i32: sym::any(); i64: sym::any(); i128: sym::any(); isize: sym::any();
    bool: sym::any(); char: sym::any(); (): ();
    std::marker::PhantomData<u32>: std::marker::PhantomData;
    musli::compat::Sequence<()>: musli::compat::Sequence(());
}
nonzero!(NonZeroU8 u8 NonZeroU16 u16 NonZeroU32 u32 NonZeroU64 u64 NonZeroUsize usize NonZeroI8 i8 NonZeroI32 i32);
macro_rules! floats {
    ($($t:ty)*) => {$(
        impl Twin for $t {
            type Slow = Slow<$t>;
            fn gen() -> Self {
                sym::any()
            }
            fn slow(&self) -> Slow<$t> {
                Slow(*self)
            }
            #[inline]
            fn eqs(&self, s: &Slow<$t>) -> bool {
                self.to_bits() == s.0.to_bits()
            }
        }
    )*};
}
floats!(f32 f64);
macro_rules! wrapping {
    ($($t:ty)*) => {$(
        impl Twin for Wrapping<$t> {
            type Slow = Slow<$t>;
            fn gen() -> Self {
                Wrapping(sym::any())
            }
            fn slow(&self) -> Slow<$t> {
                Slow(self.0)
            }
            #[inline]
            fn eqs(&self, s: &Slow<$t>) -> bool {
                self.0 == s.0
            }
        }
    )*};
}
wrapping!(u16 i64 bool);

macro_rules! twin {
    ($($(#[$m:meta])* $f:ident $s:ident { $($(#[$fm:meta])* $x:ident: $t:ty),* })*) => {$(
        #[derive(Encode, Decode)]
        #[musli(packed)]
        $(#[$m])*
        pub struct $f { $($(#[$fm])* $x: $t),* }
        #[derive(Encode, Decode)]
        #[musli(packed)]
        pub struct $s { $($(#[$fm])* $x: <$t as Twin>::Slow),* }
        impl Twin for $f {
            type Slow = $s;
            fn gen() -> Self {
                $f { $($x: <$t>::gen()),* }
            }
            fn slow(&self) -> $s {
                $s { $($x: self.$x.slow()),* }
            }
            #[inline]
            fn eqs(&self, s: &$s) -> bool {
                $(self.$x.eqs(&s.$x) &)* true
            }
        }
    )*};
}

twin! {
    // nothing between the fields
    #[repr(C)] Tight TightS { a: u32, b: u32 }
    #[repr(C)] Down DownS { a: u64, b: u32, c: u16, d: u16 }
    #[repr(C)] Bytes3 Bytes3S { a: u8, b: i8, c: u8 }
    #[repr(C)] Wide WideS { a: u128, b: i128 }
    #[repr(C)] Ints IntsS { a: i16, b: u16, c: i32, d: i64 }
    #[repr(C)] Floats FloatsS { a: f32, b: u32, c: f64 }
    #[repr(C)] Size SizeS { a: usize, b: isize, c: u64 }
    #[repr(C)] Nested NestedS { a: Tight, b: u64 }
    #[repr(C)] Wraps WrapsS { a: Wrapping<i64>, b: Wrapping<u16>, c: u16, d: u32 }
    One OneS { a: u32 }
    Nothing NothingS {}
    // gaps
    #[repr(C)] Gap GapS { a: u8, b: u16 }
    #[repr(C)] Tail TailS { a: u32, b: u8 }
    #[repr(C)] Mid MidS { a: u8, b: u32, c: u8 }
    #[repr(C)] InGap InGapS { a: Tail, b: u8 }
    #[repr(C, align(8))] Over OverS { a: u32 }
    // moved around by the compiler
    Free FreeS { a: u8, b: u32, c: u8, d: u16 }
    Free2 Free2S { a: u16, b: u64, c: u16 }
    // a part of no size that is written nevertheless
    #[repr(C)] Seq SeqS { a: u8, s: musli::compat::Sequence<()>, b: u8 }
    // not every bit pattern is a value
    #[repr(C)] Bool BoolS { a: u8, b: bool }
    #[repr(C)] Char CharS { a: char, b: u32 }
    #[repr(C)] Zero ZeroS { a: NonZeroU32, b: u16, c: NonZeroU16 }
    #[repr(C)] Zero8 Zero8S { a: NonZeroU8, b: bool, c: NonZeroI8 }
    #[repr(C)] InBool InBoolS { a: Bool, b: u16 }
    #[repr(C)] WrapBool WrapBoolS { a: Wrapping<bool>, b: u8 }
    // fields with an encoding of their own
    #[repr(C)] With WithS { #[musli(with = self::other)] a: u8, b: u8 }
    #[repr(C)] InWith InWithS { a: With, b: u16 }
    // fields that may be absent
    #[repr(C)] Dflt DfltS { a: u16, #[musli(default)] b: u16 }
    #[repr(C)] Opt OptS { a: u16, #[musli(default, skip_encoding_if = self::other::zero)] b: u16 }
}
/// An encoding that differs from the memory.
mod other {
    use musli::{Decode, Decoder, Encode, Encoder};
    pub trait B: Sized {
        fn b(&self) -> u8;
        fn of(b: u8) -> Self;
    }
    impl B for u8 {
        fn b(&self) -> u8 {
            *self
        }
        fn of(b: u8) -> Self {
            b
        }
    }
    impl B for super::Slow<u8> {
        fn b(&self) -> u8 {
            self.0
        }
        fn of(b: u8) -> Self {
            super::Slow(b)
        }
    }
    pub trait Z {
        fn z(&self) -> bool;
    }
    impl Z for u16 {
        fn z(&self) -> bool {
            *self == 0
        }
    }
    impl Z for super::Slow<u16> {
        fn z(&self) -> bool {
            self.0 == 0
        }
    }
    pub fn zero<T: Z>(v: &T) -> bool {
        v.z()
    }
    pub fn encode<E: Encoder, T: B>(v: &T, e: E) -> Result<(), E::Error> {
        e.encode_u16(v.b() as u16 ^ 0x5501)
    }
    pub fn decode<'de, D: Decoder<'de>, T: B>(d: D) -> Result<T, D::Error> {
        Ok(T::of((d.decode_u16()? ^ 0x5501) as u8))
    }
}

/// The same bytes, and they decode to the value.
#[inline(never)]
fn enc<F: Fmt<Mode = Binary>, T: Twin>(v: T) {
    let s = v.slow();
    let (mut a, mut b) = ([0x77u8; 64], [0x77u8; 64]);
    let m = F::enc(nx(), &mut b, &s);
    let n = F::enc(nx(), &mut a, &v);
    let (Ok(m), Ok(n)) = (m, n) else {
        // usize beyond its configured width
        same!(m.is_err(), n.is_err());
        sym::cover(3);
        return;
    };
    let (m, n) = (sym::concrete(m), sym::concrete(n));
    same!(n, m);
    same!(a, b);
    let mut r = &a[..];
    let o: T = F::dec(sx(), &mut r).expect("decode");
    same!(r.len(), 64 - n);
    if !o.eqs(&s) {
        panic!("decodes to another value");
    }
    let mut r = &a[..n];
    let o: T::Slow = F::dec(sx(), &mut r).expect("decode");
    if !v.eqs(&o) {
        panic!("decodes to another value one by one");
    }
    sym::observe_bytes(&a[..n]);
    sym::cover(1);
    // too small is an error either way, and writes nothing beyond
    if n > 0 {
        let k = sym::pick(n as u8);
        let mut c = [0x77u8; 64];
        if F::enc(nx(), &mut c[..k], &v).is_ok() {
            panic!("fits a buffer that is too small");
        }
        for i in k..64 {
            same!(c[i], 0x77);
        }
    }
}

/// Any bytes: the same verdict, value and rest.
#[inline(never)]
fn dec<F: Fmt<Mode = Binary>, T: Twin, const N: usize>() {
    let b = sym::slice::<N>();
    let (mut r, mut s) = (b.get(), b.get());
    let slow = F::dec::<_, T::Slow>(sx(), &mut s);
    let fast = F::dec::<_, T>(sx(), &mut r);
    match (fast, slow) {
        (Ok(f), Ok(g)) => {
            if !f.eqs(&g) {
                panic!("another value is decoded");
            }
            same!(r.len(), s.len());
            sym::observe(r.len() as u64);
            sym::cover(4);
        }
        (Err(..), Err(..)) => sym::cover(5),
        (Ok(..), Err(..)) => panic!("accepted although its parts are not"),
        (Err(..), Ok(..)) => panic!("rejected although its parts are accepted"),
    }
}

macro_rules! types {
    ($f:ident, $t:ident => $e:expr) => {
        match sym::pick(25) {
            0 => { type $t = Tight; $e }
            1 => { type $t = Down; $e }
            2 => { type $t = Bytes3; $e }
            3 => { type $t = Wide; $e }
            4 => { type $t = Ints; $e }
            5 => { type $t = Floats; $e }
            6 => { type $t = Size; $e }
            7 => { type $t = Nested; $e }
            8 => { type $t = Wraps; $e }
            9 => { type $t = One; $e }
            10 => { type $t = Nothing; $e }
            11 => { type $t = Gap; $e }
            12 => { type $t = Tail; $e }
            13 => { type $t = Mid; $e }
            14 => { type $t = InGap; $e }
            15 => { type $t = Over; $e }
            16 => { type $t = Free; $e }
            17 => { type $t = Free2; $e }
            18 => { type $t = Bool; $e }
            19 => { type $t = Char; $e }
            20 => { type $t = Zero; $e }
            21 => { type $t = Zero8; $e }
            22 => { type $t = InBool; $e }
            23 => { type $t = Seq; $e }
            _ => { type $t = WrapBool; $e }
        }
    };
}

fn encs<F: Fmt<Mode = Binary>>() {
    types!(F, T => enc::<F, T>(T::gen()))
}
fn decs<F: Fmt<Mode = Binary>>() {
    types!(F, T => dec::<F, T, { std::mem::size_of::<T>() + 1 }>())
}
fn other_encs<F: Fmt<Mode = Binary>>() {
    match sym::pick(4) {
        0 => enc::<F, With>(With::gen()),
        1 => enc::<F, InWith>(InWith::gen()),
        2 => enc::<F, Dflt>(Dflt::gen()),
        _ => opt::<F>(Opt::gen()),
    }
}
fn other_decs<F: Fmt<Mode = Binary>>() {
    match sym::pick(4) {
        0 => dec::<F, With, 4>(),
        1 => dec::<F, InWith, 6>(),
        2 => dec::<F, Dflt, 5>(),
        _ => dec::<F, Opt, 5>(),
    }
}
/// The absent field is at the end: nothing may follow.
fn opt<F: Fmt<Mode = Binary>>(v: Opt) {
    let s = v.slow();
    let absent = v.b == 0;
    let (mut a, mut b) = ([0x77u8; 16], [0x77u8; 16]);
    let m = sym::concrete(F::enc(nx(), &mut b, &s).expect("encode"));
    let n = sym::concrete(F::enc(nx(), &mut a, &v).expect("encode"));
    if absent && n != m {
        // the copy includes a field which is to be omitted
        sym::known(2);
        return;
    }
    same!(n, m);
    same!(a, b);
    let mut r = &a[..n];
    let o: Result<Opt, Er> = F::dec(sx(), &mut r);
    if absent && o.is_err() {
        // nor is an omitted field of packed structs decoded as its default
        sym::known(2);
        return;
    }
    let o = o.expect("decode");
    same!(r.len(), 0);
    if !o.eqs(&s) {
        panic!("decodes to another value");
    }
    sym::cover(1);
}

/// Scalars by themselves.
fn scalars<F: Fmt<Mode = Binary>>() {
    macro_rules! each {
        ($n:literal $($k:literal $t:ty),*) => {
            match sym::pick($n) {
                $($k => {
                    if sym::pick(2) == 0 {
                        enc::<F, $t>(<$t>::gen())
                    } else {
                        dec::<F, $t, { std::mem::size_of::<$t>() + 1 }>()
                    }
                })*
                _ => {}
            }
        };
    }
    each!(20 0 u8, 1 u16, 2 u32, 3 u64, 4 u128, 5 usize, 6 i8, 7 i16, 8 i32, 9 i64, 10 i128, 11 isize,
          12 bool, 13 char, 14 f32, 15 f64, 16 NonZeroU8, 17 NonZeroU32, 18 Wrapping<bool>, 19 NonZeroUsize)
}

/// What slices hold.
pub trait Item: Twin {}
impl<T: Twin> Item for T {}

/// A slice is its length and its elements one by one.
#[inline(never)]
fn slice<F: Fmt<Mode = Binary>, T: Item, const N: usize>() {
    let k = sym::pick(N as u8 + 1);
    let mut v: VecDeque<T> = VecDeque::with_capacity(4);
    // elements on both sides of the end of the ring
    let rot = sym::pick(3);
    for _ in 0..rot {
        v.push_back(T::gen());
        v.pop_front();
    }
    for _ in 0..k {
        v.push_back(T::gen());
    }
    let s: Vec<T::Slow> = v.iter().map(T::slow).collect();
    let (mut a, mut b) = ([0x77u8; 80], [0x77u8; 80]);
    let m = F::enc(nx(), &mut b, &s);
    let n = F::enc(nx(), &mut a, &v);
    let (Ok(m), Ok(n)) = (m, n) else {
        same!(m.is_err(), n.is_err());
        return;
    };
    let (m, n) = (sym::concrete(m), sym::concrete(n));
    same!(n, m);
    same!(a, b);
    let mut v: Vec<T> = v.into();
    let mut a = [0x77u8; 80];
    let n = match sym::pick(3) {
        0 => F::enc(nx(), &mut a, &v),
        1 => F::enc(nx(), &mut a, &v[..]),
        _ => {
            let v: Box<[T]> = v.into();
            let n = F::enc(nx(), &mut a, &v);
            v2(n, m, &a, &b, n.is_ok());
            return;
        }
    };
    v2(n, m, &a, &b, true);
    let mut r = &b[..];
    let o: Vec<T> = F::dec(sx(), &mut r).expect("decode");
    same!(r.len(), 80 - m);
    same!(o.len(), s.len());
    for i in 0..k {
        if !o[i].eqs(&s[i]) {
            panic!("another element");
        }
    }
    let mut r = &b[..];
    let o: VecDeque<T> = F::dec(sx(), &mut r).expect("decode");
    same!(o.len(), s.len());
    for i in 0..k {
        if !o[i].eqs(&s[i]) {
            panic!("another element");
        }
    }
    sym::observe_bytes(&b[..m]);
    sym::cover(1);
}
fn v2(n: Result<usize, Er>, m: usize, a: &[u8; 80], b: &[u8; 80], _: bool) {
    same!(n.expect("encode"), m);
    same!(a, b);
}

/// Any bytes as a vector.
#[inline(never)]
fn slice_dec<F: Fmt<Mode = Binary>, T: Item, const N: usize>() {
    let b = sym::slice::<N>();
    let (mut r, mut s) = (b.get(), b.get());
    let slow = F::dec::<_, Vec<T::Slow>>(sx(), &mut s);
    let fast = F::dec::<_, Vec<T>>(sx(), &mut r);
    match (fast, slow) {
        (Ok(f), Ok(g)) => {
            same!(f.len(), g.len());
            let k = sym::concrete(f.len());
            for i in 0..k {
                if !f[i].eqs(&g[i]) {
                    panic!("another element is decoded");
                }
            }
            same!(r.len(), s.len());
            sym::observe(r.len() as u64);
            sym::cover(4);
        }
        (Err(..), Err(..)) => sym::cover(5),
        (Ok(..), Err(..)) => panic!("accepted although its elements are not"),
        (Err(..), Ok(..)) => panic!("rejected although its elements are accepted"),
    }
}

fn slices<F: Fmt<Mode = Binary>>() {
    const K: usize = tier(2, 3);
    match sym::pick(12) {
        0 => slice::<F, u8, K>(),
        1 => slice::<F, u16, K>(),
        2 => slice::<F, i64, K>(),
        3 => slice::<F, f32, K>(),
        4 => slice::<F, bool, K>(),
        5 => slice::<F, char, K>(),
        6 => slice::<F, NonZeroU16, K>(),
        7 => slice::<F, Tight, K>(),
        8 => slice::<F, Gap, K>(),
        9 => slice::<F, Over, K>(),
        10 => slice::<F, Bool, K>(),
        _ => slice::<F, usize, K>(),
    }
}
fn slice_decs<F: Fmt<Mode = Binary>>() {
    const L: usize = tier(8, 12);
    match sym::pick(8) {
        0 => slice_dec::<F, u8, { L + 3 }>(),
        1 => slice_dec::<F, u16, { L + 5 }>(),
        2 => slice_dec::<F, bool, { L + 3 }>(),
        3 => slice_dec::<F, NonZeroU16, { L + 5 }>(),
        4 => slice_dec::<F, Bytes3, { L + 7 }>(),
        5 => slice_dec::<F, Gap, { L + 7 }>(),
        6 => slice_dec::<F, Bool, { L + 5 }>(),
        _ => slice_dec::<F, Over, { L + 9 }>(),
    }
}

/// Atomics decode like what they hold.
#[inline(never)]
fn atomics<F: Fmt<Mode = Binary>>() {
    use std::sync::atomic::*;
    macro_rules! each {
        ($n:literal $($k:literal $a:ident $t:ty),*) => {
            match sym::pick($n) {
                $($k => {
                    const N: usize = 9 + std::mem::size_of::<$t>();
                    let b = sym::slice::<N>();
                    let (mut r, mut s) = (b.get(), b.get());
                    let slow = F::dec::<_, Vec<Slow<$t>>>(sx(), &mut s);
                    let fast = F::dec::<_, Vec<$a>>(sx(), &mut r);
                    match (fast, slow) {
                        (Ok(f), Ok(g)) => {
                            same!(f.len(), g.len());
                            let k = sym::concrete(f.len());
                            for (f, g) in f.into_iter().zip(g).take(k) {
                                // without assuming that it is valid
                                let f: $t = f.into_inner();
                                same!(f as u64, g.0 as u64);
                            }
                            same!(r.len(), s.len());
                            sym::cover(4);
                        }
                        (Err(..), Err(..)) => sym::cover(5),
                        (Ok(..), Err(..)) => panic!("accepted although its elements are not"),
                        (Err(..), Ok(..)) => panic!("rejected although its elements are accepted"),
                    }
                })*
                _ => {}
            }
        };
    }
    each!(5 0 AtomicBool bool, 1 AtomicI8 i8, 2 AtomicU16 u16, 3 AtomicI32 i32, 4 AtomicU64 u64)
}

pub trait Trip: All + PartialEq + Sym {}
impl<T: All + PartialEq + Sym> Trip for T {}

/// Encodes and decodes to the same value, wherever it is found.
#[inline(never)]
fn trip<F: Fmt<Mode = Binary>, T: All + PartialEq>(v: T, known: bool) {
    let mut a = [0x77u8; 100];
    let n = sym::concrete(F::enc(nx(), &mut a, &v).expect("encode"));
    let mut r = &a[..];
    let o: Result<T, Er> = F::dec(sx(), &mut r);
    if !o.as_ref().is_ok_and(|o| *o == v) || r.len() != 100 - n {
        if known {
            sym::known(1);
        }
        panic!("does not decode to the value");
    }
    sym::observe_bytes(&a[..n]);
    sym::cover(1);
}
#[derive(PartialEq, Encode, Decode)]
#[musli(Binary, bound = {T: Encode<Binary>}, decode_bound<'de, A> = {T: Decode<'de, Binary, A>})]
struct Field<T> {
    a: u8,
    b: T,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(packed)]
#[musli(Binary, bound = {T: Encode<Binary>}, decode_bound<'de, A> = {T: Decode<'de, Binary, A>})]
#[repr(C)]
struct Part<T> {
    a: T,
    b: T,
}
#[derive(PartialEq, Encode, Decode)]
#[musli(transparent)]
#[musli(Binary, bound = {T: Encode<Binary>}, decode_bound<'de, A> = {T: Decode<'de, Binary, A>})]
struct Through<T>(T);
#[derive(PartialEq, Encode, Decode)]
#[musli(Binary, bound = {T: Encode<Binary>}, decode_bound<'de, A> = {T: Decode<'de, Binary, A>})]
enum Variant<T> {
    A(T),
    B { t: T },
    #[musli(transparent)]
    C(T),
}
#[inline(never)]
fn places<F: Fmt<Mode = Binary>, T: Trip>(k: &[u8]) {
    match sym::pick(13) {
        0 => trip::<F, T>(T::sym(), k.contains(&0)),
        1 => trip::<F, _>(Field { a: sym::any(), b: T::sym() }, k.contains(&1)),
        2 => trip::<F, _>(Part { a: T::sym(), b: T::sym() }, k.contains(&2)),
        3 => trip::<F, _>(Through(T::sym()), k.contains(&3)),
        4 => trip::<F, _>(match sym::pick(3) {
            0 => Variant::A(T::sym()),
            1 => Variant::B { t: T::sym() },
            _ => Variant::C(T::sym()),
        }, k.contains(&4)),
        5 => trip::<F, _>(crate::model::vec::<T, 2>(), k.contains(&5)),
        6 => trip::<F, _>((T::sym(), sym::any::<u8>()), k.contains(&6)),
        7 => trip::<F, _>(Some(T::sym()), k.contains(&7)),
        8 => trip::<F, _>(Field { a: sym::any(), b: Part { a: T::sym(), b: T::sym() } }, k.contains(&8)),
        9 => trip::<F, _>([T::sym(), T::sym()], k.contains(&9)),
        10 => trip::<F, _>(std::collections::BTreeMap::from([(sym::any::<u8>(), T::sym())]), k.contains(&10)),
        11 => trip::<F, _>(vec![Part { a: T::sym(), b: T::sym() }], k.contains(&11)),
        _ => trip::<F, _>(Ok::<T, T>(T::sym()), k.contains(&99)),
    }
}
/// Behind pointers.
#[inline(never)]
fn pointers<F: Fmt<Mode = Binary>, T: Trip>(k: &[u8]) {
    use std::rc::Rc;
    use std::sync::Arc;
    match sym::pick(8) {
        0 => trip::<F, _>(Box::new(T::sym()), k.contains(&0)),
        1 => trip::<F, _>(Field { a: sym::any(), b: Box::new(T::sym()) }, k.contains(&1)),
        2 => trip::<F, _>(Field { a: sym::any(), b: Rc::new(T::sym()) }, k.contains(&2)),
        3 => trip::<F, _>(Field { a: sym::any(), b: Arc::new(T::sym()) }, k.contains(&3)),
        4 => trip::<F, _>(Field { a: sym::any(), b: Wrapping(T::sym()) }, k.contains(&4)),
        5 => trip::<F, _>(vec![Box::new(T::sym())], k.contains(&5)),
        6 => trip::<F, _>(vec![Wrapping(T::sym())], k.contains(&6)),
        _ => trip::<F, _>((Box::new(T::sym()), Wrapping(T::sym())), k.contains(&99)),
    }
}
macro_rules! trips {
    ($f:ty, $g:ident) => {
        match sym::pick(6) {
            0 => $g::<$f, u16>(&[]),
            1 => $g::<$f, bool>(&[]),
            2 => $g::<$f, [u8; 2]>(&[]),
            3 => $g::<$f, [u16; 2]>(&[]),
            4 => $g::<$f, [[u8; 2]; 1]>(&[]),
            _ => $g::<$f, ()>(&[]),
        }
    };
}
/// Arrays whose elements may be copied in one direction only: as recorded,
/// copied arrays do not say their length, which is then looked for.
macro_rules! one_way {
    ($f:ty, $p:expr, $q:expr) => {
        match sym::pick(4) {
            0 => places::<$f, [bool; 2]>($p),
            1 => places::<$f, [char; 1]>($p),
            2 => pointers::<$f, [bool; 2]>($q),
            _ => places::<$f, Mixed>($p),
        }
    };
}
#[derive(PartialEq, Encode, Decode)]
#[musli(packed)]
struct Mixed {
    a: [u8; 2],
    b: bool,
}
impl Sym for Mixed {
    fn sym() -> Self {
        Mixed { a: sym::any(), b: sym::any() }
    }
}

type Ne = StorageO<FIX_NE>;
type Be = StorageO<FIX_BE>;
type Var = StorageO<VAR>;
/// Only the integers are fixed.
type VarFloat = StorageO<{ mixed(Integer::Fixed, Float::Variable, ByteOrder::NATIVE, Width::NATIVE) }>;
/// Only the floats are fixed.
type VarInt = StorageO<{ mixed(Integer::Variable, Float::Fixed, ByteOrder::NATIVE, Width::NATIVE) }>;
type IntFloat = StorageO<{ mixed(Integer::Fixed, Float::Integer, ByteOrder::NATIVE, Width::NATIVE) }>;
/// usize takes four bytes.
type Narrow = StorageO<{ mixed(Integer::Fixed, Float::Fixed, ByteOrder::NATIVE, Width::U32) }>;
type PackBe = PackedO<FIX_BE>;
type PackVar = PackedO<VAR>;
type PackNarrow = PackedO<{ mixed(Integer::Fixed, Float::Fixed, ByteOrder::NATIVE, Width::U16) }>;

macro_rules! per {
    ($($n:ident $e:ident $d:ident $sc:ident $o:ident $s:ident $f:ty;)*) => {
        crate::harnesses! {
            $(
            fn $e() { encs::<$f>() }
            fn $d() { decs::<$f>() }
            fn $sc() { scalars::<$f>() }
            fn $o() { if sym::pick(2) == 0 { other_encs::<$f>() } else { other_decs::<$f>() } }
            fn $s() { slices::<$f>() }
            )*
            fn h_m10_arrays_ne() { trips!(Ne, places) }
            fn h_m10_arrays_packed() { trips!(Packed, places) }
            fn h_m10_arrays_var() { trips!(Var, places) }
            fn h_m10_pointers_ne() { trips!(Ne, pointers) }
            fn h_m10_pointers_packed() { trips!(Packed, pointers) }
            fn h_m10_one_way_be() { one_way!(Be, &[], &[]) }
            fn h_m10_one_way_ne() { one_way!(Ne, &[2, 5, 6, 7, 8, 9, 10, 11, 99], &[5, 6, 99]) }
            fn h_m10_one_way_packed() { one_way!(Packed, &[2, 5, 6, 7, 8, 9, 10, 11, 99], &[5, 6, 99]) }
            fn h_m10_atomics() {
                match sym::pick(3) {
                    0 => atomics::<Ne>(),
                    1 => atomics::<Packed>(),
                    _ => atomics::<Be>(),
                }
            }
            fn h_m10_slices_any_bytes() {
                match sym::pick(4) {
                    0 => slice_decs::<Ne>(),
                    1 => slice_decs::<Narrow>(),
                    2 => slice_decs::<Packed>(),
                    _ => slice_decs::<PackBe>(),
                }
            }
        }
    };
}
per! {
    ne h_m10_ne_encode h_m10_ne_decode h_m10_ne_scalars h_m10_ne_other h_m10_ne_slices Ne;
    be h_m10_be_encode h_m10_be_decode h_m10_be_scalars h_m10_be_other h_m10_be_slices Be;
    var h_m10_var_encode h_m10_var_decode h_m10_var_scalars h_m10_var_other h_m10_var_slices Var;
    varfloat h_m10_varfloat_encode h_m10_varfloat_decode h_m10_varfloat_scalars h_m10_varfloat_other h_m10_varfloat_slices VarFloat;
    intfloat h_m10_intfloat_encode h_m10_intfloat_decode h_m10_intfloat_scalars h_m10_intfloat_other h_m10_intfloat_slices IntFloat;
    varint h_m10_varint_encode h_m10_varint_decode h_m10_varint_scalars h_m10_varint_other h_m10_varint_slices VarInt;
    narrow h_m10_narrow_encode h_m10_narrow_decode h_m10_narrow_scalars h_m10_narrow_other h_m10_narrow_slices Narrow;
    packed h_m10_packed_encode h_m10_packed_decode h_m10_packed_scalars h_m10_packed_other h_m10_packed_slices Packed;
    packbe h_m10_packbe_encode h_m10_packbe_decode h_m10_packbe_scalars h_m10_packbe_other h_m10_packbe_slices PackBe;
    packvar h_m10_packvar_encode h_m10_packvar_decode h_m10_packvar_scalars h_m10_packvar_other h_m10_packvar_slices PackVar;
    packnarrow h_m10_packnarrow_encode h_m10_packnarrow_decode h_m10_packnarrow_scalars h_m10_packnarrow_other h_m10_packnarrow_slices PackNarrow;
}
