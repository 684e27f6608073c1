//! Types that span the data model, with symbolic values.
use crate::cx::*;
use crate::fmts::Fmt;
use crate::sym::{self, Sym};
use crate::tier;
use musli::{Decode, Encode};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::ffi::{CString, OsString};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::num::*;
use musli::compat::{Bytes, Sequence};
use std::marker::PhantomData;
use std::ops::{RangeFrom, RangeFull, RangeTo, RangeToInclusive};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;

pub use sym::any;

/// Floats compared by bits (NaN included).
#[derive(Clone, Copy, Debug, Encode, Decode)]
#[musli(transparent)]
pub struct F32(pub f32);
impl PartialEq for F32 {
    fn eq(&self, o: &F32) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Sym for F32 {
    fn sym() -> Self {
        F32(any())
    }
}
#[derive(Clone, Copy, Debug, Encode, Decode)]
#[musli(transparent)]
pub struct F64(pub f64);
impl PartialEq for F64 {
    fn eq(&self, o: &F64) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Sym for F64 {
    fn sym() -> Self {
        F64(any())
    }
}

/// At most N elements, every length explored.
pub fn vec<T: Sym, const N: usize>() -> Vec<T> {
    let n = sym::pick(N as u8 + 1);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any());
    }
    v
}
pub fn string<const N: usize>() -> String {
    sym::string::<N>().get().to_string()
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Named {
    pub a: u8,
    pub b: bool,
    pub c: i16,
}
impl Sym for Named {
    fn sym() -> Self {
        Named { a: any(), b: any(), c: any() }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Tuple(pub u16, pub bool);
impl Sym for Tuple {
    fn sym() -> Self {
        Tuple(any(), any())
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Unit;

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(transparent)]
pub struct Trans(pub u32);

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
pub struct Pack {
    pub a: u32,
    pub b: i8,
    pub c: u16,
}
impl Sym for Pack {
    fn sym() -> Self {
        Pack { a: any(), b: any(), c: any() }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Shape {
    Empty,
    New(u8),
    Pair(u8, bool),
    Rec { x: u8, y: Option<bool> },
}
impl Sym for Shape {
    fn sym() -> Self {
        match sym::pick(4) {
            0 => Shape::Empty,
            1 => Shape::New(any()),
            2 => Shape::Pair(any(), any()),
            _ => Shape::Rec { x: any(), y: any() },
        }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "kebab-case")]
pub enum Internal {
    #[musli(name_all = "name")]
    A { x: u8 },
    #[musli(name_all = "name")]
    B { y: u16, z: bool },
    #[musli(name_all = "name")]
    C {},
}
impl Sym for Internal {
    fn sym() -> Self {
        match sym::pick(3) {
            0 => Internal::A { x: any() },
            1 => Internal::B { y: any(), z: any() },
            _ => Internal::C {},
        }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = u16), tag(value = 9, type = u16))]
pub enum InternalNum {
    #[musli(name = 22)]
    A { x: u8 },
    #[musli(name = 0)]
    B { y: u16, z: bool },
}
impl Sym for InternalNum {
    fn sym() -> Self {
        match sym::pick(2) {
            0 => InternalNum::A { x: any() },
            _ => InternalNum::B { y: any(), z: any() },
        }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
pub enum Adjacent {
    A { x: u8 },
    B(u16),
    C,
}
impl Sym for Adjacent {
    fn sym() -> Self {
        match sym::pick(3) {
            0 => Adjacent::A { x: any() },
            1 => Adjacent::B(any()),
            _ => Adjacent::C,
        }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Nested {
    pub inner: Named,
    #[musli(Text, name = "shape")]
    pub s: Shape,
    pub list: Vec<Tuple>,
}
impl Sym for Nested {
    fn sym() -> Self {
        Nested { inner: any(), s: any(), list: vec::<Tuple, 1>() }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Skippy {
    #[musli(default, skip_encoding_if = Option::is_none)]
    pub a: Option<u16>,
    #[musli(default)]
    pub b: u8,
    #[musli(skip)]
    pub c: u8,
    pub d: bool,
}
impl Sym for Skippy {
    fn sym() -> Self {
        Skippy { a: any(), b: any(), c: 0, d: any() }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Blob {
    #[musli(bytes)]
    pub v: Vec<u8>,
    #[musli(bytes)]
    pub a: [u8; 2],
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct PackField {
    #[musli(packed)]
    pub t: (u8, u16),
    #[musli(packed)]
    pub s: [u8; 2],
}
impl Sym for PackField {
    fn sym() -> Self {
        PackField { t: any(), s: any() }
    }
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Borrowed<'a> {
    pub s: &'a str,
    #[musli(bytes)]
    pub b: &'a [u8],
}

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub struct Numbered {
    #[musli(name = 300)]
    pub a: u8,
    #[musli(name = 0)]
    pub b: u8,
}
impl Sym for Numbered {
    fn sym() -> Self {
        Numbered { a: any(), b: any() }
    }
}

/// A hasher without random keys.
#[derive(Default, Clone, Copy)]
pub struct Hs(u64);
impl std::hash::Hasher for Hs {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
pub type Bh = std::hash::BuildHasherDefault<Hs>;

/// What a test does with one value: generic over the type.
pub trait Visit<M: 'static> {
    /// Buffer size for encoded values.
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>;
}

/// Picks a group member that is not in the list.
pub fn except(n: u8, no: &[u8]) -> usize {
    let k = sym::below(n);
    for x in no {
        sym::assume(k != *x);
    }
    sym::concrete(k as usize)
}

pub const SCALARS: u8 = 21;
/// Scalars.
pub fn scalars<M: 'static, V: Visit<M>>(k: usize)
where
    F32: Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>,
    F64: Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>,
    Trans: Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>,
    Unit: Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>,
{
    macro_rules! nz {
        ($n:ident, $t:ident) => {{
            let x = sym::$t();
            if let Some(x) = $n::new(x) {
                V::go(x);
            }
        }};
    }
    match k {
        0 => V::go(sym::u8()),
        1 => V::go(sym::i8()),
        2 => V::go(sym::u16()),
        3 => V::go(sym::i16()),
        4 => V::go(sym::u32()),
        5 => V::go(sym::i32()),
        6 => V::go(sym::u64()),
        7 => V::go(sym::i64()),
        8 => V::go(sym::u128()),
        9 => V::go(sym::i128()),
        10 => V::go(sym::usize()),
        11 => V::go(sym::isize()),
        12 => V::go(sym::bool()),
        13 => V::go(sym::char()),
        14 => V::go(()),
        15 => nz!(NonZeroU8, u8),
        16 => nz!(NonZeroI32, i32),
        17 => nz!(NonZeroU64, u64),
        18 => V::go(Wrapping(sym::u16())),
        19 => V::go(Trans(any())),
        _ => V::go(Unit),
    }
}
pub fn floats<M: 'static, V: Visit<M>>(k: usize)
where
    F32: Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>,
    F64: Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>,
{
    match k {
        0 => V::go(F32(any())),
        _ => V::go(F64(any())),
    }
}

macro_rules! group {
    ($name:ident $count:ident = $n:literal [$($w:ty),*] $($k:literal => $e:expr,)* _ => $l:expr $(,)?) => {
        pub const $count: u8 = $n;
        pub fn $name<M: 'static, V: Visit<M>>(k: usize)
        where
            $($w: Encode<M> + for<'de> Decode<'de, M, musli::alloc::System>,)*
        {
            match k {
                $($k => V::go($e),)*
                _ => V::go($l),
            }
        }
    };
}

const L: usize = tier(3, 4);
const S: usize = tier(4, 6);

group! {
    containers CONTAINERS = 14 [Result<u8, bool>]
    0 => any::<Option<u16>>(),
    1 => any::<(u8, bool, u16)>(),
    2 => any::<[u16; 2]>(),
    3 => vec::<u16, L>(),
    4 => {
        let n = sym::pick(3);
        let mut v = Vec::new();
        for _ in 0..n { v.push(vec::<u8, 2>()) }
        v
    },
    5 => vec::<u8, L>().into_iter().collect::<VecDeque<u8>>(),
    6 => vec::<(u8, bool), 2>().into_iter().collect::<BTreeMap<u8, bool>>(),
    7 => vec::<u8, 2>().into_iter().collect::<BTreeSet<u8>>(),
    8 => vec::<Option<bool>, L>(),
    9 => if sym::bool() { Ok::<u8, bool>(any()) } else { Err(any()) },
    10 => vec::<bool, L>().into_boxed_slice(),
    11 => Box::new([sym::u8(), 1]).to_vec(),
    12 => vec::<(u8, u8), 1>().into_iter().collect::<HashMap<u8, u8, Bh>>(),
    _ => (any::<u8>(), (any::<bool>(),), [any::<i8>()]),
}

group! {
    texts TEXTS = 8 []
    0 => string::<S>(),
    1 => string::<3>().into_boxed_str(),
    2 => (string::<2>(), sym::u8()),
    3 => vec![string::<1>(), string::<2>()],
    4 => vec![string::<2>()].into_iter().collect::<BTreeSet<String>>(),
    5 => Some(string::<2>()),
    6 => {
        let s = string::<2>();
        let mut m = BTreeMap::new();
        m.insert(s, sym::bool());
        m
    },
    _ => (string::<1>(), string::<1>()),
}

/// Text and sequences long enough for every form of length prefix.
fn long(n: usize) -> String {
    let mut s = "x".repeat(n);
    let c = sym::u8();
    sym::assume(c.is_ascii());
    s.pop();
    s.push(c as char);
    s
}
/// One symbolic element among others.
fn one<T: Clone>(n: usize, v: T, x: T) -> Vec<T> {
    let mut r = vec![v; n];
    r[n - 2] = x;
    r
}
const LENS: [usize; 8] = [30, 31, 62, 63, 64, 127, 128, 256];
group! {
    longs LONGS = 5 [Blob]
    0 => long(LENS[sym::pick(8)]),
    1 => {
        let mut v = vec![7u8; LENS[sym::pick(8)]];
        v[5] = any();
        v
    },
    2 => (long(31), one(31, true, any::<bool>()), any::<u8>()),
    3 => Blob { v: one(LENS[sym::pick(8)], 3, any::<u8>()), a: any() },
    _ => one(LENS[sym::pick(5)], (200u8, ()), (any::<u8>(), ())),
}

group! {
    tagged TAGGED = 3 [Internal, InternalNum]
    0 => any::<Internal>(),
    1 => any::<InternalNum>(),
    _ => (any::<Internal>(), any::<u8>()),
}

group! {
    structs STRUCTS = 12 [Named, Tuple, Pack, Shape, Adjacent, Nested, Skippy, Blob, PackField, Numbered]
    0 => any::<Named>(),
    1 => any::<Tuple>(),
    2 => any::<Pack>(),
    3 => any::<Shape>(),
    4 => (any::<Tuple>(), any::<Pack>()),
    5 => any::<Adjacent>(),
    6 => any::<Nested>(),
    7 => any::<Skippy>(),
    8 => Blob { v: vec::<u8, L>(), a: any() },
    9 => any::<PackField>(),
    10 => any::<Numbered>(),
    _ => (any::<Shape>(), any::<Named>()),
}

group! {
    system SYSTEM = 10 [IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6, PathBuf, OsString, CString, core::ops::Range<u8>, core::ops::RangeInclusive<i8>]
    0 => Ipv4Addr::from(any::<[u8; 4]>()),
    1 => Ipv6Addr::from(any::<[u8; 16]>()),
    2 => if sym::bool() { IpAddr::V4(any::<[u8; 4]>().into()) } else { IpAddr::V6(any::<[u8; 16]>().into()) },
    3 => SocketAddr::V4(SocketAddrV4::new(any::<[u8; 4]>().into(), any())),
    4 => SocketAddrV6::new(any::<[u8; 16]>().into(), any(), any(), any()),
    5 => PathBuf::from(string::<3>()),
    6 => OsString::from(string::<2>()),
    7 => {
        let b: [u8; 2] = any();
        sym::assume(b[0] != 0 && b[1] != 0);
        CString::new(b.to_vec()).unwrap()
    },
    8 => any::<u8>()..any::<u8>(),
    _ => any::<i8>()..=any::<i8>(),
}

/// The most elements a tuple may have.
pub type Row = (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool);
#[derive(Encode, Decode)]
#[musli(transparent)]
pub struct Wide(pub Row);
impl Wide {
    fn new(a: u8, b: u8, c: u8, d: bool) -> Self {
        Wide((1, a, 3, 4, 5, 6, 7, b, 9, 10, 11, 12, 13, 14, c, d))
    }
    fn parts(&self) -> ([u8; 15], bool) {
        let (a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p) = self.0;
        ([a, b, c, d, e, f, g, h, i, j, k, l, m, n, o], p)
    }
}
impl PartialEq for Wide {
    fn eq(&self, o: &Wide) -> bool {
        self.parts() == o.parts()
    }
}
/// A heap, compared by its elements.
#[derive(Encode, Decode)]
#[musli(transparent)]
pub struct Heap(pub BinaryHeap<u8>);
impl PartialEq for Heap {
    fn eq(&self, o: &Heap) -> bool {
        self.0.clone().into_sorted_vec() == o.0.clone().into_sorted_vec()
    }
}

group! {
    others OTHERS = 14 [SocketAddr, Heap, HashSet<u8, Bh>, RangeFrom<u8>, RangeTo<u16>, RangeToInclusive<i8>, RangeFull, Wide, Bytes<Vec<u8>>, Bytes<[u8; 2]>, Sequence<()>, PhantomData<u8>, Result<u8, ()>]
    0 => SocketAddr::V6(SocketAddrV6::new(any::<[u8; 16]>().into(), any(), any(), any())),
    1 => {
        // A deque whose elements wrap around.
        let mut q = VecDeque::with_capacity(4);
        for _ in 0..sym::pick(3) { q.push_back(any::<u8>()); }
        for _ in 0..sym::pick(3) { q.push_front(any::<u8>()); }
        q
    },
    2 => Heap(vec::<u8, 2>().into_iter().collect()),
    3 => vec::<u8, 2>().into_iter().collect::<HashSet<u8, Bh>>(),
    4 => (any::<u8>().., ..any::<u16>(), ..=any::<i8>(), .., any::<u8>()),
    5 => Wide::new(any(), any(), any(), any()),
    6 => (Bytes(vec::<u8, 2>()), Bytes(any::<[u8; 2]>()), any::<bool>()),
    7 => (Box::new(any::<u8>()), Rc::new(any::<u16>()), Arc::new(any::<bool>())),
    8 => (Sequence(()), any::<u8>()),
    9 => (PhantomData::<u8>, any::<u8>()),
    10 => (any::<[i16; 3]>(), [string::<1>(), string::<1>()]),
    11 => Some(Some(any::<bool>())),
    12 => (any::<u8>(), any::<bool>(), 1u8, 2u8, 3u8, any::<i8>(), 4u8, 5u8, 6u8, 7u8, 8u8, any::<u16>()),
    _ => vec![Ok::<u8, ()>(any()), Err(())],
}
