//! Types for the zero-copy properties.
#![allow(dead_code)]
use core::mem::{offset_of, size_of};
use core::num::*;
use musli_zerocopy::endian::{Big, Endian};
use musli_zerocopy::{Ref, ZeroCopy};

#[repr(align(16))]
pub struct Bytes(pub [u8; 64]);

/// Whether the bytes are a value.
pub trait Valid: ZeroCopy {
    fn valid(b: &[u8]) -> bool;
    /// Whether byte `i` of the value is not padding.
    fn data(_: &[u8], _: usize) -> bool {
        true
    }
}
macro_rules! any_bits {
    ($($t:ty),*) => {$(impl Valid for $t { fn valid(_: &[u8]) -> bool { true } })*}
}
any_bits!((), u8, u16, u32, i64, f32, Option<NonZeroU8>, Wrapping<u32>, Endian<u32, Big>, Ref<[bool], Big, u16>);
macro_rules! nonzero {
    ($($t:ty),*) => {$(impl Valid for $t { fn valid(b: &[u8]) -> bool { b.iter().any(|b| *b != 0) } })*}
}
nonzero!(NonZeroU8, NonZeroI16, NonZeroU32, NonZeroU64, Wrapping<NonZeroU16>);
impl Valid for bool {
    fn valid(b: &[u8]) -> bool {
        b[0] < 2
    }
}
impl Valid for char {
    fn valid(b: &[u8]) -> bool {
        char::from_u32(u32::from_ne_bytes([b[0], b[1], b[2], b[3]])).is_some()
    }
}
impl<T: Valid, const K: usize> Valid for [T; K]
where
    [T; K]: ZeroCopy,
{
    fn valid(b: &[u8]) -> bool {
        (0..K).all(|k| T::valid(&b[k * size_of::<T>()..][..size_of::<T>()]))
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        {
            let n = size_of::<T>();
            T::data(&b[i / n * n..][..n], i % n)
        }
    }
}
/// A field at an offset.
pub fn field<T: Valid>(b: &[u8], at: usize) -> bool {
    T::valid(&b[at..][..size_of::<T>()])
}

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
pub struct Padded {
    pub a: u8,
    pub b: bool,
    pub c: char,
    pub d: NonZeroI16,
}
impl Valid for Padded {
    fn valid(b: &[u8]) -> bool {
        field::<bool>(b, offset_of!(Padded, b)) & field::<char>(b, offset_of!(Padded, c)) & field::<NonZeroI16>(b, offset_of!(Padded, d))
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        !matches!(i, 2 | 3 | 10 | 11)
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
pub struct Nested {
    pub a: u8,
    pub p: Pair,
    pub e: Tag,
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
pub struct Pair(pub u16, pub [bool; 2]);
impl Valid for Nested {
    fn valid(b: &[u8]) -> bool {
        let p = offset_of!(Nested, p);
        field::<[bool; 2]>(b, p + 2) && field::<Tag>(b, offset_of!(Nested, e))
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        !matches!(i, 1 | 7)
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C, packed)]
pub struct Tight {
    pub a: bool,
    pub b: NonZeroU32,
    pub c: char,
}
impl Valid for Tight {
    fn valid(b: &[u8]) -> bool {
        field::<bool>(b, 0) && field::<NonZeroU32>(b, 1) && field::<char>(b, 5)
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C, packed(2))]
pub struct Tight2 {
    pub a: bool,
    pub b: char,
    pub c: bool,
}
impl Valid for Tight2 {
    fn valid(b: &[u8]) -> bool {
        field::<bool>(b, 0) && field::<char>(b, 2) && field::<bool>(b, 6)
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        !matches!(i, 1 | 7)
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(transparent)]
pub struct Clear(pub char);
impl Valid for Clear {
    fn valid(b: &[u8]) -> bool {
        char::valid(b)
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(i8)]
pub enum Tag {
    A = -1,
    B,
    C = 5,
    D,
}
impl Valid for Tag {
    fn valid(b: &[u8]) -> bool {
        matches!(b[0] as i8, -1 | 0 | 5 | 6)
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(u16)]
pub enum Wide {
    A = 1,
    B = 0x100,
    C = 0xffff,
}
impl Valid for Wide {
    fn valid(b: &[u8]) -> bool {
        matches!(u16::from_ne_bytes([b[0], b[1]]), 1 | 0x100 | 0xffff)
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
pub enum Data {
    A { a: u32 },
    B(bool, char),
    C { x: u8, y: NonZeroI16, z: bool } = 7,
    D,
}
impl Valid for Data {
    fn valid(b: &[u8]) -> bool {
        match b[0] {
            0 | 8 => true,
            1 => field::<bool>(b, 1) && field::<char>(b, 4),
            7 => field::<NonZeroI16>(b, 2) && field::<bool>(b, 4),
            _ => false,
        }
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        match b[0] {
            0 => !matches!(i, 1..=3),
            1 => !matches!(i, 2 | 3),
            7 => !matches!(i, 5..),
            _ => i == 0,
        }
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(u16)]
pub enum Data16 {
    A(Tag, u32),
    B(char),
    C { a: Data },
}
impl Valid for Data16 {
    fn valid(b: &[u8]) -> bool {
        match u16::from_ne_bytes([b[0], b[1]]) {
            0 => field::<Tag>(b, 2),
            1 => field::<char>(b, 4),
            2 => field::<Data>(b, 4),
            _ => false,
        }
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        match u16::from_ne_bytes([b[0], b[1]]) {
            0 => !matches!(i, 3 | 8..),
            1 => !matches!(i, 2 | 3 | 8..),
            _ => i < 2 || i >= 4 && Data::data(&b[4..], i - 4),
        }
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
pub struct Generic<T: ZeroCopy, const K: usize> {
    pub a: u8,
    pub b: [T; K],
}
impl<T: Valid, const K: usize> Valid for Generic<T, K> {
    fn valid(b: &[u8]) -> bool {
        field::<[T; K]>(b, offset_of!(Self, b))
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        {
            let o = offset_of!(Self, b);
            i == 0 || i >= o && <[T; K]>::data(&b[o..], i - o)
        }
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C, align(8))]
pub struct Over {
    pub a: bool,
}
impl Valid for Over {
    fn valid(b: &[u8]) -> bool {
        b[0] < 2
    }
    fn data(b: &[u8], i: usize) -> bool {
        let _ = b;
        i == 0
    }
}

