//! One interface to the formats under check.
use crate::cx::{Cx, Er};
use musli::alloc::Allocator;
use musli::mode::{Binary, Text};
use musli::options::{self, ByteOrder, Float, Integer, Options, Width};
use musli::reader::Reader;
use musli::{Decode, Encode};

pub trait Fmt {
    type Mode: 'static;
    /// A byte that may follow a value.
    const TAIL: u8;
    /// No proper prefix of an encoded value decodes.
    const SELF_DELIMITED: bool;
    /// Lengths are narrower than `usize`, so that encoding may fail.
    const NARROW: bool;
    fn enc<A: Allocator, T: ?Sized + Encode<Self::Mode>>(cx: Cx<A>, b: &mut [u8], v: &T) -> Result<usize, Er>;
    fn dec<'de, A: Allocator, T: Decode<'de, Self::Mode, A>>(cx: Cx<A>, r: &mut &'de [u8]) -> Result<T, Er>;
    /// Decode from any reader.
    fn read<'de, A: Allocator, R: Reader<'de>, T: Decode<'de, Self::Mode, A>>(cx: Cx<A>, r: &mut R) -> Result<T, Er>;
    /// Decode in any context.
    fn dec_in<'de, C: musli::Context, T: Decode<'de, Self::Mode, C::Allocator>>(cx: C, r: &mut &'de [u8]) -> Result<T, C::Error>;
    /// Decode as `from_slice` does.
    fn from<'de, A: Allocator, T: Decode<'de, Self::Mode, A>>(cx: Cx<A>, r: &'de [u8]) -> Result<T, Er>;
}

macro_rules! fmt {
    ($n:ident, $m:ident, $sd:literal) => {
        pub struct $n<const O: Options>;
        impl<const O: Options> Fmt for $n<O> {
            type Mode = Binary;
            const TAIL: u8 = 0x9c;
            const SELF_DELIMITED: bool = $sd;
            const NARROW: bool = matches!((O >> 12) & 7, 1..=3);
            #[inline]
            fn enc<A: Allocator, T: ?Sized + Encode<Binary>>(cx: Cx<A>, b: &mut [u8], v: &T) -> Result<usize, Er> {
                musli::$m::Encoding::new().with_options::<O>().to_slice_with(cx, b, v)
            }
            #[inline]
            fn dec<'de, A: Allocator, T: Decode<'de, Binary, A>>(cx: Cx<A>, r: &mut &'de [u8]) -> Result<T, Er> {
                musli::$m::Encoding::new().with_options::<O>().decode_with(cx, r)
            }
            #[inline]
            fn dec_in<'de, C: musli::Context, T: Decode<'de, Binary, C::Allocator>>(cx: C, r: &mut &'de [u8]) -> Result<T, C::Error> {
                musli::$m::Encoding::new().with_options::<O>().decode_with(cx, r)
            }
            #[inline]
            fn read<'de, A: Allocator, R: Reader<'de>, T: Decode<'de, Binary, A>>(cx: Cx<A>, r: &mut R) -> Result<T, Er> {
                musli::$m::Encoding::new().with_options::<O>().decode_with(cx, r)
            }
            #[inline]
            fn from<'de, A: Allocator, T: Decode<'de, Binary, A>>(cx: Cx<A>, r: &'de [u8]) -> Result<T, Er> {
                musli::$m::Encoding::new().with_options::<O>().from_slice_with(cx, r)
            }
        }
    };
}
fmt!(StorageO, storage, true);
fmt!(WireO, wire, true);
fmt!(PackedO, packed, true);
fmt!(DescriptiveO, descriptive, true);

pub type Storage = StorageO<{ musli::storage::OPTIONS }>;
pub type Wire = WireO<{ musli::wire::OPTIONS }>;
pub type Packed = PackedO<{ musli::packed::OPTIONS }>;
pub type Descriptive = DescriptiveO<{ musli::descriptive::OPTIONS }>;

pub struct Json;
impl Fmt for Json {
    type Mode = Text;
    const TAIL: u8 = b',';
    const SELF_DELIMITED: bool = false;
    const NARROW: bool = false;
    #[inline]
    fn enc<A: Allocator, T: ?Sized + Encode<Text>>(cx: Cx<A>, b: &mut [u8], v: &T) -> Result<usize, Er> {
        musli::json::Encoding::new().to_slice_with(cx, b, v)
    }
    #[inline]
    fn dec<'de, A: Allocator, T: Decode<'de, Text, A>>(cx: Cx<A>, r: &mut &'de [u8]) -> Result<T, Er> {
        musli::json::Encoding::new().decode_with(cx, r)
    }
    #[inline]
    fn dec_in<'de, C: musli::Context, T: Decode<'de, Text, C::Allocator>>(cx: C, r: &mut &'de [u8]) -> Result<T, C::Error> {
        musli::json::Encoding::new().decode_with(cx, r)
    }
    fn read<'de, A: Allocator, R: Reader<'de>, T: Decode<'de, Text, A>>(_: Cx<A>, _: &mut R) -> Result<T, Er> {
        unreachable!()
    }
    #[inline]
    fn from<'de, A: Allocator, T: Decode<'de, Text, A>>(cx: Cx<A>, r: &'de [u8]) -> Result<T, Er> {
        musli::json::Encoding::new().from_slice_with(cx, r)
    }
}

pub const VAR: Options = options::new().variable().build();
pub const FIX_LE: Options = options::new().fixed().byte_order(ByteOrder::Little).build();
pub const FIX_BE: Options = options::new().fixed().byte_order(ByteOrder::Big).build();
pub const FIX_NE: Options = options::new().fixed().native_byte_order().build();
pub const fn mixed(i: Integer, f: Float, b: ByteOrder, w: Width) -> Options {
    options::new().integer(i).float(f).byte_order(b).pointer(w).build()
}
