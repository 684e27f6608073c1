//! M01: integers and lengths under every binary option.
use crate::cx::*;
use crate::fmts::*;
use crate::sym::{self, Sym};
use musli::mode::Binary;
use musli::options::{ByteOrder, Float, Integer, Options, Width};
use musli::{Decode, Decoder, Encode, Encoder};

/// Encode then decode: same value, and exactly the bytes written are read.
#[inline(never)]
fn rt<F: Fmt<Mode = Binary>, T: Sym + Copy + PartialEq + Encode<Binary> + for<'de> Decode<'de, Binary, musli::alloc::Disabled>>() {
    let v: T = sym::any();
    let mut b = [0x77u8; 24];
    let n = F::enc(nx(), &mut b, &v).expect("encode");
    // Bytes after the value must not matter.
    let mut r = &b[..];
    let o: T = F::dec(nx(), &mut r).expect("decode");
    same!(o, v);
    same!(r.len(), b.len() - n);
    let mut short = &b[..n - 1];
    if F::dec::<_, T>(nx(), &mut short).is_ok() {
        panic!("truncated input decodes");
    }
    sym::observe_bytes(&b[..n]);
    sym::cover(1);
}

/// Fixed width: exactly the bytes of the value in the configured order,
/// after `lead` bytes of tag.
macro_rules! fixed {
    ($f:ty, $t:ident, $to:ident, $lead:expr) => {{
        let v = sym::$t();
        let mut b = [0u8; 24];
        let n = <$f>::enc(nx(), &mut b, &v).expect("encode");
        same!(n, $lead + core::mem::size_of::<$t>());
        same!(&b[$lead..n], &v.$to()[..]);
        sym::cover(2);
    }};
}

#[inline(never)]
fn rts<F: Fmt<Mode = Binary>>() {
    match sym::pick(12) {
        0 => rt::<F, u8>(),
        1 => rt::<F, u16>(),
        2 => rt::<F, u32>(),
        3 => rt::<F, u64>(),
        4 => rt::<F, i8>(),
        5 => rt::<F, i16>(),
        6 => rt::<F, i32>(),
        7 => rt::<F, i64>(),
        8 => rt::<F, usize>(),
        9 => rt::<F, isize>(),
        10 => rt::<F, char>(),
        _ => rt::<F, bool>(),
    }
}

/// The number that LEB128 bytes denote, if it is below 2^bits.
fn leb(b: &[u8], bits: u32) -> Option<(u128, usize)> {
    let mut v = 0u128;
    let mut i = 0;
    loop {
        if i >= b.len() {
            return None;
        }
        let d = (b[i] & 0x7f) as u128;
        let s = 7 * i as u32;
        if s >= 128 {
            if d != 0 {
                return None;
            }
        } else {
            if (d << s) >> s != d {
                return None;
            }
            v |= d << s;
        }
        i += 1;
        if b[i - 1] & 0x80 == 0 {
            break;
        }
    }
    if bits < 128 && v >> bits != 0 {
        return None;
    }
    Some((v, i))
}

/// Arbitrary continuation bytes: a value comes out only if it is the number
/// that the bytes denote.
macro_rules! reject {
    ($f:ty, $t:ident, $u:ident, $lead:expr, $n:expr, $zig:expr) => {{
        let mut b = [0u8; $n + 1];
        sym::fill(&mut b[$lead..]);
        let mut w = [0u8; 24];
        if $lead == 1 {
            // the tag that announces continuation bytes
            <$f>::enc(nx(), &mut w, &$u::MAX).expect("encode");
            b[0] = w[0];
        }
        let e = leb(&b[$lead..], $u::BITS);
        let mut r = &b[..];
        match <$f>::dec::<_, $t>(nx(), &mut r) {
            Ok(v) => {
                let used = b.len() - r.len() - $lead;
                match e {
                    None => panic!("bytes that denote no number of the type decode"),
                    Some((x, n)) => {
                        let x = x as $u;
                        let x = if $zig { ((x >> 1) ^ (0 as $u).wrapping_sub(x & 1)) as $t } else { x as $t };
                        same!(v, x);
                        same!(used, n);
                        sym::cover(3);
                    }
                }
            }
            Err(..) => sym::cover(4),
        }
    }};
}

/// The length prefix of a sequence of unknown elements.
struct Len(usize);
impl<M> Encode<M> for Len {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_sequence_fn(self.0, |_| Ok(()))
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
struct GotLen(usize);
impl<'de, M, A: musli::alloc::Allocator> Decode<'de, M, A> for GotLen {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        use musli::de::SequenceDecoder;
        let cx = d.cx();
        let mut n = 0;
        let r = d.decode_sequence(|s| {
            n = match s.size_hint().into_option() {
                Some(n) => n,
                None => return Ok(usize::MAX),
            };
            Ok(0)
        });
        let _ = (r, cx);
        Ok(GotLen(n))
    }
}

/// Lengths: what is announced is what is read, for every width that holds it.
fn length<F: Fmt<Mode = Binary>>(max: u64) {
    let v = sym::usize();
    let mut b = [0u8; 24];
    let r = F::enc(nx(), &mut b, &v);
    match r {
        Ok(n) => {
            if v as u64 > max {
                panic!("length that does not fit its width is encoded");
            }
            let mut r = &b[..];
            let o: usize = F::dec(nx(), &mut r).expect("decode");
            same!(o, v);
            same!(r.len(), b.len() - n);
            sym::cover(5);
        }
        Err(..) => {
            if v as u64 <= max {
                panic!("length that fits its width is refused");
            }
            sym::cover(6);
        }
    }
}

fn seqlen<F: Fmt<Mode = Binary>>(max: u64) {
    let v = sym::usize();
    let mut b = [0u8; 24];
    if let Ok(n) = F::enc(nx(), &mut b, &Len(v)) {
        if v as u64 > max {
            panic!("length that does not fit its width is encoded");
        }
        let mut r = &b[..n];
        match F::dec::<_, GotLen>(nx(), &mut r) {
            Ok(o) => same!(o.0, v),
            Err(..) => panic!("length is not decoded"),
        }
        sym::cover(7);
    } else if v as u64 <= max {
        panic!("length that fits its width is refused");
    }
}

const fn w(i: Integer, b: ByteOrder, w: Width) -> Options {
    mixed(i, Float::Fixed, b, w)
}
use ByteOrder::{Big as B, Little as L};
use Integer::{Fixed as X, Variable as V};
use Width::{Variable as W0, U16 as W2, U32 as W4, U64 as W8, U8 as W1};

macro_rules! widths {
    ($f:ident, $fun:ident) => {{
        match sym::pick(10) {
            0 => $fun::<$f<{ w(V, L, W0) }>>(u64::MAX),
            1 => $fun::<$f<{ w(X, B, W0) }>>(u64::MAX),
            2 => $fun::<$f<{ w(V, L, W1) }>>(u8::MAX as u64),
            3 => $fun::<$f<{ w(X, B, W1) }>>(u8::MAX as u64),
            4 => $fun::<$f<{ w(V, L, W2) }>>(u16::MAX as u64),
            5 => $fun::<$f<{ w(X, B, W2) }>>(u16::MAX as u64),
            6 => $fun::<$f<{ w(V, L, W4) }>>(u32::MAX as u64),
            7 => $fun::<$f<{ w(X, B, W4) }>>(u32::MAX as u64),
            8 => $fun::<$f<{ w(V, L, W8) }>>(u64::MAX),
            _ => $fun::<$f<{ w(X, B, W8) }>>(u64::MAX),
        }
    }};
}

/// Continuation bytes read as each type.
macro_rules! rejects {
    ($f:ty, $lead:expr) => {{
        match sym::pick(12) {
            // storage writes u8 and i8 as they are
            0 if $lead == 1 => reject!($f, u8, u8, $lead, 4, false),
            1 => reject!($f, u16, u16, $lead, 5, false),
            2 => reject!($f, u32, u32, $lead, 7, false),
            3 => reject!($f, u64, u64, $lead, 12, false),
            4 => reject!($f, u128, u128, $lead, 20, false),
            // wire writes i8 as the byte it is
            5 if $lead == 1 => reject!($f, i8, u8, $lead, 4, false),
            6 => reject!($f, i16, u16, $lead, 5, true),
            7 => reject!($f, i32, u32, $lead, 7, true),
            8 => reject!($f, i64, u64, $lead, 12, true),
            9 => reject!($f, i128, u128, $lead, 20, true),
            10 => reject!($f, usize, usize, $lead, 12, false),
            _ => reject!($f, isize, usize, $lead, 12, false),
        }
    }};
}
/// Fixed bytes of every type in one byte order.
macro_rules! fixeds {
    ($f:ty, $to:ident, $lead:expr) => {{
        match sym::pick(10) {
            0 => fixed!($f, u16, $to, $lead),
            1 => fixed!($f, u32, $to, $lead),
            2 => fixed!($f, u64, $to, $lead),
            3 => fixed!($f, u128, $to, $lead),
            4 => fixed!($f, u8, $to, $lead),
            5 => fixed!($f, f32, $to, $lead),
            6 => fixed!($f, f64, $to, $lead),
            // wire zig-zags signed numbers
            7 if $lead == 0 => fixed!($f, i16, $to, $lead),
            8 if $lead == 0 => fixed!($f, i32, $to, $lead),
            9 if $lead == 0 => fixed!($f, i64, $to, $lead),
            _ => (),
        }
    }};
}

crate::harnesses! {
    fn h_m01_rt_storage() {
        match sym::pick(4) {
            0 => rts::<StorageO<VAR>>(),
            1 => rts::<StorageO<FIX_LE>>(),
            2 => rts::<StorageO<FIX_NE>>(),
            _ => rts::<StorageO<FIX_BE>>(),
        }
    }
    fn h_m01_rt_packed() {
        match sym::pick(4) {
            0 => rts::<PackedO<VAR>>(),
            1 => rts::<PackedO<FIX_LE>>(),
            2 => rts::<PackedO<FIX_NE>>(),
            _ => rts::<PackedO<FIX_BE>>(),
        }
    }
    fn h_m01_rt_wire() {
        match sym::pick(4) {
            0 => rts::<WireO<VAR>>(),
            1 => rts::<WireO<FIX_LE>>(),
            2 => rts::<WireO<FIX_NE>>(),
            _ => rts::<WireO<FIX_BE>>(),
        }
    }
    fn h_m01_rt128() {
        match sym::pick(8) {
            0 => rt::<StorageO<VAR>, u128>(),
            1 => rt::<StorageO<FIX_BE>, u128>(),
            2 => rt::<WireO<VAR>, u128>(),
            3 => rt::<WireO<FIX_BE>, u128>(),
            4 => rt::<StorageO<VAR>, i128>(),
            5 => rt::<StorageO<FIX_BE>, i128>(),
            6 => rt::<WireO<VAR>, i128>(),
            _ => rt::<WireO<FIX_LE>, i128>(),
        }
    }
    fn h_m01_fixed_bytes() {
        match sym::pick(6) {
            0 => fixeds!(StorageO<FIX_LE>, to_le_bytes, 0),
            1 => fixeds!(StorageO<FIX_BE>, to_be_bytes, 0),
            2 => fixeds!(PackedO<FIX_LE>, to_le_bytes, 0),
            3 => fixeds!(PackedO<FIX_BE>, to_be_bytes, 0),
            4 => fixeds!(WireO<FIX_LE>, to_le_bytes, 1),
            _ => fixeds!(WireO<FIX_BE>, to_be_bytes, 1),
        }
    }
    fn h_m01_reject_storage() {
        rejects!(StorageO<VAR>, 0)
    }
    fn h_m01_reject_packed() {
        rejects!(PackedO<VAR>, 0)
    }
    fn h_m01_reject_wire() {
        rejects!(WireO<VAR>, 1)
    }
    fn h_m01_len_storage() {
        widths!(StorageO, length)
    }
    fn h_m01_len_packed() {
        widths!(PackedO, length)
    }
    fn h_m01_len_wire() {
        widths!(WireO, length)
    }
    fn h_m01_seqlen_storage() {
        widths!(StorageO, seqlen)
    }
    fn h_m01_seqlen_packed() {
        widths!(PackedO, seqlen)
    }
}
