//! What a format must do with one value of any type.
use crate::cx::*;
use crate::fmts::*;
use crate::model::Visit;
use crate::sym;
use core::marker::PhantomData;
use musli::alloc::{Allocator, System};
use musli::value::Value;
use musli::{Decode, Decoder, Encode, Encoder};

/// Buffer size.
pub const B: usize = 600;

/// A buffer in which every byte could follow a value.
#[inline]
pub fn buf<F: Fmt>() -> [u8; B] {
    [F::TAIL; B]
}

/// Round trip, exact consumption, refusal of buffers that are too small.
pub struct Rt<F>(PhantomData<F>);
impl<F: Fmt> Visit<F::Mode> for Rt<F> {
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    {
        let mut b = buf::<F>();
        let n = match F::enc(sx(), &mut b, &v) {
            Ok(n) => sym::concrete(n),
            // lengths that do not fit their configured width
            Err(..) if F::NARROW => return,
            Err(..) => panic!("value does not encode"),
        };
        if n < B {
            same!(b[n], F::TAIL);
        }
        let mut r = &b[..n];
        let o: T = F::dec(sx(), &mut r).expect("decode");
        if !(o == v) {
            panic!("decoded value differs");
        }
        same!(r.len(), 0);
        // followed by other data
        let mut r = &b[..];
        let o: T = F::dec(sx(), &mut r).expect("decode");
        if !(o == v) {
            panic!("decoded value differs when more data follows");
        }
        same!(r.len(), B - n);
        sym::observe_bytes(&b[..n]);
        sym::cover(1);
    }
}

/// A buffer that is too small is an error and nothing is written past it.
pub struct Small<F>(PhantomData<F>);
impl<F: Fmt> Visit<F::Mode> for Small<F> {
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    {
        let mut b = [0u8; B];
        let n = match F::enc(sx(), &mut b, &v) {
            Ok(n) => sym::concrete(n),
            // lengths that do not fit their configured width
            Err(..) if F::NARROW => return,
            Err(..) => panic!("value does not encode"),
        };
        if n == 0 {
            return;
        }
        let m = [n - 1, n / 2, 0][sym::pick(3)];
        let mut c = [0xeeu8; B];
        if F::enc(sx(), &mut c[..m], &v).is_ok() {
            panic!("value fits a buffer that is too small");
        }
        for i in m..B {
            same!(c[i], 0xee);
        }
        let mut r = &b[..m];
        if let Ok(o) = F::dec::<_, T>(sx(), &mut r) {
            // A prefix that is a value by itself is fine (JSON numbers), the
            // rest must not have been read.
            let _ = o;
            if F::SELF_DELIMITED {
                panic!("truncated value decodes");
            }
        }
        let mut b = [0u8; B];
        same!(F::enc(sx(), &mut b[..n], &v).expect("encode into exactly enough room"), n);
        sym::cover(2);
    }
}

/// Reads nothing and skips.
pub struct Skipped;
impl<'de, M, A: Allocator> Decode<'de, M, A> for Skipped {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.skip()?;
        Ok(Skipped)
    }
}

/// Skipping a value reads exactly the bytes of the value.
pub struct Skip<F>(PhantomData<F>);
impl<F: Fmt> Visit<F::Mode> for Skip<F> {
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    {
        let mut b = buf::<F>();
        let n = match F::enc(sx(), &mut b, &v) {
            Ok(n) => sym::concrete(n),
            // lengths that do not fit their configured width
            Err(..) if F::NARROW => return,
            Err(..) => panic!("value does not encode"),
        };
        let mut r = &b[..n];
        F::dec::<_, Skipped>(sx(), &mut r).expect("skip");
        same!(r.len(), 0);
        let mut r = &b[..];
        F::dec::<_, Skipped>(sx(), &mut r).expect("skip");
        same!(r.len(), B - n);
        sym::observe_bytes(&b[..n]);
        sym::cover(1);
    }
}

/// What a format encodes is a dynamic value that encodes to something which
/// decodes to the original.
pub struct ViaValue<F>(PhantomData<F>);
impl<F: Fmt> Visit<F::Mode> for ViaValue<F>
where
    Value<System>: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    {
        let mut b = buf::<F>();
        let n = match F::enc(sx(), &mut b, &v) {
            Ok(n) => sym::concrete(n),
            // lengths that do not fit their configured width
            Err(..) if F::NARROW => return,
            Err(..) => panic!("value does not encode"),
        };
        let mut r = &b[..];
        let d: Value<System> = F::dec(sx(), &mut r).expect("decode as a dynamic value");
        same!(r.len(), B - n);
        let o: T = musli::value::decode_with(sx(), &d).expect("decode out of the dynamic value");
        if !(o == v) {
            panic!("value out of the dynamic value differs");
        }
        let mut c = buf::<F>();
        let m = F::enc(sx(), &mut c, &d).expect("encode the dynamic value");
        let mut r = &c[..];
        let o: T = F::dec(sx(), &mut r).expect("decode the re-encoded dynamic value");
        if !(o == v) {
            panic!("value out of the re-encoded dynamic value differs");
        }
        same!(r.len(), B - m);
        sym::observe_bytes(&c[..m]);
        sym::cover(1);
    }
}
