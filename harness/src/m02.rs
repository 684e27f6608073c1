//! M02: storage and packed formats round-trip the data model.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any, Visit};
use crate::rt::*;
use crate::sym;
use crate::tier;
use musli::mode::Binary;
use musli::options::{ByteOrder, Float, Integer, Options, Width};
use musli::{Decode, Encode};
use std::borrow::Cow;

/// Unusual combinations of options.
const MIX: Options = mixed(Integer::Variable, Float::Fixed, ByteOrder::Big, Width::U16);
const MIX2: Options = mixed(Integer::Fixed, Float::Integer, ByteOrder::Big, Width::U8);

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
struct Tail {
    a: u16,
    s: String,
    #[musli(default)]
    b: Option<u8>,
}

/// Borrowed data points into the input and equals what was encoded.
fn borrowed<F: Fmt<Mode = Binary>>() {
    let s = sym::string::<3>();
    let d = sym::slice::<3>();
    let v = model::Borrowed { s: s.get(), b: d.get() };
    let mut b = buf::<F>();
    let n = F::enc(sx(), &mut b, &v).expect("encode");
    let mut r = &b[..];
    let o: model::Borrowed<'_> = F::dec(sx(), &mut r).expect("decode");
    same!(o, v);
    same!(r.len(), B - n);
    let at = b.as_ptr_range();
    if !o.s.is_empty() {
        same!(at.contains(&o.s.as_ptr()), true);
    }
    let mut r = &b[..];
    let t: (Cow<'_, str>, u8);
    let m = F::enc(sx(), &mut b, &(s.get(), 7u8)).expect("encode");
    let mut r = &b[..];
    t = F::dec(sx(), &mut r).expect("decode");
    if t.0 != s.get() || t.1 != 7 {
        panic!("decoded value differs");
    }
    same!(r.len(), B - m);
    sym::cover(1);
}

/// Values written one after the other decode in order.
fn stream<F: Fmt<Mode = Binary>>() {
    let a: model::Named = any();
    let b = model::string::<2>();
    let c: [u16; 2] = any();
    let mut w = buf::<F>();
    let i = F::enc(sx(), &mut w, &a).expect("encode");
    let j = i + F::enc(sx(), &mut w[i..], &b).expect("encode");
    let k = j + F::enc(sx(), &mut w[j..], &c).expect("encode");
    let mut r = &w[..k];
    let x: model::Named = F::dec(sx(), &mut r).expect("decode");
    let y: String = F::dec(sx(), &mut r).expect("decode");
    let z: [u16; 2] = F::dec(sx(), &mut r).expect("decode");
    if x != a || y != b || z != c || !r.is_empty() {
        panic!("stream of values decodes differently");
    }
    sym::cover(1);
}

fn tail() {
    let v = Tail { a: any(), s: model::string::<2>(), b: any() };
    let mut b = [0u8; B];
    let n = Packed::enc(sx(), &mut b, &v).expect("encode");
    let o: Tail = <Packed as Fmt>::from(sx(), &b[..n]).expect("decode");
    if o != v {
        panic!("decoded value differs");
    }
    sym::cover(1);
}

crate::harnesses! {
    fn h_m02_storage_scalars() { model::scalars::<_, Rt<Storage>>(sym::pick(model::SCALARS)) }
    fn h_m02_storage_floats() { model::floats::<_, Rt<Storage>>(sym::pick(2)) }
    fn h_m02_storage_containers() { model::containers::<_, Rt<Storage>>(sym::pick(model::CONTAINERS)) }
    fn h_m02_storage_texts() { model::texts::<_, Rt<Storage>>(sym::pick(model::TEXTS)) }
    fn h_m02_storage_structs() { model::structs::<_, Rt<Storage>>(sym::pick(model::STRUCTS)) }
    fn h_m02_storage_others() { model::others::<_, Rt<Storage>>(sym::pick(model::OTHERS)) }
    fn h_m02_storage_system() { model::system::<_, Rt<Storage>>(sym::pick(model::SYSTEM)) }
    fn h_m02_storage_longs() { model::longs::<_, Rt<Storage>>(sym::pick(model::LONGS)) }
    fn h_m02_packed_longs() { model::longs::<_, Rt<Packed>>(sym::pick(model::LONGS)) }
    fn h_m02_mix_longs() { model::longs::<_, Rt<StorageO<MIX>>>(sym::pick(model::LONGS)) }
    fn h_m02_storage_small() {
        match sym::pick(3) {
            0 => model::containers::<_, Small<Storage>>(sym::pick(model::CONTAINERS)),
            1 => model::texts::<_, Small<Storage>>(sym::pick(model::TEXTS)),
            _ => model::structs::<_, Small<Storage>>(sym::pick(model::STRUCTS)),
        }
    }
    fn h_m02_packed_scalars() { model::scalars::<_, Rt<Packed>>(sym::pick(model::SCALARS)) }
    fn h_m02_packed_floats() { model::floats::<_, Rt<Packed>>(sym::pick(2)) }
    // the packed format supports options only at the end of the stream
    fn h_m02_packed_containers() { model::containers::<_, Rt<Packed>>(model::except(model::CONTAINERS, &[0, 8])) }
    fn h_m02_packed_texts() { model::texts::<_, Rt<Packed>>(model::except(model::TEXTS, &[5])) }
    fn h_m02_packed_structs() { model::structs::<_, Rt<Packed>>(model::except(model::STRUCTS, &[3, 6, 7, 11])) }
    fn h_m02_packed_others() { model::others::<_, Rt<Packed>>(sym::pick(model::OTHERS)) }
    fn h_m02_packed_system() { model::system::<_, Rt<Packed>>(sym::pick(model::SYSTEM)) }
    fn h_m02_packed_small() {
        match sym::pick(3) {
            0 => model::containers::<_, Small<Packed>>(model::except(model::CONTAINERS, &[0, 8])),
            1 => model::texts::<_, Small<Packed>>(model::except(model::TEXTS, &[5])),
            _ => model::structs::<_, Small<Packed>>(model::except(model::STRUCTS, &[3, 6, 7, 11])),
        }
    }
    fn h_m02_packed_tail() { tail() }
    fn h_m02_be_structs() { model::structs::<_, Rt<StorageO<FIX_BE>>>(sym::pick(model::STRUCTS)) }
    fn h_m02_be_containers() { model::containers::<_, Rt<StorageO<FIX_BE>>>(sym::pick(model::CONTAINERS)) }
    fn h_m02_ne_structs() { model::structs::<_, Rt<StorageO<FIX_NE>>>(sym::pick(model::STRUCTS)) }
    fn h_m02_ne_containers() { model::containers::<_, Rt<StorageO<FIX_NE>>>(sym::pick(model::CONTAINERS)) }
    fn h_m02_mix_structs() { model::structs::<_, Rt<StorageO<MIX>>>(sym::pick(model::STRUCTS)) }
    fn h_m02_mix_containers() { model::containers::<_, Rt<PackedO<MIX>>>(model::except(model::CONTAINERS, &[0, 8])) }
    fn h_m02_mix2_structs() { model::structs::<_, Rt<StorageO<MIX2>>>(sym::pick(model::STRUCTS)) }
    fn h_m02_mix2_texts() { model::texts::<_, Rt<StorageO<MIX2>>>(sym::pick(model::TEXTS)) }
    fn h_m02_borrowed() {
        match sym::pick(3) {
            0 => borrowed::<Storage>(),
            1 => borrowed::<Packed>(),
            _ => borrowed::<StorageO<FIX_BE>>(),
        }
    }
    fn h_m02_stream() {
        match sym::pick(3) {
            0 => stream::<Storage>(),
            1 => stream::<Packed>(),
            _ => stream::<StorageO<MIX>>(),
        }
    }
}
