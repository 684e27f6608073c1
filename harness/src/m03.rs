//! M03: the wire format round-trips the data model and skips exactly.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any, Visit};
use crate::rt::*;
use crate::sym;
use musli::options::{ByteOrder, Float, Integer, Options, Width};

const MIX: Options = mixed(Integer::Variable, Float::Fixed, ByteOrder::Big, Width::U16);
const MIX2: Options = mixed(Integer::Fixed, Float::Integer, ByteOrder::Big, Width::U8);

crate::harnesses! {
    fn h_m03_scalars() { model::scalars::<_, Rt<Wire>>(sym::pick(model::SCALARS)) }
    fn h_m03_floats() { model::floats::<_, Rt<Wire>>(sym::pick(2)) }
    fn h_m03_containers() { model::containers::<_, Rt<Wire>>(sym::pick(model::CONTAINERS)) }
    fn h_m03_texts() { model::texts::<_, Rt<Wire>>(sym::pick(model::TEXTS)) }
    fn h_m03_structs() { model::structs::<_, Rt<Wire>>(sym::pick(model::STRUCTS)) }
    fn h_m03_others() { model::others::<_, Rt<Wire>>(sym::pick(model::OTHERS)) }
    fn h_m03_system() { model::system::<_, Rt<Wire>>(sym::pick(model::SYSTEM)) }
    fn h_m03_skip_scalars() { model::scalars::<_, Skip<Wire>>(sym::pick(model::SCALARS)) }
    fn h_m03_skip_floats() { model::floats::<_, Skip<Wire>>(sym::pick(2)) }
    fn h_m03_skip_containers() { model::containers::<_, Skip<Wire>>(sym::pick(model::CONTAINERS)) }
    fn h_m03_skip_texts() { model::texts::<_, Skip<Wire>>(sym::pick(model::TEXTS)) }
    fn h_m03_skip_structs() { model::structs::<_, Skip<Wire>>(sym::pick(model::STRUCTS)) }
    fn h_m03_skip_others() { model::others::<_, Skip<Wire>>(sym::pick(model::OTHERS)) }
    fn h_m03_skip_system() { model::system::<_, Skip<Wire>>(sym::pick(model::SYSTEM)) }
    fn h_m03_longs() { model::longs::<_, Rt<Wire>>(sym::pick(model::LONGS)) }
    fn h_m03_skip_longs() { model::longs::<_, Skip<Wire>>(sym::pick(model::LONGS)) }
    fn h_m03_mix_longs() { model::longs::<_, Rt<WireO<MIX>>>(sym::pick(model::LONGS)) }
    fn h_m03_mix_skip_longs() { model::longs::<_, Skip<WireO<MIX>>>(sym::pick(model::LONGS)) }
    fn h_m03_be_skip_longs() { model::longs::<_, Skip<WireO<FIX_BE>>>(sym::pick(model::LONGS)) }
    fn h_m03_small() {
        match sym::pick(3) {
            0 => model::containers::<_, Small<Wire>>(sym::pick(model::CONTAINERS)),
            1 => model::texts::<_, Small<Wire>>(sym::pick(model::TEXTS)),
            _ => model::structs::<_, Small<Wire>>(sym::pick(model::STRUCTS)),
        }
    }
    fn h_m03_be_scalars() { model::scalars::<_, Rt<WireO<FIX_BE>>>(sym::pick(model::SCALARS)) }
    fn h_m03_be_structs() { model::structs::<_, Rt<WireO<FIX_BE>>>(sym::pick(model::STRUCTS)) }
    fn h_m03_be_skip_scalars() { model::scalars::<_, Skip<WireO<FIX_BE>>>(sym::pick(model::SCALARS)) }
    fn h_m03_be_skip_structs() { model::structs::<_, Skip<WireO<FIX_BE>>>(sym::pick(model::STRUCTS)) }
    fn h_m03_mix_containers() { model::containers::<_, Rt<WireO<MIX>>>(sym::pick(model::CONTAINERS)) }
    fn h_m03_mix_skip_scalars() { model::scalars::<_, Skip<WireO<MIX>>>(sym::pick(model::SCALARS)) }
    fn h_m03_mix_skip_containers() { model::containers::<_, Skip<WireO<MIX>>>(sym::pick(model::CONTAINERS)) }
    fn h_m03_mix2_structs() { model::structs::<_, Rt<WireO<MIX2>>>(sym::pick(model::STRUCTS)) }
    fn h_m03_mix2_skip_structs() { model::structs::<_, Skip<WireO<MIX2>>>(sym::pick(model::STRUCTS)) }
}
