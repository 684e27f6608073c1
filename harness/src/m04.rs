//! M04: the descriptive format round-trips, skips exactly and describes its values.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any, Visit};
use crate::rt::*;
use crate::sym;
use musli::options::{ByteOrder, Float, Integer, Options, Width};

const MIX: Options = mixed(Integer::Fixed, Float::Fixed, ByteOrder::Big, Width::U16);
type D = Descriptive;

crate::harnesses! {
    fn h_m04_scalars() { model::scalars::<_, Rt<D>>(sym::pick(model::SCALARS)) }
    fn h_m04_floats() { model::floats::<_, Rt<D>>(sym::pick(2)) }
    fn h_m04_containers() { model::containers::<_, Rt<D>>(sym::pick(model::CONTAINERS)) }
    fn h_m04_texts() { model::texts::<_, Rt<D>>(sym::pick(model::TEXTS)) }
    fn h_m04_structs() { model::structs::<_, Rt<D>>(sym::pick(model::STRUCTS)) }
    fn h_m04_tagged() { model::tagged::<_, Rt<D>>(sym::pick(model::TAGGED)) }
    fn h_m04_others() { model::others::<_, Rt<D>>(sym::pick(model::OTHERS)) }
    fn h_m04_system() { model::system::<_, Rt<D>>(sym::pick(model::SYSTEM)) }
    fn h_m04_skip_scalars() { model::scalars::<_, Skip<D>>(sym::pick(model::SCALARS)) }
    fn h_m04_skip_floats() { model::floats::<_, Skip<D>>(sym::pick(2)) }
    fn h_m04_skip_containers() { model::containers::<_, Skip<D>>(sym::pick(model::CONTAINERS)) }
    fn h_m04_skip_texts() { model::texts::<_, Skip<D>>(sym::pick(model::TEXTS)) }
    fn h_m04_skip_structs() { model::structs::<_, Skip<D>>(sym::pick(model::STRUCTS)) }
    fn h_m04_skip_tagged() { model::tagged::<_, Skip<D>>(sym::pick(model::TAGGED)) }
    fn h_m04_skip_others() { model::others::<_, Skip<D>>(sym::pick(model::OTHERS)) }
    fn h_m04_skip_system() { model::system::<_, Skip<D>>(sym::pick(model::SYSTEM)) }
    fn h_m04_value_scalars() { model::scalars::<_, ViaValue<D>>(sym::pick(model::SCALARS)) }
    fn h_m04_value_floats() { model::floats::<_, ViaValue<D>>(sym::pick(2)) }
    fn h_m04_value_containers() { model::containers::<_, ViaValue<D>>(sym::pick(model::CONTAINERS)) }
    fn h_m04_value_texts() { model::texts::<_, ViaValue<D>>(sym::pick(model::TEXTS)) }
    fn h_m04_value_structs() { model::structs::<_, ViaValue<D>>(sym::pick(model::STRUCTS)) }
    fn h_m04_value_tagged() { model::tagged::<_, ViaValue<D>>(sym::pick(model::TAGGED)) }
    fn h_m04_value_others() { model::others::<_, ViaValue<D>>(sym::pick(model::OTHERS)) }
    fn h_m04_value_system() { model::system::<_, ViaValue<D>>(sym::pick(model::SYSTEM)) }
    fn h_m04_longs() { model::longs::<_, Rt<D>>(sym::pick(model::LONGS)) }
    fn h_m04_skip_longs() { model::longs::<_, Skip<D>>(sym::pick(model::LONGS)) }
    fn h_m04_value_longs() { model::longs::<_, ViaValue<D>>(sym::pick(model::LONGS)) }
    fn h_m04_small() {
        match sym::pick(3) {
            0 => model::containers::<_, Small<D>>(sym::pick(model::CONTAINERS)),
            1 => model::texts::<_, Small<D>>(sym::pick(model::TEXTS)),
            _ => model::structs::<_, Small<D>>(sym::pick(model::STRUCTS)),
        }
    }
    fn h_m04_mix_structs() { model::structs::<_, Rt<DescriptiveO<MIX>>>(sym::pick(model::STRUCTS)) }
    fn h_m04_mix_skip() { model::structs::<_, Skip<DescriptiveO<MIX>>>(sym::pick(model::STRUCTS)) }
    fn h_m04_mix_scalars() { model::scalars::<_, Rt<DescriptiveO<MIX>>>(sym::pick(model::SCALARS)) }
}
