//! M05: what is encoded as JSON is valid JSON and decodes to the value.
use crate::cx::*;
use crate::fmts::*;
use crate::jsn;
use crate::model::{self, any, Visit};
use crate::rt::*;
use crate::sym;
use crate::tier;
use musli::alloc::System;
use musli::mode::Text;
use musli::{Decode, Encode};
use std::collections::{BTreeMap, HashMap};

/// Valid document, round trip, skip and exact consumption.
struct Doc;
impl Visit<Text> for Doc {
    #[inline(never)]
    fn go<T>(v: T)
    where
        T: PartialEq + Encode<Text> + for<'de> Decode<'de, Text, System>,
    {
        let mut b = [b','; B];
        let n = sym::concrete(Json::enc(sx(), &mut b, &v).expect("encode"));
        if !jsn::valid(&b[..n]) {
            panic!("encoded value is not a JSON document");
        }
        let o: T = <Json as Fmt>::from(sx(), &b[..n]).expect("decode");
        if !(o == v) {
            panic!("decoded value differs");
        }
        let mut r = &b[..n + 1];
        let o: T = Json::dec(sx(), &mut r).expect("decode");
        if !(o == v) {
            panic!("decoded value differs when more data follows");
        }
        same!(r.len(), 1);
        sym::observe_bytes(&b[..n]);
        sym::cover(1);
    }
}

/// Numbers around the edges of a type.
macro_rules! near {
    ($t:ident) => {{
        let d = sym::u8() as $t;
        match sym::pick(3) {
            0 => Doc::go(($t::MAX - d as $t)),
            1 => Doc::go($t::MIN + (d as $t)),
            // across a power of ten
            _ => Doc::go($t::MAX / 20000 * 10000 + 9900 + d as $t),
        }
    }};
}

crate::harnesses! {
    fn h_m05_scalars() {
        match sym::pick(12) {
            0 => Doc::go(sym::u8()),
            1 => Doc::go(sym::i8()),
            2 => Doc::go(sym::u16()),
            3 => Doc::go(sym::i16()),
            4 => Doc::go(sym::bool()),
            5 => Doc::go(sym::char()),
            6 => Doc::go(()),
            7 => Doc::go(model::Unit),
            8 => Doc::go(std::num::Wrapping(sym::i8())),
            9 => {
                if let Some(n) = std::num::NonZeroU8::new(any()) {
                    Doc::go(n)
                }
            }
            10 => Doc::go(model::Trans(sym::u16() as u32)),
            _ => Doc::go(any::<Option<u8>>()),
        }
    }
    fn h_m05_edges() {
        match sym::pick(8) {
            0 => near!(u32),
            1 => near!(i32),
            2 => near!(u64),
            3 => near!(i64),
            4 => near!(u128),
            5 => near!(i128),
            6 => near!(usize),
            _ => near!(isize),
        }
    }
    fn h_m05_floats() {
        // printed and parsed concretely: see M19
        const F: [f64; 10] = [0.0, -0.0, 1.0, -1.5, 1e21, 1.1e-7, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1];
        const G: [f32; 8] = [0.0, -0.0, 1.0, 3.25, f32::MAX, 1.0e-45, 0.1, 16777216.0];
        match sym::pick(2) {
            0 => Doc::go(model::F64(F[sym::pick(10)])),
            _ => Doc::go(model::F32(G[sym::pick(8)])),
        }
    }
    fn h_m05_containers() {
        match sym::pick(12) {
            0 => Doc::go(any::<(u8, bool, i8)>()),
            1 => Doc::go([1u16, sym::u8() as u16]),
            2 => Doc::go(model::vec::<u8, { tier(2, 3) }>()),
            3 => Doc::go(model::vec::<bool, 3>()),
            4 => Doc::go(vec![model::vec::<bool, 2>(), vec![]]),
            5 => Doc::go(model::vec::<(u8, bool), 2>().into_iter().collect::<BTreeMap<u8, bool>>()),
            6 => Doc::go(model::vec::<Option<bool>, 3>()),
            7 => Doc::go(if sym::bool() { Ok::<u8, bool>(any()) } else { Err(any()) }),
            8 => Doc::go(model::vec::<(i8, bool), 1>().into_iter().collect::<HashMap<i8, bool, model::Bh>>()),
            9 => Doc::go((any::<bool>(), ((),), [any::<bool>()])),
            10 => Doc::go(Vec::<u8>::new()),
            _ => Doc::go(model::vec::<bool, 2>().into_iter().collect::<std::collections::VecDeque<bool>>()),
        }
    }
    fn h_m05_keys() {
        match sym::pick(4) {
            0 => {
                let mut m = BTreeMap::new();
                m.insert(model::string::<{ tier(2, 3) }>(), any::<bool>());
                Doc::go(m)
            }
            1 => {
                let mut m = BTreeMap::new();
                m.insert(i64::MIN + sym::u8() as i64, any::<bool>());
                Doc::go(m)
            }
            2 => {
                let mut m = BTreeMap::new();
                m.insert(u128::MAX - sym::u8() as u128, ());
                Doc::go(m)
            }
            _ => {
                let mut m = BTreeMap::new();
                m.insert(any::<i16>(), "x".to_string());
                m.insert(7, "y".to_string());
                Doc::go(m)
            }
        }
    }
    fn h_m05_texts() { model::texts::<_, Doc>(model::except(model::TEXTS, &[0])) }
    fn h_m05_string() { Doc::go(model::string::<{ tier(4, 5) }>()) }
    fn h_m05_structs() {
        match sym::pick(8) {
            0 => Doc::go(model::Named { a: any(), b: any(), c: sym::i8() as i16 }),
            1 => Doc::go(model::Tuple(sym::u8() as u16, any())),
            2 => Doc::go(any::<model::Shape>()),
            3 => Doc::go(model::Skippy { a: if sym::bool() { Some(sym::u8() as u16) } else { None }, b: any(), c: 0, d: any() }),
            4 => Doc::go(model::Nested { inner: model::Named { a: 1, b: any(), c: -300 }, s: any(), list: if sym::bool() { vec![] } else { vec![model::Tuple(70, any())] } }),
            5 => Doc::go(model::Blob { v: model::vec::<u8, 2>(), a: [any(), 1] }),
            6 => Doc::go(any::<model::Numbered>()),
            _ => Doc::go(any::<model::Adjacent>()),
        }
    }
    fn h_m05_tagged() { model::tagged::<_, Doc>(sym::pick(model::TAGGED)) }
    fn h_m05_system() {
        match sym::pick(5) {
            0 => Doc::go(std::net::Ipv4Addr::from([1, sym::u8(), 0, sym::u8()])),
            1 => Doc::go(std::path::PathBuf::from(model::string::<2>())),
            2 => Doc::go(std::net::SocketAddrV4::new([10, 0, 0, any()].into(), sym::u8() as u16)),
            3 => {
                let c = sym::u8();
                sym::assume(c != 0);
                Doc::go(std::ffi::CString::new(vec![c]).unwrap())
            }
            _ => Doc::go(any::<u8>()..7u8),
        }
    }
    fn h_m05_others() {
        match sym::pick(8) {
            0 => Doc::go(std::net::SocketAddrV6::new(std::net::Ipv6Addr::LOCALHOST, sym::u8() as u16, 0, sym::u8() as u32)),
            1 => {
                let mut q = std::collections::VecDeque::with_capacity(4);
                q.push_back(any::<bool>());
                for _ in 0..sym::pick(3) { q.push_front(any::<bool>()); }
                Doc::go(q)
            }
            2 => Doc::go(model::Heap(model::vec::<u8, 2>().into_iter().collect())),
            3 => Doc::go((any::<u8>().., ..sym::u8() as u16, ..=any::<i8>(), .., any::<bool>())),
            4 => Doc::go(model::Wide((1, any(), 3, 4, 5, 6, 7, any(), 9, 10, 11, 12, 13, 14, 15, any()))),
            5 => Doc::go((musli::compat::Bytes(model::vec::<u8, 1>()), musli::compat::Bytes([any::<u8>(), 1]), any::<bool>())),
            6 => Doc::go((musli::compat::Sequence(()), any::<u8>(), std::marker::PhantomData::<u8>)),
            _ => Doc::go(model::vec::<i8, 2>().into_iter().collect::<std::collections::HashSet<i8, model::Bh>>()),
        }
    }
    fn h_m05_skip() {
        match sym::pick(4) {
            0 => model::structs::<_, Skip<Json>>(3),
            1 => Skip::<Json>::go(model::string::<2>()),
            2 => Skip::<Json>::go((any::<i8>(), model::vec::<bool, 2>())),
            _ => model::tagged::<_, Skip<Json>>(sym::pick(model::TAGGED)),
        }
    }
}
