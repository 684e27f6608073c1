//! M20: the ways to take a value apart with a decoder agree.
use crate::cx::*;
use crate::fmts::*;
use crate::model::{self, any};
use crate::rt::*;
use crate::sym::{self, Sym};
use crate::tier;
use core::cell::Cell;
use musli::alloc::{Allocator, System};
use musli::de::{AsDecoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, VariantDecoder};
use musli::mode::Binary;
use musli::value;
use musli::{Context, Decode, Decoder, Encode};
use std::collections::BTreeMap;

type D = Descriptive;
type J = Json;
type W = Wire;
type S = Storage;

/// How the value is to be taken apart, by a format with which abilities.
struct Way {
    style: Cell<usize>,
    /// How many elements are looked at.
    take: Cell<usize>,
    /// Sizes are known.
    sized: Cell<bool>,
    /// The number of elements.
    len: Cell<usize>,
}
// One thread, as the harnesses run.
unsafe impl Sync for Way {}
static WAY: Way = Way {
    style: Cell::new(0),
    take: Cell::new(0),
    sized: Cell::new(false),
    len: Cell::new(0),
};
fn way(style: usize, take: usize, len: usize) {
    WAY.style.set(style);
    WAY.take.set(take);
    WAY.len.set(len);
}
fn fail(what: &str) -> ! {
    panic!("{what}")
}
/// Sizes that are known are right.
fn hint(h: musli::de::SizeHint, left: usize) {
    if let Some(n) = h.into_option() {
        if WAY.sized.get() && n != left {
            fail("the size hint is not the number of elements left");
        }
    }
}

const SEQS: usize = 9;
/// A sequence of elements, the first of which may have been skipped.
#[derive(PartialEq)]
struct Seq<T>(Vec<Option<T>>);
impl<'de, M: 'static, A: Allocator, T> Decode<'de, M, A> for Seq<T>
where
    T: PartialEq + for<'x> Decode<'x, M, A>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        let (len, take) = (WAY.len.get(), WAY.take.get());
        let cx = d.cx();
        let mut o = Vec::new();
        match WAY.style.get() {
            0 => d.decode_sequence(|s| {
                while let Some(x) = s.try_next()? {
                    o.push(Some(x));
                }
                // there are none after the last
                if s.try_decode_next()?.is_some() {
                    fail("an element after the last");
                }
                Ok(())
            })?,
            1 => d.decode_sequence(|s| {
                for i in 0..take {
                    hint(s.size_hint(), len - i);
                    o.push(Some(s.next()?));
                }
                hint(s.size_hint(), len - take);
                Ok(())
            })?,
            2 => d.decode_sequence(|s| {
                for i in 0..take {
                    hint(s.size_hint(), len - i);
                    let Some(x) = s.try_decode_next()? else { fail("an element is missing") };
                    o.push(Some(x.decode()?));
                }
                Ok(())
            })?,
            3 => d.decode_sequence_hint(len, |s| {
                for _ in 0..take {
                    o.push(Some(s.decode_next()?.decode()?));
                }
                Ok(())
            })?,
            4 => d.decode_sequence(|s| {
                for _ in 0..take {
                    s.decode_next()?.skip()?;
                    o.push(None);
                }
                while let Some(x) = s.try_next()? {
                    o.push(Some(x));
                }
                Ok(())
            })?,
            5 => d.decode_sequence(|s| {
                while let Some(x) = s.try_decode_next()? {
                    if x.try_skip()?.is_unsupported() {
                        return Err(cx.message("cannot skip"));
                    }
                    o.push(None);
                }
                Ok(())
            })?,
            6 => {
                let Some(c) = d.try_clone() else { return Err(cx.message("cannot clone")) };
                let v: Vec<T> = c.decode()?;
                let w: Vec<T> = d.decode()?;
                if v != w {
                    fail("the copy is another sequence");
                }
                o.extend(w.into_iter().map(Some));
            }
            7 => {
                let b = d.decode_buffer()?;
                let v: Vec<T> = b.as_decoder()?.decode()?;
                let w: Vec<T> = b.as_decoder()?.decode()?;
                if v != w {
                    fail("the buffer is another sequence");
                }
                o.extend(w.into_iter().map(Some));
            }
            _ => d.decode_sequence(|s| {
                // more than there are is an error
                for _ in 0..take {
                    o.push(Some(s.next()?));
                }
                if take == len {
                    let _: T = s.next()?;
                    fail("more elements than there are");
                }
                Ok(())
            })?,
        }
        Ok(Seq(o))
    }
}

const MAPS: usize = 11;
/// Skip something in either of the two ways.
fn leave<'de, X: Decoder<'de>>(x: X) -> Result<(), X::Error> {
    if WAY.take.get() & 1 == 0 {
        return x.skip();
    }
    let cx = x.cx();
    if x.try_skip()?.is_unsupported() {
        return Err(cx.message("cannot skip"));
    }
    Ok(())
}

/// Entries, parts of which may have been skipped.
#[derive(PartialEq)]
struct Map<V>(Vec<(Option<u8>, Option<V>)>);
impl<'de, M: 'static, A: Allocator, V> Decode<'de, M, A> for Map<V>
where
    V: PartialEq + for<'x> Decode<'x, M, A>,
    BTreeMap<u8, V>: for<'x> Decode<'x, M, A>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        let (len, take) = (WAY.len.get(), WAY.take.get());
        let cx = d.cx();
        let mut o = Vec::new();
        match WAY.style.get() {
            0 => d.decode_map(|m| {
                while let Some((k, v)) = m.entry()? {
                    o.push((Some(k), Some(v)));
                }
                if m.decode_entry()?.is_some() {
                    fail("an entry after the last");
                }
                Ok(())
            })?,
            1 => d.decode_map(|m| {
                for i in 0..take {
                    hint(m.size_hint(), len - i);
                    let Some(mut e) = m.decode_entry()? else { fail("an entry is missing") };
                    let k = e.decode_key()?.decode()?;
                    o.push((Some(k), Some(e.decode_value()?.decode()?)));
                }
                hint(m.size_hint(), len - take);
                Ok(())
            })?,
            2 => d.decode_map(|m| {
                while let Some(mut e) = m.decode_entry()? {
                    let k = e.decode_key()?.decode()?;
                    leave(e.decode_value()?)?;
                    o.push((Some(k), None));
                }
                Ok(())
            })?,
            3 => d.decode_map(|m| {
                while let Some(mut e) = m.decode_entry()? {
                    leave(e.decode_key()?)?;
                    let v = e.decode_value()?.decode()?;
                    o.push((None, Some(v)));
                }
                Ok(())
            })?,
            4 | 5 => d.decode_map(|m| {
                for _ in 0..take {
                    let Some((k, v)) = m.entry()? else { fail("an entry is missing") };
                    o.push((Some(k), Some(v)));
                }
                let mut r = m.decode_remaining_entries()?;
                let n = if WAY.style.get() == 4 { len } else { len.min(take + 1) };
                for i in take..n {
                    hint(r.size_hint(), len - i);
                    let Some(k) = r.decode_entry_key()? else { fail("a remaining entry is missing") };
                    let k = k.decode()?;
                    o.push((Some(k), Some(r.decode_entry_value()?.decode()?)));
                }
                if n == len && r.decode_entry_key()?.is_some() {
                    fail("an entry after the last");
                }
                r.end_entries()?;
                if m.decode_entry()?.is_some() {
                    fail("an entry is left after the remaining ones");
                }
                Ok(())
            })?,
            6 => d.decode_map_entries(|m| {
                loop {
                    let Some(k) = m.decode_entry_key()? else { break };
                    let k = k.decode()?;
                    o.push((Some(k), Some(m.decode_entry_value()?.decode()?)));
                }
                Ok(())
            })?,
            7 => d.decode_map_entries(|m| {
                for i in 0..take {
                    hint(EntriesDecoder::size_hint(m), len - i);
                    let Some(k) = m.decode_entry_key()? else { fail("an entry is missing") };
                    k.skip()?;
                    m.decode_entry_value()?.skip()?;
                    o.push((None, None));
                }
                Ok(())
            })?,
            8 => d.decode_map_hint(len, |m| {
                while let Some((k, v)) = m.entry()? {
                    o.push((Some(k), Some(v)));
                }
                Ok(())
            })?,
            9 => {
                let Some(c) = d.try_clone() else { return Err(cx.message("cannot clone")) };
                let v: BTreeMap<u8, V> = c.decode()?;
                let w: BTreeMap<u8, V> = d.decode()?;
                if v != w {
                    fail("the copy is another map");
                }
                o.extend(w.into_iter().map(|(k, v)| (Some(k), Some(v))));
            }
            _ => {
                let b = d.decode_buffer()?;
                let v: BTreeMap<u8, V> = b.as_decoder()?.decode()?;
                let w: BTreeMap<u8, V> = b.as_decoder()?.decode()?;
                if v != w {
                    fail("the buffer is another map");
                }
                o.extend(w.into_iter().map(|(k, v)| (Some(k), Some(v))));
            }
        }
        Ok(Map(o))
    }
}

const VARIANTS: usize = 6;
/// An enum of one field, taken apart. Both have the same kinds of values.
#[derive(PartialEq)]
struct Var<V>(u8, Option<V>);
impl<'de, M: 'static, A: Allocator, V> Decode<'de, M, A> for Var<V>
where
    V: PartialEq + for<'x> Decode<'x, M, A>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        let cx = d.cx();
        fn full<'de, M: 'static, A: Allocator, V, X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Var<V>, X::Error>
        where
            V: Decode<'de, M, A>,
        {
            d.decode_variant(|v| {
                let t = v.decode_tag()?.decode()?;
                Ok(Var(t, Some(v.decode_value()?.decode()?)))
            })
        }
        match WAY.style.get() {
            0 => full(d),
            1 => d.decode_variant(|v| {
                let t = v.decode_tag()?.decode()?;
                v.decode_value()?.skip()?;
                Ok(Var(t, None))
            }),
            2 => {
                let Some(c) = d.try_clone() else { return Err(cx.message("cannot clone")) };
                let (v, w): (Self, Self) = (full(c)?, full(d)?);
                if v != w {
                    fail("the copy is another variant");
                }
                Ok(w)
            }
            3 => {
                let b = d.decode_buffer()?;
                let v: Var<V> = full(b.as_decoder()?)?;
                let w: Var<V> = full(b.as_decoder()?)?;
                if v != w {
                    fail("the buffer is another variant");
                }
                Ok(w)
            }
            4 => d.decode_variant(|v| {
                v.decode_tag()?.skip()?;
                Ok(Var(0, Some(v.decode_value()?.decode()?)))
            }),
            _ => {
                d.skip()?;
                Ok(Var(0, None))
            }
        }
    }
}

const OPTIONS: usize = 5;
/// An optional value, taken apart.
#[derive(PartialEq)]
struct Opt<V>(Option<Option<V>>);
impl<'de, M: 'static, A: Allocator, V> Decode<'de, M, A> for Opt<V>
where
    V: PartialEq + for<'x> Decode<'x, M, A>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        let cx = d.cx();
        Ok(Opt(match WAY.style.get() {
            0 => match d.decode_option()? {
                Some(d) => Some(Some(d.decode()?)),
                None => None,
            },
            1 => match d.decode_option()? {
                Some(d) => {
                    d.skip()?;
                    Some(None)
                }
                None => None,
            },
            2 => {
                let Some(c) = d.try_clone() else { return Err(cx.message("cannot clone")) };
                let v: Option<V> = c.decode()?;
                let w: Option<V> = d.decode()?;
                if v != w {
                    fail("the copy is another option");
                }
                w.map(Some)
            }
            3 => {
                let b = d.decode_buffer()?;
                let v: Option<V> = b.as_decoder()?.decode()?;
                let w: Option<V> = b.as_decoder()?.decode()?;
                if v != w {
                    fail("the buffer is another option");
                }
                w.map(Some)
            }
            _ => {
                d.skip()?;
                None
            }
        }))
    }
}

trait Ability {
    const SKIPS: bool;
    const SIZED: bool;
    const BUFFERS: bool;
    /// What is left unread is skipped.
    const RESTS: bool;
}
impl<const O: musli::options::Options> Ability for StorageO<O> {
    const SKIPS: bool = false;
    const SIZED: bool = true;
    const BUFFERS: bool = false;
    const RESTS: bool = false;
}
impl<const O: musli::options::Options> Ability for WireO<O> {
    const SKIPS: bool = true;
    const SIZED: bool = true;
    const BUFFERS: bool = false;
    const RESTS: bool = true;
}
impl<const O: musli::options::Options> Ability for DescriptiveO<O> {
    const SKIPS: bool = true;
    const SIZED: bool = true;
    const BUFFERS: bool = true;
    const RESTS: bool = true;
}
impl Ability for Json {
    const SKIPS: bool = true;
    const SIZED: bool = false;
    const BUFFERS: bool = true;
    const RESTS: bool = true;
}

/// Dynamic values, of things encoded for a mode.
struct Dyn;
impl Ability for Dyn {
    const SKIPS: bool = true;
    const SIZED: bool = true;
    const BUFFERS: bool = true;
    const RESTS: bool = true;
}

/// Formats, and dynamic values.
trait Source: Ability {
    fn go<I, T>(v: I, want: T, may_fail: bool)
    where
        I: Clone + for<'m> Both<'m>,
        T: PartialEq + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, musli::mode::Text, System>;
}
trait Both<'m>: Encode<Binary> + Encode<musli::mode::Text> {}
impl<'m, T: Encode<Binary> + Encode<musli::mode::Text>> Both<'m> for T {}

fn judge<T: PartialEq>(o: Result<T, Er>, want: &T, may_fail: bool) -> bool {
    match o {
        Ok(o) => {
            if may_fail {
                fail("what the format cannot do is done");
            }
            if o != *want {
                fail("another value is taken apart");
            }
            true
        }
        Err(..) => {
            if !may_fail {
                fail("the value cannot be taken apart");
            }
            false
        }
    }
}
fn format<F: Fmt, I, T>(v: I, want: T, may_fail: bool)
where
    I: Clone + Encode<F::Mode>,
    T: PartialEq + for<'de> Decode<'de, F::Mode, System>,
{
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &v).expect("encode"));
    let mut r = &b[..n];
    if judge(F::dec::<_, T>(sx(), &mut r), &want, may_fail) {
        same!(r.len(), 0);
    }
    // in front of and behind other values
    let (x, y) = (any::<bool>(), 0xa5u8);
    let n = sym::concrete(F::enc(sx(), &mut b, &(x, v, y)).expect("encode"));
    let o: Result<(bool, T, u8), Er> = F::from(sx(), &b[..n]);
    if judge(o, &(x, want, y), may_fail) {
        sym::cover(1);
    } else {
        sym::cover(2);
    }
}
macro_rules! source {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Source for $t {
            fn go<I, T>(v: I, want: T, may_fail: bool)
            where
                I: Clone + for<'m> Both<'m>,
                T: PartialEq + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, musli::mode::Text, System>,
            {
                format::<$t, I, T>(v, want, may_fail)
            }
        }
    };
}
source!([const O: musli::options::Options] StorageO<O>);
source!([const O: musli::options::Options] WireO<O>);
source!([const O: musli::options::Options] DescriptiveO<O>);
source!([] Json);
impl Source for Dyn {
    fn go<I, T>(v: I, want: T, may_fail: bool)
    where
        I: Clone + for<'m> Both<'m>,
        T: PartialEq + for<'de> Decode<'de, Binary, System> + for<'de> Decode<'de, musli::mode::Text, System>,
    {
        let d = value::encode::<_>(v).expect("encode");
        judge(value::decode_with::<_, T, Binary>(sx(), &d), &want, may_fail);
        sym::cover(1);
    }
}

fn ready<F: Ability>() {
    WAY.sized.set(F::SIZED);
}

/// Whether taking `style` is an error.
fn seq_fails<F: Ability>(style: usize, take: usize, len: usize) -> bool {
    match style {
        1 | 2 | 3 => take < len && !F::RESTS,
        4 => take > 0 && !F::SKIPS,
        5 => len > 0 && !F::SKIPS,
        7 => !F::BUFFERS,
        8 => take == len || !F::RESTS,
        _ => false,
    }
}
fn seqs<F: Source>(n: usize) {
    ready::<F>();
    let len = sym::pick((n + 1) as u8);
    let style = sym::pick(SEQS as u8);
    let take = sym::pick((len + 1) as u8);
    way(style, take, len);
    let v: Vec<u8> = [7, 130, 255, 0][..len].into();
    let mut v = v;
    if len > 0 {
        v[len - 1] = any();
    }
    let w: Vec<Option<u8>> = (0..len)
        .filter_map(|i| match style {
            1 | 2 | 3 | 8 => (i < take).then_some(Some(v[i])),
            4 => Some((i >= take).then_some(v[i])),
            5 => Some(None),
            _ => Some(Some(v[i])),
        })
        .collect();
    F::go(v, Seq(w), seq_fails::<F>(style, take, len));
}
/// Elements of another shape.
fn nested<F: Source>(n: usize) {
    ready::<F>();
    let len = sym::pick((n + 1) as u8);
    let style = sym::pick(SEQS as u8);
    let take = sym::pick((len + 1) as u8);
    way(style, take, len);
    let all = [(any::<bool>(), vec![true]), (true, vec![]), (false, vec![false, any()])];
    let v: Vec<(bool, Vec<bool>)> = all[..len].into();
    let w: Vec<_> = (0..len)
        .filter_map(|i| match style {
            1 | 2 | 3 | 8 => (i < take).then(|| Some(v[i].clone())),
            4 => Some((i >= take).then(|| v[i].clone())),
            5 => Some(None),
            _ => Some(Some(v[i].clone())),
        })
        .collect();
    F::go(v, Seq(w), seq_fails::<F>(style, take, len));
}
fn maps<F: Source>(n: usize) {
    ready::<F>();
    let len = sym::pick((n + 1) as u8);
    let style = sym::pick(MAPS as u8);
    let take = sym::pick((len + 1) as u8);
    way(style, take, len);
    let keys = [3u8, 40, 255];
    let vals = [vec![any::<bool>()], vec![], vec![true, any()]];
    let v: BTreeMap<u8, Vec<bool>> = (0..len).map(|i| (keys[i], vals[i].clone())).collect();
    let full = |i: usize| (Some(keys[i]), Some(vals[i].clone()));
    let w = (0..len)
        .filter_map(|i| match style {
            1 => (i < take).then(|| full(i)),
            2 => Some((Some(keys[i]), None)),
            3 => Some((None, Some(vals[i].clone()))),
            5 => (i < take + 1).then(|| full(i)),
            7 => (i < take).then_some((None, None)),
            _ => Some(full(i)),
        })
        .collect();
    let fails = match style {
        1 => take < len && !F::RESTS,
        2 | 3 => len > 0 && !F::SKIPS,
        5 => take + 1 < len && !F::RESTS,
        7 => (take > 0 && !F::SKIPS) || (take < len && !F::RESTS),
        10 => !F::BUFFERS,
        _ => false,
    };
    F::go(v, Map(w), fails);
}

/// A variant with the given tag.
#[derive(Clone, Encode)]
#[musli(name(type = u8))]
enum Tagged {
    #[musli(name = 4, transparent)]
    A(bool),
    #[musli(name = 200, transparent)]
    B(Vec<bool>),
    #[musli(name = 0, transparent)]
    C(Option<u8>),
}
fn variants<F: Source>() {
    ready::<F>();
    let style = sym::pick(VARIANTS as u8);
    way(style, 0, 0);
    let fails = match style {
        1 | 4 | 5 => !F::SKIPS,
        3 => !F::BUFFERS,
        _ => false,
    };
    fn one<F: Source, V>(e: Tagged, tag: u8, v: V, style: usize, fails: bool)
    where
        V: PartialEq + for<'x> Decode<'x, Binary, System> + for<'x> Decode<'x, musli::mode::Text, System>,
    {
        let tag = if style < 4 { tag } else { 0 };
        F::go(e, Var(tag, if matches!(style, 1 | 5) { None } else { Some(v) }), fails);
    }
    match sym::pick(3) {
        0 => {
            let x = any();
            one::<F, bool>(Tagged::A(x), 4, x, style, fails)
        }
        1 => {
            let x = model::vec::<bool, 2>();
            one::<F, Vec<bool>>(Tagged::B(x.clone()), 200, x, style, fails)
        }
        _ => {
            let x = any();
            one::<F, Option<u8>>(Tagged::C(x), 0, x, style, fails)
        }
    }
}
fn options<F: Source>() {
    ready::<F>();
    let style = sym::pick(OPTIONS as u8);
    way(style, 0, 0);
    fn one<F: Source, V>(v: Option<V>, style: usize)
    where
        V: Clone + PartialEq + Encode<Binary> + Encode<musli::mode::Text> + for<'x> Decode<'x, Binary, System> + for<'x> Decode<'x, musli::mode::Text, System>,
    {
        let fails = match style {
            1 => v.is_some() && !F::SKIPS,
            3 => !F::BUFFERS,
            4 => !F::SKIPS,
            _ => false,
        };
        let want = match style {
            1 => v.is_some().then_some(None),
            4 => None,
            _ => v.clone().map(Some),
        };
        F::go(v, Opt(want), fails);
    }
    match sym::pick(3) {
        0 => one::<F, u8>(any(), style),
        1 => one::<F, Vec<bool>>(if sym::bool() { Some(model::vec::<bool, 2>()) } else { None }, style),
        _ => one::<F, String>(if sym::bool() { Some(model::string::<2>()) } else { None }, style),
    }
}

/// Bytes as such.
#[derive(Clone, Encode)]
#[musli(transparent)]
struct Bytes(#[musli(bytes)] Vec<u8>);
#[derive(PartialEq, Decode)]
#[musli(transparent)]
struct Pair(#[musli(bytes)] [u8; 2]);
#[derive(PartialEq, Decode)]
#[musli(transparent)]
struct Grown(#[musli(bytes)] Vec<u8>);
#[derive(PartialEq, Decode)]
#[musli(transparent)]
struct Boxed(#[musli(bytes)] Box<[u8]>);
#[derive(PartialEq, Decode)]
#[musli(transparent)]
struct Queue(#[musli(bytes)] std::collections::VecDeque<u8>);
/// Bytes can be had in any form, and in a fixed number exactly if they are as many.
fn bytes<F: Source>(prefixed: bool) {
    ready::<F>();
    let d: [u8; 4] = sym::bytes();
    let n = sym::pick(5);
    let v = Bytes(d[..n].into());
    match sym::pick(if prefixed { 4 } else { 3 }) {
        0 => F::go(v, Grown(d[..n].into()), false),
        1 => F::go(v, Boxed(d[..n].into()), false),
        2 => F::go(v, Queue(d[..n].to_vec().into()), false),
        _ => F::go(v, Pair([d[0], d[1]]), n != 2),
    }
}

crate::harnesses! {
    fn h_m20_bytes() {
        match sym::pick(4) {
            0 => bytes::<S>(false),
            1 => bytes::<W>(true),
            2 => bytes::<D>(true),
            _ => bytes::<Dyn>(true),
        }
    }
    fn h_m20_json_bytes() { bytes::<J>(true) }
    fn h_m20_storage_seqs() { seqs::<S>(tier(3, 4)) }
    fn h_m20_wire_seqs() { seqs::<W>(tier(3, 4)) }
    fn h_m20_descriptive_seqs() { seqs::<D>(tier(3, 4)) }
    fn h_m20_json_seqs() { seqs::<J>(tier(3, 4)) }
    fn h_m20_dyn_seqs() { seqs::<Dyn>(tier(3, 4)) }
    fn h_m20_storage_nested() { nested::<S>(3) }
    fn h_m20_wire_nested() { nested::<W>(3) }
    fn h_m20_descriptive_nested() { nested::<D>(3) }
    fn h_m20_json_nested() { nested::<J>(3) }
    fn h_m20_dyn_nested() { nested::<Dyn>(3) }
    fn h_m20_storage_maps() { maps::<S>(3) }
    fn h_m20_wire_maps() { maps::<W>(3) }
    fn h_m20_descriptive_maps() { maps::<D>(3) }
    fn h_m20_json_maps() { maps::<J>(3) }
    fn h_m20_dyn_maps() { maps::<Dyn>(3) }
    fn h_m20_fixed() {
        match sym::pick(3) {
            0 => maps::<StorageO<FIX_BE>>(2),
            1 => maps::<WireO<FIX_LE>>(2),
            _ => maps::<DescriptiveO<FIX_BE>>(2),
        }
    }
    fn h_m20_variants() {
        match sym::pick(5) {
            0 => variants::<S>(),
            1 => variants::<W>(),
            2 => variants::<D>(),
            3 => variants::<J>(),
            _ => variants::<Dyn>(),
        }
    }
    fn h_m20_options() {
        match sym::pick(5) {
            0 => options::<S>(),
            1 => options::<W>(),
            2 => options::<D>(),
            3 => options::<J>(),
            _ => options::<Dyn>(),
        }
    }
}
