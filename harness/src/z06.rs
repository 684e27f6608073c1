//! Z06: perfect-hash maps and sets.
use crate::{same, sym, tier};
use core::hash::{Hash, Hasher};
use musli_zerocopy::endian::{Big, ByteOrder, Little};
use musli_zerocopy::pointer::Size;
use musli_zerocopy::{phf, Buf, Error, OwnedBuf, Ref, Visit, ZeroCopy};

/// Number of keys there are to choose from.
const N: usize = tier(7, 9);
const POOL: [u32; 12] =
    [0, 1, 0xffff_ffff, 7, 0x8000_0000, 42, 0x0102_0304, 256, 1000, 0xdead_beef, 65535, 3];

/// Which keys are stored.
fn subset<const K: usize>() -> ([usize; K], usize) {
    let (mut a, mut n) = ([0; K], 0);
    for i in 0..K {
        if sym::pick(2) == 1 {
            a[n] = i;
            n += 1;
        }
    }
    (a, n)
}

/// A map of some of the keys, and any query.
#[inline(never)]
fn map<E: ByteOrder, O: Size>(at: usize) {
    let (a, n) = subset::<N>();
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    buf.extend_from_slice(&[1, 2, 3][..at]);
    let m = phf::store_map(&mut buf, a[..n].iter().map(|&i| (POOL[i], i as u8))).unwrap();
    let q = sym::u32();
    let mut want = None;
    for &i in &a[..n] {
        if POOL[i] == q {
            want = Some(i as u8);
            sym::cover(1);
        }
    }
    match sym::pick(4) {
        0 => same!(m.get(&buf, &q).unwrap().copied(), want),
        1 => same!(m.contains_key(&buf, &q).unwrap(), want.is_some()),
        2 => {
            let b = buf.bind(m).unwrap();
            same!(b.get_entry(&q).unwrap().map(|(k, v)| (*k, *v)), want.map(|v| (q, v)));
        }
        _ => {
            // As it is stored in a buffer, with the query in a buffer too.
            let m = buf.store(&m);
            let q = buf.store(&q);
            let m = *buf.load(m).unwrap();
            same!(m.get(&buf, &q).unwrap().copied(), want);
        }
    }
}

/// A set of some of the keys, and any query.
#[inline(never)]
fn set() {
    let (a, n) = subset::<N>();
    let mut buf = OwnedBuf::new();
    let m = phf::store_set(&mut buf, a[..n].iter().map(|&i| POOL[i] as i64 - 300)).unwrap();
    let q = sym::i64();
    let mut want = false;
    for &i in &a[..n] {
        if POOL[i] as i64 - 300 == q {
            want = true;
            sym::cover(1);
        }
    }
    match sym::pick(2) {
        0 => same!(m.contains(&buf, &q).unwrap(), want),
        _ => {
            let m = buf.bind(m).unwrap();
            same!(m.contains(&q).unwrap(), want);
        }
    }
}

const WORDS: [&str; 7] = ["", "a", "b", "ab", "first", "second key of many bytes", "éé"];

#[inline(never)]
fn strings() {
    let (a, n) = subset::<{ tier(5, 6) }>();
    let mut buf = OwnedBuf::new();
    let mut refs = [(Ref::<str>::with_metadata(0u32, 0), 0u16); 7];
    for (k, &i) in a[..n].iter().enumerate() {
        refs[k] = (buf.store_unsized(WORDS[i]), i as u16);
    }
    let m = phf::store_map(&mut buf, refs[..n].iter().copied()).unwrap();
    let q = sym::string::<{ tier(1, 2) }>();
    let q = q.get();
    let mut want = None;
    for &i in &a[..n] {
        if WORDS[i] == q {
            want = Some(i as u16);
            sym::cover(1);
        }
    }
    match sym::pick(2) {
        0 => same!(m.get(&buf, q).unwrap().copied(), want),
        _ => {
            let m = buf.bind(m).unwrap();
            same!(m.get(q).unwrap().copied(), want);
        }
    }
    // The ones that were stored.
    for r in &refs[..n] {
        same!(m.get(&buf, &r.0).unwrap().copied(), Some(r.1));
    }
}

/// Any keys.
#[inline(never)]
fn any_keys<const K: usize>() {
    let n = sym::concrete(sym::below(K as u8 + 1) as usize);
    let mut keys = [0u8; K];
    let mut buf = OwnedBuf::new();
    for i in 0..n {
        keys[i] = if i == 0 { sym::u8() } else { sym::below(tier(2, 12) as u8) * 37 };
        for j in 0..i {
            sym::assume(keys[i] != keys[j]);
        }
        // So that a key is a single value from here on.
        keys[i] = sym::concrete(keys[i] as usize) as u8;
    }
    let m = phf::store_map(&mut buf, keys[..n].iter().map(|&k| (k, k ^ 0x55))).unwrap();
    let q = sym::u8();
    let want = keys[..n].contains(&q);
    match m.get(&buf, &q).unwrap() {
        Some(v) => same!((*v, want), (q ^ 0x55, true)),
        None => same!(want, false),
    }
}

/// More keys than one bucket has, all of them stored, any query.
#[inline(never)]
fn large(n: u32) {
    let mut buf = OwnedBuf::new();
    let m = phf::store_set(&mut buf, (0..n).map(|i| i * 5)).unwrap();
    for i in 0..n {
        same!(m.contains(&buf, &(i * 5)).unwrap(), true);
    }
    let m = buf.bind(m).unwrap();
    let q = sym::u8() as u32;
    let want = q < n * 5 && q % 5 == 0;
    same!(m.contains(&q).unwrap(), want);
    if want {
        sym::cover(1);
    }
}

/// Keys are hashed and compared through what they refer to.
#[derive(ZeroCopy, Clone, Copy, PartialEq, Eq)]
#[repr(C)]
struct Key {
    a: u8,
    ignored: u8,
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.a.hash(h);
    }
}

impl Visit for Key {
    type Target = Key;
    fn visit<V: FnOnce(&Key) -> O, O>(&self, _: &Buf, visitor: V) -> Result<O, Error> {
        Ok(visitor(self))
    }
}

/// Any reference, as it may be found in a buffer.
fn any_ref(n: u8) -> [u8; 2] {
    let len = match sym::concrete(sym::below(n + 1) as usize) as u8 {
        k if k == n => 255,
        k => k,
    };
    [sym::u8(), len]
}

/// Any map, in any buffer.
#[inline(never)]
fn untrusted(bind: bool) {
    let mut buf = OwnedBuf::new().with_size::<u8>();
    for _ in 0..5 {
        buf.extend_from_slice(&sym::bytes::<4>());
    }
    type M = phf::MapRef<u8, u8, Little, u8>;
    let mut raw = [0u8; core::mem::size_of::<M>()];
    raw[..8].copy_from_slice(&7u64.to_le_bytes());
    let at = core::mem::size_of::<u64>();
    raw[at..at + 2].copy_from_slice(&any_ref(4));
    raw[at + 2..at + 4].copy_from_slice(&any_ref(3));
    buf.extend_from_slice(&[0; 4]);
    let start = buf.len();
    buf.extend_from_slice(&raw);
    buf.request_align::<u64>();
    let buf = buf.to_aligned::<u64>();
    let m = *buf.load(Ref::<M, Little, u8>::new(start)).unwrap();
    let q = 9u8;
    if bind {
        let Ok(m) = buf.bind(m) else { return };
        match m.get_entry(&q) {
            Ok(Some((k, v))) => {
                sym::cover(1);
                same!(*k, q);
                sym::observe(*v as u64);
            }
            Ok(None) => sym::cover(2),
            Err(..) => sym::cover(3),
        }
    } else {
        match m.get_entry(&buf, &q) {
            Ok(Some((k, v))) => {
                sym::cover(1);
                same!(*k, q);
                sym::observe(*v as u64);
            }
            Ok(None) => sym::cover(2),
            Err(..) => sym::cover(3),
        }
    }
}

crate::harnesses! {
    fn h_z06_map() { map::<Little, u32>(3) }
    fn h_z06_map_big() { map::<Big, u64>(0) }
    fn h_z06_set() { set() }
    fn h_z06_strings() { strings() }
    fn h_z06_any() { any_keys::<{ tier(2, 3) }>() }
    fn h_z06_large() { large([8, 13, 24, 40][sym::pick(4)]) }
    /// Keys with equal hashes are told apart by their values.
    fn h_z06_hash() {
        let mut buf = OwnedBuf::new();
        let n = sym::pick(4) as u8;
        let m = phf::store_map(&mut buf, (0..n).map(|a| (Key { a, ignored: a * 3 }, a))).unwrap();
        let (a, ignored) = (sym::u8(), sym::u8());
        match m.get(&buf, &Key { a, ignored }).unwrap() {
            Some(v) => {
                sym::cover(1);
                same!((*v, (a < n), ignored), (a, true, a * 3));
            }
            None => same!(a < n && ignored == a * 3, false),
        }
    }
    /// Characters.
    fn h_z06_chars() {
        let mut buf = OwnedBuf::new();
        let n = sym::pick(7) as u32;
        let m = phf::store_map(&mut buf, (0..n).map(|a| (char::from_u32(a * 70000).unwrap(), a))).unwrap();
        let q = sym::char();
        let m = buf.bind(m).unwrap();
        for a in 0..n {
            if a * 70000 == q as u32 {
                sym::cover(1);
                same!(m.get(&q).unwrap().copied(), Some(a));
                return;
            }
        }
        same!(m.get(&q).unwrap(), None);
    }
    fn h_z06_untrusted() { untrusted(false) }
    fn h_z06_untrusted_bound() { untrusted(true) }
}
