//! Z07: swiss maps and sets.
use crate::{same, sym, tier};
use core::hash::{Hash, Hasher};
use musli_zerocopy::endian::{Big, ByteOrder, Little};
use musli_zerocopy::pointer::Size;
use musli_zerocopy::{swiss, Buf, Error, OwnedBuf, Ref, Visit, ZeroCopy};

/// Number of keys there are to choose from.
const N: usize = tier(6, 9);
const POOL: [u32; 12] =
    [0, 1, 0xffff_ffff, 7, 0x8000_0000, 42, 0x0102_0304, 256, 1000, 0xdead_beef, 65535, 3];

/// Which keys are stored.
fn subset<const K: usize>() -> ([usize; K], usize) {
    let (mut a, mut n) = ([0; K], 0);
    for i in 0..K {
        if sym::pick(2) == 1 {
            a[n] = i;
            n += 1;
        }
    }
    (a, n)
}

/// A map of some of the keys, and a query.
#[inline(never)]
fn map<E: ByteOrder, O: Size>(at: usize) {
    let (a, n) = subset::<N>();
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    buf.extend_from_slice(&[1, 2, 3][..at]);
    let m = swiss::store_map(&mut buf, a[..n].iter().map(|&i| (POOL[i], i as u8))).unwrap();
    let q = POOL[sym::pick(POOL.len() as u8)];
    let want = a[..n].iter().find(|&&i| POOL[i] == q).map(|&i| i as u8);
    match sym::pick(5) {
        0 => same!(m.get(&buf, &q).unwrap().copied(), want),
        1 => same!(m.contains_key(&buf, &q).unwrap(), want.is_some()),
        2 => {
            let b = buf.bind(m).unwrap();
            same!(b.get(&q).unwrap().copied(), want);
            same!((b.len(), b.is_empty()), (n, (n == 0)));
        }
        3 => {
            let b = buf.bind(m).unwrap();
            same!(b.contains_key(&q).unwrap(), want.is_some());
        }
        _ => {
            // As it is stored in a buffer, with the query in a buffer too.
            let m = buf.store(&m);
            let q = buf.store(&q);
            let m = *buf.load(m).unwrap();
            same!((m.len(), m.is_empty()), (n, (n == 0)));
            same!(m.get(&buf, &q).unwrap().copied(), want);
        }
    }
}

/// Any keys, in any order, and any query.
#[inline(never)]
fn any_keys<const K: usize>() {
    let n = sym::concrete(sym::below(K as u8 + 1) as usize);
    let mut keys = [0u8; K];
    let mut buf = OwnedBuf::new();
    for i in 0..n {
        keys[i] = if i == 0 && K > 1 { sym::below(tier(8, 16) as u8) * 16 + 3 } else if i == 0 { sym::u8() } else { sym::below(tier(2, 8) as u8) * 37 };
        for j in 0..i {
            sym::assume(keys[i] != keys[j]);
        }
        // So that a key is a single value from here on.
        keys[i] = sym::concrete(keys[i] as usize) as u8;
    }
    let m = swiss::store_set(&mut buf, keys[..n].iter().copied()).unwrap();
    let q = sym::concrete(sym::u8() as usize) as u8;
    let want = keys[..n].contains(&q);
    match sym::pick(2) {
        0 => same!(m.contains(&buf, &q).unwrap(), want),
        _ => {
            let m = buf.bind(m).unwrap();
            same!(m.contains(&q).unwrap(), want);
        }
    }
}

/// Keys which hash as one of a few classes.
#[derive(ZeroCopy, Clone, Copy, PartialEq, Eq)]
#[repr(C)]
struct Key {
    class: u8,
    id: u8,
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.class.hash(h);
    }
}
impl Visit for Key {
    type Target = Key;
    fn visit<V: FnOnce(&Key) -> O, O>(&self, _: &Buf, visitor: V) -> Result<O, Error> {
        Ok(visitor(self))
    }
}

/// Keys which collide, and a query which may.
#[inline(never)]
fn collide<const K: usize>() {
    let n = sym::pick(K as u8 + 1);
    let mut keys = [Key { class: 0, id: 0 }; K];
    for (i, k) in keys.iter_mut().enumerate().take(n) {
        *k = Key { class: sym::pick(2) as u8, id: i as u8 };
    }
    let mut buf = OwnedBuf::new();
    let m = swiss::store_map(&mut buf, keys[..n].iter().map(|&k| (k, k.id ^ 0x55))).unwrap();
    for k in &keys[..n] {
        same!(m.get(&buf, k).unwrap().copied(), Some(k.id ^ 0x55));
    }
    let q = Key { class: sym::pick(3) as u8, id: sym::u8() };
    let m = buf.bind(m).unwrap();
    match m.get(&q).unwrap() {
        Some(v) => {
            sym::cover(1);
            same!((*v, keys[..n].contains(&q)), (q.id ^ 0x55, true));
        }
        None => same!(keys[..n].contains(&q), false),
    }
}

/// So many colliding keys that they do not fit in a group.
#[inline(never)]
fn crowded(n: u8, classes: u8) {
    let mut buf = OwnedBuf::new();
    let m = swiss::store_map(&mut buf, (0..n).map(|id| (Key { class: id % classes, id }, id ^ 0x55))).unwrap();
    let q = Key { class: sym::pick(classes + 1) as u8, id: sym::u8() };
    let want = q.id < n && q.id % classes == q.class;
    let v = match sym::pick(2) {
        0 => m.get(&buf, &q).unwrap().copied(),
        _ => {
            let m = buf.bind(m).unwrap();
            m.get(&q).unwrap().copied()
        }
    };
    match v {
        Some(v) => {
            sym::cover(1);
            same!((v, want), (q.id ^ 0x55, true));
        }
        None => same!(want, false),
    }
}

/// Every load of a table, all of them stored, and a query.
#[inline(never)]
fn large(n: u8) {
    let mut buf = OwnedBuf::new();
    buf.extend_from_slice(&[7; 5][..sym::pick(2) * 5]);
    let m = swiss::store_set(&mut buf, (0..n).map(|i| i as u16 * 5)).unwrap();
    for i in 0..n {
        same!(m.contains(&buf, &(i as u16 * 5)).unwrap(), true);
    }
    let m = buf.bind(m).unwrap();
    let q = sym::concrete(sym::u8() as usize) as u16;
    let want = q < n as u16 * 5 && q % 5 == 0;
    same!(m.contains(&q).unwrap(), want);
}

const WORDS: [&str; 7] = ["", "a", "b", "ab", "first", "second key of many bytes", "éé"];

#[inline(never)]
fn strings() {
    let (a, n) = subset::<{ tier(5, 6) }>();
    let mut buf = OwnedBuf::new();
    let mut refs = [(Ref::<str>::with_metadata(0u32, 0), 0u16); 7];
    for (k, &i) in a[..n].iter().enumerate() {
        refs[k] = (buf.store_unsized(WORDS[i]), i as u16);
    }
    let m = swiss::store_map(&mut buf, refs[..n].iter().copied()).unwrap();
    let q = ["", "a", "ab", "c", "second key of many bytes", "éé", "é"][sym::pick(7)];
    let want = a[..n].iter().find(|&&i| WORDS[i] == q).map(|&i| i as u16);
    match sym::pick(2) {
        0 => same!(m.get(&buf, q).unwrap().copied(), want),
        _ => {
            let m = buf.bind(m).unwrap();
            same!(m.get(q).unwrap().copied(), want);
        }
    }
    // The ones that were stored.
    for r in &refs[..n] {
        same!(m.get(&buf, &r.0).unwrap().copied(), Some(r.1));
    }
}

/// An iterator that yields another number of items than it claims.
struct Liar {
    at: u8,
    end: u8,
    claim: usize,
}
impl Iterator for Liar {
    type Item = (u8, u8);
    fn next(&mut self) -> Option<(u8, u8)> {
        if self.at == self.end {
            return None;
        }
        self.at += 1;
        Some((self.at, self.at))
    }
}
impl ExactSizeIterator for Liar {
    fn len(&self) -> usize {
        self.claim
    }
}

/// Any table, in any buffer.
#[inline(never)]
fn untrusted(bind: bool) {
    const C: usize = tier(20, 34);
    type M = swiss::MapRef<u8, u8, Little, u16>;
    let mut buf = OwnedBuf::new().with_size::<u16>();
    buf.extend_from_slice(&[EMPTY; C + 8]);
    // Control bytes, of which some may be anything.
    let mut ctrl = [sym::u8(); C];
    for c in ctrl.iter_mut().step_by(3) {
        *c = sym::u8();
    }
    ctrl[C - 1] = sym::u8();
    buf.as_mut_slice()[..C].copy_from_slice(&ctrl);
    buf.as_mut_slice()[C..].copy_from_slice(&sym::bytes::<8>());
    let mut raw = [0u8; core::mem::size_of::<M>()];
    raw[..8].copy_from_slice(&7u64.to_le_bytes());
    let w = core::mem::size_of::<Ref<[u8], Little, u16>>() / 2;
    let lens = [0, 15, 16, 17, C as u16, C as u16 + 7, u16::MAX];
    for (i, v) in [sym::pick(2) as u16 * 2, lens[sym::pick(7)], C as u16 + sym::pick(2) as u16, [0, 1, 4, 0xffff][sym::pick(4)]].into_iter().enumerate() {
        raw[8 + i * w..][..2].copy_from_slice(&v.to_le_bytes());
    }
    let mask: usize = match sym::pick(2) {
        0 => sym::concrete(sym::below(C as u8 + 12) as usize),
        _ => [1 << 63, usize::MAX, usize::MAX - 15, 0xffff_ffff, 0x3ff][sym::pick(5)],
    };
    let at = (8 + 4 * w).next_multiple_of(8);
    raw[at..at + 8].copy_from_slice(&mask.to_le_bytes());
    raw[at + 8..at + 16].copy_from_slice(&sym::usize().to_le_bytes());
    buf.request_align::<u64>();
    buf.align_in_place();
    let start = buf.len();
    buf.extend_from_slice(&raw);
    let buf = buf.to_aligned::<u64>();
    let m = *buf.load(Ref::<M, Little, u16>::new(start)).unwrap();
    let q = 9u8;
    let r = if bind {
        let Ok(m) = buf.bind(m) else { return };
        match m.get(&q) {
            Ok(v) => Ok(v.copied()),
            Err(..) => Err(()),
        }
    } else {
        m.get(&buf, &q).map(|v| v.copied()).map_err(|_| ())
    };
    match r {
        Ok(Some(v)) => {
            sym::cover(1);
            sym::observe(v as u64);
        }
        Ok(None) => sym::cover(2),
        Err(..) => sym::cover(3),
    }
}
const EMPTY: u8 = 0xff;

crate::harnesses! {
    fn h_z07_map() { map::<Little, u32>(3) }
    fn h_z07_map_big() { map::<Big, u64>(0) }
    fn h_z07_strings() { strings() }
    fn h_z07_any_one() { any_keys::<1>() }
    fn h_z07_any() { any_keys::<{ tier(2, 3) }>() }
    fn h_z07_large() { large([4, 7, 8, 14, 15, 28, 29, 42][sym::pick(8)]) }
    fn h_z07_collide() { collide::<{ tier(4, 8) }>() }
    fn h_z07_crowded() {
        let (n, c) = [(7, 1), (14, 1), (20, 1), (20, 2), (28, 1), (28, 3), (40, 1), (40, 2)][sym::pick(tier(7, 8) as u8)];
        crowded(n, c)
    }
    fn h_z07_untrusted() { untrusted(false) }
    fn h_z07_untrusted_bound() { untrusted(true) }
    fn h_z07_liar() {
        let (end, claim) = (sym::pick(20) as u8, [0, 3, 7, 8][sym::pick(4)]);
        let mut buf = OwnedBuf::new();
        match swiss::store_map(&mut buf, Liar { at: 0, end, claim }) {
            Ok(m) => {
                sym::cover(1);
                same!(m.len(), end as usize);
                for k in 1..=end {
                    same!(m.get(&buf, &k).unwrap().copied(), Some(k));
                }
                same!(m.get(&buf, &(end + 1)).unwrap(), None);
            }
            Err(..) => {
                sym::cover(2);
                assert!(end as usize > claim);
            }
        }
    }
}
