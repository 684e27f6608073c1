//! Z08: tries.
use crate::{same, sym, tier};
use musli_zerocopy::endian::{Big, ByteOrder, Little};
use musli_zerocopy::pointer::Size;
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{trie, Buf, OwnedBuf, Ref, ZeroCopy};
use std::vec::Vec;

/// Keys as they are inserted, and the query. The entry at `i` has the value `i`.
struct Model<const K: usize, const L: usize> {
    keys: [[u8; L]; K],
    lens: [usize; K],
    n: usize,
    q: [u8; L],
    qlen: usize,
}

fn key<const L: usize>(alphabet: u8) -> ([u8; L], usize) {
    let n = sym::pick(L as u8 + 1);
    let mut k = [0; L];
    for b in &mut k[..n] {
        *b = match alphabet {
            0 => sym::u8(),
            a => [b'a', b'b', b'c', 0xff][sym::pick(a)],
        };
    }
    (k, n)
}

impl<const K: usize, const L: usize> Model<K, L> {
    /// All keys are made of the given number of bytes, or any if zero.
    fn new(n: usize, alphabet: u8) -> Self {
        let mut m = Self { keys: [[0; L]; K], lens: [0; K], n, q: [0; L], qlen: 0 };
        for i in 0..n {
            (m.keys[i], m.lens[i]) = key(alphabet);
        }
        (m.q, m.qlen) = key(alphabet);
        m
    }
    fn key(&self, i: usize) -> &[u8] {
        &self.keys[i][..self.lens[i]]
    }
    fn query(&self) -> &[u8] {
        &self.q[..self.qlen]
    }
    /// Bit per entry with the queried key.
    fn exact(&self) -> u32 {
        let mut x = 0;
        for i in 0..self.n {
            if self.key(i) == self.query() {
                sym::cover(1);
                x |= 1 << i;
            }
        }
        x
    }
    /// Bit per entry with the queried prefix.
    fn within(&self) -> u32 {
        let mut x = 0;
        for i in 0..self.n {
            if self.key(i).starts_with(self.query()) {
                sym::cover(2);
                x |= 1 << i;
            }
        }
        x
    }
    fn all(&self) -> u32 {
        (1 << self.n) - 1
    }
    fn store<E: ByteOrder, O: Size>(&self, buf: &mut OwnedBuf<E, O>) -> Vec<Ref<[u8], E, O>> {
        (0..self.n).map(|i| buf.store_slice(self.key(i))).collect()
    }

    #[inline(never)]
    fn check<F: trie::Flavor>(&self, buf: &Buf, t: trie::TrieRef<u8, F>, kinds: u8) {
        match sym::pick(kinds) {
            0 => {
                let want = self.exact();
                let mut got = 0;
                let mut last = None;
                for v in t.get(buf, self.query()).unwrap().unwrap_or(&[]) {
                    same!(got & 1 << *v, 0);
                    got |= 1 << *v;
                    // In the order they were inserted.
                    assert!(last < Some(*v));
                    last = Some(*v);
                }
                same!(got, want);
            }
            1 => {
                let want = self.within();
                same!(self.entries(t.iter_in(buf, self.query())).unwrap(), want);
            }
            2 => {
                let want = self.within();
                same!(values(t.values_in(buf, self.query()), K).unwrap(), want);
            }
            3 => match sym::pick(2) {
                0 => same!(values(t.values(buf), K).unwrap(), self.all()),
                _ => same!(self.entries(t.iter(buf)).unwrap(), self.all()),
            },
            _ => match sym::pick(6) {
                0 => {
                    let want = self.within();
                    same!(values(t.values_in_fixed::<8, _>(buf, self.query()), K).unwrap(), want);
                }
                1 => {
                    let want = self.within();
                    same!(self.entries(t.iter_in_fixed::<8, _>(buf, self.query())).unwrap(), want);
                }
                2 => same!(values(t.values_fixed::<8>(buf), K).unwrap(), self.all()),
                3 => same!(self.entries(t.iter_fixed::<8>(buf)).unwrap(), self.all()),
                // Too small a stack: an error, or everything.
                4 => match values(t.values_fixed::<2>(buf), K) {
                    Some(got) => same!(got, self.all()),
                    None => sym::cover(3),
                },
                _ => {
                    let want = self.within();
                    match self.entries(t.iter_in_fixed::<1, _>(buf, self.query())) {
                        Some(got) => same!(got, want),
                        None => sym::cover(4),
                    }
                }
            },
        }
    }

    fn entries<'a, E>(&self, it: impl Iterator<Item = Result<(&'a [u8], &'a u8), E>>) -> Option<u32> {
        let mut got = 0;
        for e in it {
            let (k, v) = e.ok()?;
            same!(got & 1 << *v, 0);
            got |= 1 << *v;
            same!(k, self.key(*v as usize));
        }
        Some(got)
    }
}

fn values<'a, E>(it: impl Iterator<Item = Result<&'a u8, E>>, n: usize) -> Option<u32> {
    let mut got = 0;
    for v in it {
        let v = *v.ok()? as usize;
        assert!(v < n);
        same!(got & 1 << v, 0);
        got |= 1 << v;
    }
    Some(got)
}

#[inline(never)]
fn stored<const K: usize, const L: usize, E: ByteOrder, O: Size>(n: usize, alphabet: u8, kinds: u8) {
    let m = Model::<K, L>::new(n, alphabet);
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let refs = m.store(&mut buf);
    let t = trie::store(&mut buf, refs.into_iter().enumerate().map(|(i, r)| (r, i as u8))).unwrap();
    buf.align_in_place();
    m.check(&buf, t, kinds);
}

struct Small;
impl trie::Flavor for Small {
    type String = Packed<[u8], u32, u8>;
    type Values<T> = Packed<[T], u32, u16> where T: ZeroCopy;
    type Children<T> = Packed<[T], u16, u8> where T: ZeroCopy;
}

#[inline(never)]
fn flavored<const K: usize, const L: usize, F: trie::Flavor>(n: usize, alphabet: u8, kinds: u8) {
    let m = Model::<K, L>::new(n, alphabet);
    let mut buf = OwnedBuf::new();
    buf.extend_from_slice(&[9; 3]);
    let refs = m.store(&mut buf);
    let mut b = trie::Builder::<u8, F>::with_flavor();
    for (i, r) in refs.into_iter().enumerate() {
        b.insert(&buf, r, i as u8).unwrap();
    }
    let t = b.build(&mut buf).unwrap();
    // As it is stored in a buffer.
    let t = buf.store(&t);
    buf.align_in_place();
    let t = *buf.load(t).unwrap();
    m.check(&buf, t, kinds);
}

/// Any references, in any buffer.
#[inline(never)]
fn untrusted<const N: usize>() {
    type T = trie::TrieRef<u8, trie::DefaultFlavor<Little, u8>>;
    const TRIE: usize = core::mem::size_of::<T>();
    const NODE: usize = TRIE + 2;
    let mut raw = [0u8; 64];
    let size = 4 + TRIE + N * NODE;
    raw[..4].copy_from_slice(b"aab\xff");
    // The root, and nodes which refer to each other.
    let links = |b: &mut [u8]| {
        b[0] = N as u8 - 1;
        b[1] = [0, 1, 255][sym::pick(4 - N as u8)];
        b[2] = 4 + TRIE as u8 + (NODE * sym::pick(N as u8)) as u8;
        b[3] = [0, 1, 2, 255][sym::pick(5 - N as u8)];
    };
    if N == 1 {
        links(&mut raw[4..]);
    } else {
        raw[4 + 2..4 + 4].copy_from_slice(&[4 + TRIE as u8, [1, 2][sym::pick(2)]]);
    }
    for i in 0..N {
        let b = &mut raw[4 + TRIE + i * NODE..];
        b[0] = sym::pick(3) as u8;
        b[1] = [0, 1, 2, 255][sym::pick(5 - N as u8)];
        links(&mut b[2..]);
    }
    let buf = Buf::new(&raw[..size]);
    let t = *buf.load(Ref::<T, Little, u8>::new(4u8)).unwrap();
    let (q, n) = if N == 1 { key::<{ tier(2, 3) }>(2) } else { ([b'a'; tier(2, 3)], sym::pick(tier(2, 3) as u8)) };
    let q = &q[..n];
    let mut left = 5;
    match sym::pick(3) {
        0 => match t.get(buf, q) {
            Ok(Some(v)) => sym::observe_bytes(v),
            Ok(None) => sym::cover(1),
            Err(..) => sym::cover(2),
        },
        1 => {
            for r in t.iter_in(buf, q) {
                match r {
                    Ok((k, v)) => {
                        sym::observe_bytes(k);
                        sym::observe(*v as u64);
                    }
                    Err(..) => return sym::cover(3),
                }
                left -= 1;
                if left == 0 {
                    return sym::cover(5);
                }
            }
        }
        _ => {
            for r in t.values_in_fixed::<4, _>(buf, q) {
                match r {
                    Ok(v) => sym::observe(*v as u64),
                    Err(..) => return sym::cover(4),
                }
                left -= 1;
                if left == 0 {
                    return sym::cover(5);
                }
            }
        }
    }
}

crate::harnesses! {
    fn h_z08_one() { stored::<1, { tier(3, 4) }, Little, u32>(1, 0, 5) }
    fn h_z08_two() { stored::<2, { tier(2, 3) }, Big, u64>(2, 0, 5) }
    fn h_z08_three() { stored::<3, { tier(1, 2) }, Big, u32>(3, 0, 5) }
    fn h_z08_three_few() { stored::<3, 3, Little, u16>(3, 2, tier(2, 5) as u8) }
    fn h_z08_four() { flavored::<4, 2, Small>(4, 2, tier(4, 5) as u8) }
    fn h_z08_untrusted_one() { untrusted::<1>() }
    fn h_z08_untrusted() { untrusted::<2>() }
}
