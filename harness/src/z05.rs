//! Z05: owned buffers through every history.
use crate::{same, sym, tier};
use musli_zerocopy::endian::{Big, ByteOrder};
use musli_zerocopy::pointer::Size;
use musli_zerocopy::buf::StoreBuf;
use musli_zerocopy::{Buf, OwnedBuf, Ref, SliceMut, ZeroCopy};

#[derive(ZeroCopy)]
#[repr(C, align(32))]
struct A32(u8);

/// Most bytes in a model.
const N: usize = 160;

/// What the buffer holds.
#[derive(Clone, Copy)]
struct Model {
    b: [u8; N],
    n: usize,
    /// The least alignment that was asked for.
    align: usize,
}
impl Model {
    fn new(align: usize) -> Self {
        Model { b: [0; N], n: 0, align }
    }
    fn push(&mut self, d: &[u8]) {
        for x in d {
            self.b[self.n] = *x;
            self.n += 1;
        }
    }
    fn pad(&mut self, a: usize) {
        self.align = self.align.max(a);
        while self.n % a != 0 {
            self.push(&[0]);
        }
    }
    fn check<E: ByteOrder, O: Size>(&self, b: &OwnedBuf<E, O>) {
        same!(b.len(), self.n);
        same!(b.is_empty(), (self.n == 0));
        same!((b.capacity() >= b.len()), true);
        same!(b.requested(), self.align);
        let s = b.as_slice();
        sym::check_init(s);
        for i in 0..self.n {
            if s[i] != self.b[i] {
                crate::differ("contents");
            }
        }
    }
}

/// One operation on a buffer.
fn step<E: ByteOrder, O: Size>(b: &mut OwnedBuf<E, O>, m: &mut Model, ops: u8) {
    match sym::pick(ops) {
        0 => {
            let d: [u8; 3] = sym::bytes();
            let n = sym::pick(2) + 2;
            b.extend_from_slice(&d[..n]);
            m.push(&d[..n]);
        }
        1 => {
            let v = sym::u8();
            let r = b.store(&v);
            same!(r.offset(), m.n);
            m.push(&[v]);
        }
        2 => {
            let v = sym::u64();
            b.store(&v);
            m.pad(8);
            m.push(&v.to_ne_bytes());
        }
        3 => {
            b.request_align::<u128>();
            m.pad(16);
        }
        4 => {
            b.align_in_place();
            same!(b.as_slice().as_ptr() as usize % m.align, 0);
        }
        5 => {
            let c = b.clone();
            m.check(&c);
            *b = c;
        }
        6 => {
            b.clear();
            m.n = 0;
        }
        7 => {
            let n = [0, 1, 9, 40][sym::pick(4)];
            b.reserve(n);
            same!((b.capacity() >= b.len() + n), true);
        }
        8 => {
            b.store(&A32(1));
            m.pad(32);
            m.push(&[1]);
            m.push(&[0; 31]);
        }
        9 => {
            b.store_uninit::<u16>();
            m.pad(2);
            m.push(&[0, 0]);
        }
        10 => {
            let v = [sym::u16(), sym::u16()];
            b.store_slice(&v);
            m.pad(2);
            m.push(&v[0].to_ne_bytes());
            m.push(&v[1].to_ne_bytes());
        }
        11 => {
            let at = b.next_offset::<u32>();
            m.pad(4);
            same!(at, m.n);
        }
        12 => {
            let n = b.len();
            if n > 0 {
                b.as_mut_slice()[n - 1] = 9;
                m.b[n - 1] = 9;
            }
        }
        _ => {
            // What is aligned already is borrowed.
            let c = b.to_aligned::<u128>();
            same!(c.as_ptr() as usize % 16, 0);
            same!(c[..], m.b[..m.n]);
        }
    }
}
/// One operation that buffers of any kind support.
fn shared<S: StoreBuf>(b: &mut S, m: &mut Model, ops: u8) {
    match sym::pick(ops) {
        0 => {
            // Nothing is made up by asking for more than there is.
            let n = [0, 1, 3, 11][sym::pick(4)];
            b.truncate(n);
            m.n = m.n.min(n);
        }
        1 => {
            let (v, n) = (sym::u8(), sym::pick(4));
            b.fill(v, n);
            m.push(&[v; 3][..n]);
        }
        2 => {
            let v = sym::u16();
            let r = b.store(&v);
            m.pad(2);
            same!(r.offset(), m.n);
            m.push(&v.to_ne_bytes());
        }
        3 => {
            let v: [u8; 3] = sym::bytes();
            let r = b.store_unsized(&v[..]);
            same!((r.offset(), r.len()), (m.n, 3));
            m.push(&v);
        }
        4 => {
            let a = 1 << sym::pick(4);
            b.next_offset_with_and_reserve(a, sym::pick(3));
            m.pad(a);
        }
        5 => {
            // What a range covers.
            let (i, j) = ([0, 1, 5][sym::pick(3)], [0, 2, 3, 6][sym::pick(4)]);
            let inside = i <= j && j <= m.n;
            match b.get_mut(i..j) {
                Some(s) => {
                    same!((inside, s.len()), (true, j - i));
                    s.fill(3);
                    m.b[i..j].fill(3);
                }
                None => same!(inside, false),
            }
            same!(b.get(i..j).is_some(), inside);
            same!(b.get(i).is_some(), (i < m.n));
        }
        6 => {
            let at = b.next_offset::<u32>();
            m.pad(4);
            same!(at, m.n);
        }
        _ => {
            let (x, y) = (sym::u16(), sym::u16());
            let (r, s) = (b.store(&x), b.store(&y));
            if b.swap(r, s).is_err() { panic!("cannot be swapped") }
            m.pad(2);
            m.push(&y.to_ne_bytes());
            m.push(&x.to_ne_bytes());
        }
    }
    held(b, m);
}
/// What a buffer of any kind shows is what it holds.
fn held<S: StoreBuf>(b: &mut S, m: &Model) {
    same!(b.len(), m.n);
    let s = b.as_buf();
    same!((s.len(), s.is_empty()), (m.n, m.n == 0));
    sym::check_init(&s[..]);
    same!(s[..], m.b[..m.n]);
    same!(b.as_mut_buf().len(), m.n);
    same!(b.get(..).is_some_and(|s| s.len() == m.n), true);
}
#[repr(C, align(16))]
struct Mem([u8; 64]);
trait Ptr {
    fn as_ptr(&self) -> *const u8;
}
impl Ptr for Buf {
    fn as_ptr(&self) -> *const u8 {
        self[..].as_ptr()
    }
}
fn start() -> (OwnedBuf, Model) {
    match sym::pick(4) {
        0 => (OwnedBuf::new(), Model::new(8)),
        1 => (OwnedBuf::with_capacity([0, 1, 20][sym::pick(3)]), Model::new(8)),
        2 => (OwnedBuf::with_alignment::<u8>(), Model::new(1)),
        _ => (OwnedBuf::with_capacity_and_alignment::<u16>([0, 3, 64][sym::pick(3)]), Model::new(2)),
    }
}
fn history(k: usize, ops: u8) {
    let live = sym::live();
    {
        let (mut b, mut m) = start();
        m.check(&b);
        for _ in 0..k {
            step(&mut b, &mut m, ops);
            m.check(&b);
        }
        b.align_in_place();
        same!(b.as_slice().as_ptr() as usize % m.align, 0);
        m.check(&b);
    }
    same!(sym::live(), live);
}

crate::harnesses! {
    fn h_z05_history() { history(3, 14) }
    fn h_z05_history_core() { history(tier(4, 5), 7) }
    /// The kinds of references that are made do not matter.
    fn h_z05_converted() {
        let live = sym::live();
        {
            let (b, mut m) = start();
            let mut b = b.with_byte_order::<Big>().with_size::<u16>();
            step(&mut b, &mut m, 14);
            let mut b = b.with_size::<usize>();
            step(&mut b, &mut m, 14);
            m.check(&b);
        }
        same!(sym::live(), live);
    }
    /// Slices of any length into a buffer of any capacity.
    fn h_z05_lengths() {
        let live = sym::live();
        {
            let d: [u8; 40] = sym::bytes();
            let cap = sym::concrete(sym::below(tier(20, 40) as u8) as usize);
            let n = sym::concrete(sym::below(tier(20, 40) as u8) as usize);
            let mut b = OwnedBuf::with_capacity(cap);
            let mut m = Model::new(8);
            b.extend_from_slice(&d[..n]);
            m.push(&d[..n]);
            m.check(&b);
            let c = b.clone();
            m.check(&c);
            b.extend_from_slice(&d[..cap]);
            m.push(&d[..cap]);
            m.check(&b);
            b.align_in_place();
            same!(b.as_slice().as_ptr() as usize % 8, 0);
            m.check(&b);
        }
        same!(sym::live(), live);
    }
    /// Swaps and writes through loaded values.
    fn h_z05_mutation() {
        let mut b = OwnedBuf::new();
        let (x, y, z) = (sym::u32(), sym::u32(), sym::u16());
        let r = b.store(&x);
        let s = b.store(&y);
        if b.swap(r, s).is_err() { panic!("cannot be swapped") }
        match b.load_mut(r) {
            Ok(v) => { same!(*v, y); *v = z as u32; }
            Err(..) => panic!("cannot be loaded"),
        }
        let mut c = b.clone();
        c.align_in_place();
        match (c.load(r), c.load(s)) {
            (Ok(v), Ok(w)) => same!((*v, *w), (z as u32, x)),
            _ => panic!("cannot be loaded"),
        }
        match c.load_at_mut::<u32>(4) {
            Ok(v) => *v = 5,
            Err(..) => panic!("cannot be loaded"),
        }
        match (b.load(s), c.load(Ref::<u32>::new(4u32))) {
            (Ok(v), Ok(w)) => same!((*v, *w), (x, 5)),
            _ => panic!("cannot be loaded"),
        }
    }
    /// What both kinds of buffers do.
    fn h_z05_shared() {
        let live = sym::live();
        {
            let (mut b, mut m) = start();
            for _ in 0..tier(2, 3) {
                shared(&mut b, &mut m, 8);
            }
            m.check(&b);
            StoreBuf::align_in_place(&mut b);
            same!(b.as_slice().as_ptr() as usize % m.align, 0);
            m.check(&b);
        }
        same!(sym::live(), live);
    }
    /// A buffer over memory that is borrowed.
    fn h_z05_shared_slice() {
        let mut mem = Mem([0xaa; 64]);
        {
            let mut b = SliceMut::with_alignment::<u16>(&mut mem.0[..48]);
            let mut m = Model::new(2);
            for _ in 0..tier(2, 3) {
                shared(&mut b, &mut m, 8);
                same!((b.capacity(), b.requested(), b.is_empty()), (48, m.align, m.n == 0));
            }
            StoreBuf::align_in_place(&mut b);
            held(&mut b, &m);
            match sym::pick(4) {
                0 => {
                    b.clear();
                    m.n = 0;
                    b.extend_from_slice(&[1, 2]);
                    m.push(&[1, 2]);
                }
                1 => {
                    let mut b = b.with_byte_order::<Big>().with_size::<u8>();
                    same!((b.capacity(), b.requested()), (48, m.align));
                    held(&mut b, &m);
                    return;
                }
                2 => {
                    // All that remains can be written.
                    let d = [5; 48];
                    b.extend_from_slice(&d[m.n..]);
                    let n = m.n;
                    m.push(&d[n..]);
                }
                _ => {
                    let n = m.n;
                    let c = b.to_requested();
                    same!(c[..], m.b[..n]);
                    return;
                }
            }
            held(&mut b, &m);
        }
        // And nothing beyond it.
        same!(mem.0[48..], [0xaa; 16]);
    }
}
