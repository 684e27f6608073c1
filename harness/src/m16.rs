//! M16: readers yield exactly the bytes of their input, writers store exactly
//! the bytes they are given, and neither goes beyond its bounds.
use crate::cx::*;
use crate::fmts::*;
use crate::sym;
use crate::tier;
use core::mem::MaybeUninit;
use musli::alloc::System;
use musli::de::UnsizedVisitor;
use musli::fixed::FixedBytes;
use musli::reader::{IntoReader, Limit, Reader, SliceReader};
use musli::writer::{BufWriter, IntoWriter, Writer};
use musli::Context;

/// Takes what is given, borrowed.
struct Take;
#[musli::de::unsized_visitor]
impl<'de, C: Context> UnsizedVisitor<'de, C, [u8]> for Take {
    type Ok = Option<&'de [u8]>;
    fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_borrowed(self, _: C, b: &'de [u8]) -> Result<Self::Ok, C::Error> {
        Ok(Some(b))
    }
    fn visit_ref(self, _: C, _: &[u8]) -> Result<Self::Ok, C::Error> {
        Ok(None)
    }
}

/// One operation on a reader that is at `pos` and must not read beyond `end`,
/// the bytes being `d`; the new position, or none after an error.
#[inline(never)]
fn step<'de, R: Reader<'de>>(r: &mut R, d: &'de [u8], pos: usize, end: usize) -> Option<usize> {
    let left = end - pos;
    let cx = sx();
    // An operation that takes `n` bytes.
    macro_rules! takes {
        ($n:expr, $e:expr) => {{
            let n = $n;
            match $e {
                Ok(x) => {
                    if n > left {
                        panic!("read beyond the end");
                    }
                    (sym::concrete(n), x)
                }
                Err(..) => {
                    if n <= left {
                        panic!("bytes that are there cannot be read");
                    }
                    sym::cover(3);
                    return None;
                }
            }
        }};
    }
    Some(match sym::pick(9) {
        0 => {
            let (_, b) = takes!(1, r.read_byte(cx));
            same!(b, d[pos]);
            pos + 1
        }
        1 => {
            same!(r.peek(), if left == 0 { None } else { Some(d[pos]) });
            pos
        }
        2 => {
            let n = sym::usize();
            let (n, _) = takes!(n, r.skip(cx, n));
            pos + n
        }
        3 => {
            let n = sym::pick(4);
            let mut b = [0u8; 3];
            takes!(n, r.read(cx, &mut b[..n]));
            same!(&b[..n], &d[pos..pos + n]);
            pos + n
        }
        4 => {
            let n = sym::usize();
            let (n, x) = takes!(n, r.read_bytes(cx, n, Take));
            let x = x.expect("the input is borrowed");
            same!(x.len(), n);
            same!(x, &d[pos..pos + n]);
            pos + n
        }
        5 => {
            let (_, b) = takes!(2, r.read_array::<_, 2>(cx));
            same!(&b[..], &d[pos..pos + 2]);
            pos + 2
        }
        6 => {
            same!(r.is_eof(), left == 0);
            pos
        }
        7 => {
            let n = sym::pick(4);
            let mut b: Box<[MaybeUninit<u8>]> = Box::new_uninit_slice(n);
            takes!(n, unsafe { r.read_bytes_uninit(cx, b.as_mut_ptr().cast(), n) });
            for i in 0..n {
                same!(unsafe { b[i].assume_init() }, d[pos + i]);
            }
            pos + n
        }
        _ => {
            let (_, _) = takes!(0, r.read_array::<_, 0>(cx));
            pos
        }
    })
}

/// Operations that make another reader, too.
#[inline(never)]
fn any_step<'de, R: Reader<'de>>(r: &mut R, d: &'de [u8], pos: usize, end: usize) -> Option<usize> {
    match sym::pick(4) {
        0 => step(r, d, pos, end),
        1 => {
            // what happens to a clone does not affect the original
            if let Some(mut c) = r.try_clone() {
                step(&mut c, d, pos, end);
            }
            Some(pos)
        }
        2 => step(&mut r.borrow_mut(), d, pos, end),
        _ => {
            let n = sym::pick(4);
            let mut l = r.borrow_mut().limit(n);
            let mut p = pos;
            for _ in 0..tier(1, 2) {
                same!(l.remaining(), n - (p - pos));
                p = step(&mut l, d, p, end.min(pos + n))?;
            }
            same!(l.remaining(), n - (p - pos));
            Some(p)
        }
    }
}

#[inline(never)]
fn steps<'de, R: Reader<'de>>(mut r: R, d: &'de [u8], end: usize, k: usize) {
    let Some(mut pos) = any_step(&mut r, d, 0, end) else { return };
    for _ in 1..k {
        match step(&mut r, d, pos, end) {
            Some(p) => pos = p,
            None => return,
        }
    }
    // what is left is exactly the rest
    let left = end - pos;
    let x = r.read_bytes(sx(), left, Take).ok().flatten().expect("the rest");
    same!(x, &d[pos..end]);
    same!(r.peek(), None);
    sym::cover(1);
}

/// Blocks of more than a few bytes.
#[inline(never)]
fn wide<'de, R: Reader<'de>>(mut r: R, d: &'de [u8], end: usize) {
    let mut pos = 0;
    for _ in 0..tier(2, 3) {
        let cx = sx();
        let left = end - pos;
        macro_rules! array {
            ($n:literal) => {
                ($n, r.read_array::<_, $n>(cx).map(|b| same!(&b[..], &d[pos..pos + $n])).is_ok())
            };
        }
        let (n, ok) = match sym::pick(7) {
            0 => array!(4),
            1 => array!(8),
            2 => array!(16),
            3 => {
                let mut b = [0u8; 9];
                let ok = r.read(cx, &mut b).is_ok();
                if ok {
                    same!(&b[..], &d[pos..pos + 9]);
                }
                (9, ok)
            }
            4 => (13, r.skip(cx, 13).is_ok()),
            5 => {
                let x = r.read_bytes(cx, 11, Take);
                let ok = x.is_ok();
                if let Ok(x) = x {
                    same!(x.expect("the input is borrowed"), &d[pos..pos + 11]);
                }
                (11, ok)
            }
            _ => {
                let mut b = [0xeeu8; 18];
                let ok = unsafe { r.read_bytes_uninit(cx, b.as_mut_ptr(), 17) }.is_ok();
                if ok {
                    same!(&b[..17], &d[pos..pos + 17]);
                }
                same!(b[17], 0xee);
                (17, ok)
            }
        };
        same!(ok, n <= left);
        if !ok {
            sym::cover(3);
            return;
        }
        pos += n;
        same!(r.peek(), if pos == end { None } else { Some(d[pos]) });
        same!(r.is_eof(), pos == end);
    }
    sym::cover(1);
}
/// Writes blocks of more than a few bytes, and returns what was written.
#[inline(never)]
fn wide_writes<W: Writer>(w: &mut W, cap: usize) -> Vec<u8> {
    let d = sym::bytes::<17>();
    let mut m: Vec<u8> = Vec::new();
    for _ in 0..tier(2, 3) {
        let n = [5, 8, 16, 17][sym::pick(4)];
        let ok = w.write_bytes(sx(), &d[..n]).is_ok();
        same!(ok, m.len() + n <= cap);
        if !ok {
            sym::cover(3);
            break;
        }
        m.extend_from_slice(&d[..n]);
    }
    sym::cover(1);
    m
}

#[inline(never)]
fn data(n: usize) -> Box<[u8]> {
    let mut v = vec![0u8; n];
    sym::fill(&mut v);
    v.into_boxed_slice()
}

/// One write; false after an error. `room` is what still fits.
#[inline(never)]
fn write<W: Writer>(w: &mut W, m: &mut Vec<u8>, room: usize, again: bool) -> bool {
    let cx = sx();
    let d = sym::bytes::<3>();
    let (n, r) = match sym::pick(if again { 4 } else { 3 }) {
        0 => (1, w.write_byte(cx, d[0])),
        1 => {
            let n = sym::pick(4);
            (n, w.write_bytes(cx, &d[..n]))
        }
        2 => {
            let n = sym::pick(4);
            let mut v = musli::alloc::Vec::new_in(System::new());
            v.extend_from_slice(&d[..n]).expect("memory");
            (n, w.extend(cx, v))
        }
        _ => return write(&mut w.borrow_mut(), m, room, false),
    };
    if r.is_ok() && n > room {
        panic!("written although it does not fit");
    }
    // a write of nothing may fail for lack of memory
    if r.is_err() && n <= room && n + room > 0 {
        panic!("not written although it fits");
    }
    if r.is_ok() {
        m.extend_from_slice(&d[..n]);
    } else {
        sym::cover(3);
    }
    r.is_ok()
}
#[inline(never)]
fn writes<W: Writer>(w: &mut W, cap: usize) -> Vec<u8> {
    writes_n(w, cap, tier(2, 3))
}
#[inline(never)]
fn writes_n<W: Writer>(w: &mut W, cap: usize, k: usize) -> Vec<u8> {
    let mut m = Vec::new();
    for _ in 0..k {
        let room = cap - m.len();
        if !write(w, &mut m, room, true) {
            break;
        }
    }
    sym::cover(1);
    m
}

harnesses! {
    fn h_m16_wide() {
        let d = data(24);
        match sym::pick(4) {
            0 => wide(&d[..], &d, 24),
            1 => wide(SliceReader::new(&d), &d, 24),
            2 => {
                let n = [7, 8, 16, 19, 30][sym::pick(5)];
                wide((&d[..]).limit(n), &d, n.min(24));
            }
            _ => {
                let n = [12, 17, 21][sym::pick(3)];
                wide(SliceReader::new(&d).limit(25).limit(n), &d, n);
            }
        }
    }
    fn h_m16_wide_writes() {
        match sym::pick(4) {
            0 => {
                let n = [7, 16, 21][sym::pick(3)];
                let mut b = [0xeeu8; 24];
                let mut w = (&mut b[..n]).into_writer();
                let m = wide_writes(&mut w, n);
                same!(w.finish(sx()).expect("finish"), n - m.len());
                drop(w);
                same!(&b[..m.len()], &m[..]);
                for i in n..24 {
                    same!(b[i], 0xee);
                }
            }
            1 => {
                let mut w = FixedBytes::<24>::new();
                let m = wide_writes(&mut w, 24);
                same!(w.as_slice(), &m[..]);
            }
            2 => {
                let mut w = BufWriter::new(System::new());
                let m = wide_writes(&mut w, 100);
                same!(w.into_inner().as_slice(), &m[..]);
            }
            _ => {
                let mut v = vec![];
                let m = wide_writes(&mut v, 100);
                same!(v, m);
            }
        }
    }
    /// A plain slice.
    fn h_m16_slice() {
        let d = data(sym::pick(5));
        steps(&d[..], &d, d.len(), tier(2, 3));
    }
    fn h_m16_slice_mut() {
        let d = data(sym::pick(5));
        let mut r = &d[..];
        steps((&mut r).into_reader(), &d, d.len(), 2);
    }
    fn h_m16_slice_reader() {
        let d = data(sym::pick(5));
        let r = SliceReader::new(&d);
        same!(r.remaining(), d.len());
        same!(r.as_slice(), &d[..]);
        steps(r, &d, d.len(), tier(2, 3));
    }
    /// What is left of a slice reader.
    fn h_m16_slice_reader_rest() {
        let d = data(sym::pick(5));
        let mut r = SliceReader::new(&d);
        let mut pos = 0;
        for _ in 0..2 {
            match step(&mut r, &d, pos, d.len()) {
                Some(p) => pos = p,
                None => break,
            }
            same!(r.remaining(), d.len() - pos);
            same!(r.as_slice(), &d[pos..]);
        }
        sym::cover(1);
    }
    /// Limits, also beyond the end and of any size.
    fn h_m16_limit() {
        let d = data(3);
        let n = [0, 2, 3, 5][sym::pick(4)];
        steps((&d[..]).limit(n), &d, d.len().min(n), 2);
    }
    fn h_m16_limit_any() {
        let d = data(3);
        let n = sym::usize();
        let mut l = SliceReader::new(&d).limit(n);
        same!(l.remaining(), n);
        let k = sym::usize();
        let r = l.skip(sx(), k);
        same!(r.is_ok(), k <= n && k <= 3);
        if r.is_ok() {
            same!(l.remaining(), n - k);
            same!(l.peek().is_some(), k < n && k < 3);
            sym::cover(1);
        }
    }
    fn h_m16_limit_slice_reader() {
        let d = data(3);
        let n = [0, 2, 3, 5][sym::pick(4)];
        steps(SliceReader::new(&d).limit(n), &d, d.len().min(n), 2);
    }
    /// Limits inside of limits.
    fn h_m16_limits() {
        let d = data(4);
        let (n, m) = ([0, 2, 5][sym::pick(3)], [1, 3][sym::pick(2)]);
        steps((&d[..]).limit(n).limit(m), &d, n.min(m).min(4), 2);
    }

    fn h_m16_write_slice() {
        let n = sym::pick(5);
        let mut b = [0xeeu8; 6];
        let mut w = (&mut b[..n]).into_writer();
        let m = writes(&mut w, n);
        same!(w.finish(sx()).expect("finish"), n - m.len());
        drop(w);
        same!(&b[..m.len()], &m[..]);
        for i in n..6 {
            same!(b[i], 0xee);
        }
    }
    fn h_m16_write_fixed() {
        let mut w = FixedBytes::<4>::new();
        let m = writes(&mut w, 4);
        same!(w.as_slice(), &m[..]);
        same!(w.len(), m.len());
        same!(w.is_empty(), m.is_empty());
        same!(w.remaining(), 4 - m.len());
        same!(w.as_mut_slice(), &m[..]);
        if sym::bool() {
            w.clear();
            same!(w.len(), 0);
            let m = writes_n(&mut w, 4, 1);
            same!(w.as_slice(), &m[..]);
        } else {
            match w.into_bytes() {
                Some(b) => same!(&b[..], &m[..]),
                None => same!((m.len() < 4), true),
            }
        }
    }
    /// The inherent methods and every capacity that fits.
    fn h_m16_fixed() {
        let c = sym::pick(5);
        let mut w = FixedBytes::<4>::with_capacity(c);
        let mut m = Vec::new();
        for _ in 0..tier(4, 5) {
            let d = sym::bytes::<3>();
            let n = sym::pick(4);
            let ok = if n == 0 { w.push(d[0]) } else { w.extend_from_slice(&d[..n]) };
            let n = n.max(1);
            same!(ok, m.len() + n <= 4);
            if ok {
                m.extend_from_slice(&d[..n]);
            }
            same!(&w[..], &m[..]);
        }
        sym::cover(1);
    }
    /// Nothing fits.
    fn h_m16_fixed_empty() {
        let mut w = FixedBytes::<0>::new();
        let m = writes(&mut w, 0);
        same!(m.len(), 0);
        same!(w.push(1), false);
        same!(w.as_slice(), &m[..]);
    }
    fn h_m16_write_vec() {
        let mut w = vec![9u8];
        let m = writes(&mut w, 100);
        same!(w[0], 9);
        same!(&w[1..], &m[..]);
    }
    fn h_m16_write_buf() {
        let mut w = BufWriter::new(System::new());
        let m = writes(&mut w, 100);
        same!(w.into_inner().as_slice(), &m[..]);
    }
    /// Without memory only nothing fits.
    fn h_m16_write_disabled() {
        let mut w = BufWriter::new(musli::alloc::Disabled::new());
        let m = writes(&mut w, 0);
        same!(w.into_inner().as_slice(), &m[..]);
    }
    fn h_m16_write_io() {
        let mut v = Vec::new();
        let mut w = musli::wrap::wrap(&mut v);
        let m = writes(&mut w, 100);
        drop(w);
        same!(v, m);
    }
    /// A bounded `std::io::Write`.
    fn h_m16_write_io_slice() {
        let n = sym::pick(5);
        let mut b = [0xeeu8; 6];
        let mut w = musli::wrap::wrap(&mut b[..n]);
        let m = writes(&mut w, n);
        drop(w);
        same!(&b[..m.len()], &m[..]);
        for i in n..6 {
            same!(b[i], 0xee);
        }
    }
}
