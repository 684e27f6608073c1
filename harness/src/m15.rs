//! M15: the allocator-aware collections have the contents of their standard
//! counterparts, drop every element once and give their memory back.
use crate::sym;
use crate::{same, tier};
use core::cell::Cell;
use core::fmt::Write;
use musli::alloc::{Allocator, Box as MBox, Disabled, Slice, String as MString, System, Vec as MVec};

/// An element whose content and number of drops can be seen.
trait El: Sized + PartialEq {
    fn new() -> Self;
    fn same(&self) -> Self;
}
impl El for u8 {
    fn new() -> Self { sym::u8() }
    fn same(&self) -> Self { *self }
}
impl El for u64 {
    fn new() -> Self { sym::u8() as u64 * 0x0101_0001 }
    fn same(&self) -> Self { *self }
}
/// Zero-sized, without anything to drop.
impl El for () {
    fn new() -> Self {}
    fn same(&self) -> Self {}
}
/// Owns memory: dropping it twice or never is noticed.
#[derive(PartialEq)]
struct Tok(std::boxed::Box<u8>);
impl El for Tok {
    fn new() -> Self { Tok(std::boxed::Box::new(sym::u8())) }
    fn same(&self) -> Self { Tok(std::boxed::Box::new(*self.0)) }
}
/// Zero-sized, counting itself.
#[derive(PartialEq)]
struct Zst(());
struct Count(Cell<i64>);
unsafe impl Sync for Count {}
static ZSTS: Count = Count(Cell::new(0));
impl Drop for Zst {
    fn drop(&mut self) { ZSTS.0.set(ZSTS.0.get() - 1) }
}
impl El for Zst {
    fn new() -> Self {
        ZSTS.0.set(ZSTS.0.get() + 1);
        Zst(())
    }
    fn same(&self) -> Self { Self::new() }
}

fn agree<T: El, A: Allocator>(v: &MVec<T, A>, m: &Vec<T>) {
    same!(v.len(), m.len());
    same!(v.is_empty(), m.is_empty());
    if v.capacity() < v.len() {
        panic!("less capacity than elements");
    }
    let s = v.as_slice();
    same!(s.len(), m.len());
    for k in 0..m.len() {
        if s[k] != m[k] {
            panic!("an element differs");
        }
    }
}

/// Any operations on one vector.
#[inline(never)]
fn vector<T: El, A: Allocator>(al: A, ops: usize) {
    let (mut v, mut m) = match sym::pick(2) {
        0 => (MVec::<T, A>::new_in(al), Vec::new()),
        _ => {
            let n = sym::pick(4);
            let Ok(v) = MVec::<T, A>::with_capacity_in(n, al) else {
                sym::cover(9);
                return;
            };
            if v.capacity() < n {
                panic!("less capacity than was asked for");
            }
            (v, Vec::new())
        }
    };
    agree(&v, &m);
    for _ in 0..ops {
        match sym::pick(6) {
            0 => {
                let x = T::new();
                let y = x.same();
                match v.push(x) {
                    Ok(()) => m.push(y),
                    Err(..) => sym::cover(1),
                }
            }
            1 => {
                let (a, b) = (v.pop(), m.pop());
                same!(a, b);
            }
            2 => {
                v.clear();
                m.clear();
            }
            3 => {
                // Little, or more than can be.
                let n = match sym::pick(2) {
                    0 => sym::below(6) as usize,
                    _ => {
                        let n = sym::usize();
                        sym::assume(n > isize::MAX as usize);
                        n
                    }
                };
                match v.reserve(n) {
                    Ok(()) => match v.len().checked_add(n) {
                        Some(n) if v.capacity() >= n => {}
                        _ if core::mem::size_of::<T>() == 0 => {}
                        _ => panic!("less capacity than was asked for"),
                    },
                    Err(..) => sym::cover(2),
                }
            }
            4 => {
                let (b, n) = v.into_raw_parts();
                v = MVec::from_raw_parts(b, n);
            }
            _ => {
                if let Some(x) = v.as_slice_mut().last_mut() {
                    let y = T::new();
                    let n = m.len();
                    m[n - 1] = y.same();
                    *x = y;
                }
            }
        }
        agree(&v, &m);
    }
    sym::cover(3);
    drop(v);
    drop(m);
}

fn counted(f: impl FnOnce()) {
    let (l, z) = (sym::live(), ZSTS.0.get());
    f();
    if sym::live() != l {
        panic!("memory is left over");
    }
    if ZSTS.0.get() != z {
        panic!("an element was dropped more or less than once");
    }
}

/// Two vectors of plain elements, and moving one into the other.
#[inline(never)]
fn pair<T: El + Copy, A: Allocator>(al: A, ops: usize) {
    let mut v = [const { None }; 2].map(|_: Option<()>| MVec::<T, A>::new_in(al));
    let mut m = [const { Vec::new() }; 2];
    for _ in 0..ops {
        let i = sym::pick(2);
        match sym::pick(4) {
            0 => {
                let x = [T::new(), T::new(), T::new()];
                let n = sym::pick(4);
                match v[i].extend_from_slice(&x[..n]) {
                    Ok(()) => m[i].extend_from_slice(&x[..n]),
                    Err(..) => sym::cover(1),
                }
            }
            1 => {
                let o = core::mem::replace(&mut v[1 - i], MVec::new_in(al));
                let p = core::mem::take(&mut m[1 - i]);
                match v[i].extend(o) {
                    Ok(()) => m[i].extend_from_slice(&p),
                    Err(..) => sym::cover(2),
                }
            }
            2 => {
                let (a, b) = (v[i].pop(), m[i].pop());
                if a != b {
                    panic!("an element differs");
                }
            }
            _ => {
                v[i] = MVec::new_in(al);
                m[i].clear();
            }
        }
        agree(&v[0], &m[0]);
        agree(&v[1], &m[1]);
    }
    sym::cover(3);
}

/// Conversion from and to the standard vector.
#[inline(never)]
fn convert<T: El + core::fmt::Debug>() {
    let n = sym::pick(4);
    let mut s = Vec::new();
    let mut m = Vec::new();
    match sym::pick(3) {
        0 => {}
        1 => s = Vec::with_capacity(n),
        _ => s = Vec::with_capacity(n + 2),
    }
    for _ in 0..n {
        let x = T::new();
        m.push(x.same());
        s.push(x);
    }
    let mut v = MVec::<T, System>::from(s);
    agree(&v, &m);
    for _ in 0..sym::pick(3) {
        let x = T::new();
        m.push(x.same());
        if v.push(x).is_err() {
            panic!("cannot allocate");
        }
    }
    agree(&v, &m);
    match v.into_std() {
        Ok(v) => same!(v, m),
        Err(..) => panic!("not converted"),
    }
}

#[inline(never)]
fn boxed<T: El, A: Allocator>(al: A) {
    let x = T::new();
    let y = x.same();
    let z = T::new();
    let Ok(mut b) = MBox::new_in(x, al) else {
        sym::cover(1);
        return;
    };
    if *b != y {
        panic!("the value differs");
    }
    let w = z.same();
    let Ok(c) = MBox::new_in(z, al) else {
        sym::cover(2);
        return;
    };
    if *b != y || *c != w {
        panic!("the value differs");
    }
    same!((b == c), (y == w));
    *b = w;
    if *b != *c {
        panic!("the value differs");
    }
    match sym::pick(2) {
        0 => drop(b),
        _ => {
            drop(c);
            drop(b);
        }
    }
    sym::cover(3);
}

fn str_agree<A: Allocator>(v: &MString<A>, m: &str) {
    same!(v.len(), m.len());
    same!(v.is_empty(), m.is_empty());
    same!(v.as_str().as_bytes(), m.as_bytes());
    if core::str::from_utf8(v.as_bytes()).is_err() {
        panic!("not UTF-8");
    }
    if v.capacity() < v.len() {
        panic!("less capacity than bytes");
    }
}

#[inline(never)]
fn text<A: Allocator>(al: A, ops: usize) {
    let mut v = MString::new_in(al);
    let mut m = String::new();
    for _ in 0..ops {
        match sym::pick(4) {
            0 => {
                let c = sym::char();
                match v.push(c) {
                    Ok(()) => m.push(c),
                    Err(..) => sym::cover(1),
                }
            }
            1 => {
                let s = sym::string::<2>();
                match v.push_str(s.get()) {
                    Ok(()) => m.push_str(s.get()),
                    Err(..) => sym::cover(1),
                }
            }
            2 => {
                let c = sym::char();
                match v.write_char(c) {
                    Ok(()) => m.push(c),
                    Err(..) => sym::cover(1),
                }
            }
            _ => {
                let b = v.into_bytes();
                v = match MString::from_utf8(b) {
                    Ok(v) => v,
                    Err(..) => panic!("not UTF-8"),
                };
            }
        }
        str_agree(&v, &m);
    }
    sym::cover(3);
}

/// Storing into a slice allocator with `n` bytes.
fn sliced(n: usize, f: impl for<'a> FnOnce(&'a Slice<'a>)) {
    #[repr(align(16))]
    struct Mem([u8; 256]);
    let mut m = Mem([0; 256]);
    let al = Slice::new(&mut m.0[..n]);
    f(unsafe { &*(&al as *const Slice<'_>) });
}

crate::harnesses! {
    fn h_m15_vec_u8() {
        counted(|| vector::<u8, _>(System::new(), tier(5, 6)))
    }
    fn h_m15_vec_zst() {
        counted(|| match sym::pick(2) {
            0 => vector::<(), _>(System::new(), tier(4, 5)),
            _ => vector::<Zst, _>(System::new(), tier(4, 5)),
        })
    }
    fn h_m15_vec_drop() {
        counted(|| vector::<Tok, _>(System::new(), tier(4, 5)))
    }
    fn h_m15_vec_slice() {
        counted(|| match sym::pick(4) {
            0 => sliced(56, |a| vector::<u64, _>(a, tier(4, 5))),
            1 => sliced(200, |a| vector::<Tok, _>(a, tier(4, 5))),
            2 => sliced(48, |a| vector::<Zst, _>(a, 3)),
            _ => sliced(20, |a| vector::<u8, _>(a, 3)),
        })
    }
    fn h_m15_vec_disabled() {
        counted(|| match sym::pick(2) {
            0 => vector::<Tok, _>(Disabled::new(), 3),
            _ => vector::<Zst, _>(Disabled::new(), 3),
        })
    }
    fn h_m15_pair_system() {
        counted(|| match sym::pick(3) {
            0 => pair::<u8, _>(System::new(), tier(4, 5)),
            1 => pair::<u64, _>(System::new(), 3),
            _ => pair::<(), _>(System::new(), 3),
        })
    }
    fn h_m15_pair_slice() {
        counted(|| match sym::pick(3) {
            0 => sliced(5 * 24 + 8, |a| pair::<u8, _>(a, tier(4, 5))),
            1 => sliced(4 * 24 + 64, |a| pair::<u64, _>(a, tier(4, 5))),
            _ => sliced(4 * 24, |a| pair::<(), _>(a, 3)),
        })
    }
    fn h_m15_convert() {
        counted(|| match sym::pick(4) {
            0 => convert::<u8>(),
            1 => convert::<u64>(),
            2 => convert::<()>(),
            _ => {
                let b = sym::string::<3>();
                let v = MString::<System>::from(String::from(b.get()));
                str_agree(&v, b.get());
                match v.into_std() {
                    Ok(s) => same!(s.as_bytes(), b.get().as_bytes()),
                    Err(..) => panic!("not converted"),
                }
            }
        })
    }
    fn h_m15_box() {
        counted(|| match sym::pick(6) {
            0 => boxed::<u64, _>(System::new()),
            1 => boxed::<Tok, _>(System::new()),
            2 => boxed::<Zst, _>(System::new()),
            3 => sliced(sym::pick(90), |a| boxed::<Tok, _>(a)),
            4 => sliced(100, |a| boxed::<Zst, _>(a)),
            _ => match sym::pick(2) {
                0 => boxed::<Tok, _>(Disabled::new()),
                _ => boxed::<Zst, _>(Disabled::new()),
            },
        })
    }
    fn h_m15_string() {
        counted(|| match sym::pick(2) {
            0 => text(System::new(), tier(2, 3)),
            _ => sliced(48, |a| text(a, tier(2, 3))),
        })
    }
    /// Bytes become a string exactly if they are UTF-8.
    fn h_m15_from_utf8() {
        let b = sym::slice::<3>();
        let mut v = MVec::new_in(System::new());
        if v.extend_from_slice(b.get()).is_err() {
            panic!("cannot allocate");
        }
        match (MString::from_utf8(v), core::str::from_utf8(b.get())) {
            (Ok(a), Ok(b)) => str_agree(&a, b),
            (Err(a), Err(e)) => {
                same!(a.as_bytes(), b.get());
                same!(a.utf8_error(), e);
                same!(a.into_bytes().as_slice(), b.get());
            }
            _ => panic!("differs from the standard string"),
        }
    }
    /// Comparisons are those of the contents.
    fn h_m15_order() {
        let (a, b) = (sym::slice::<2>(), sym::slice::<2>());
        let mk = |s: &[u8]| {
            let mut v = MVec::new_in(System::new());
            if v.extend_from_slice(s).is_err() {
                panic!("cannot allocate");
            }
            v
        };
        let (v, w) = (mk(a.get()), mk(b.get()));
        let (x, y) = (a.get(), b.get());
        same!((v == w), (x == y));
        same!(v.cmp(&w), x.cmp(y));
        same!(v.partial_cmp(&w), x.partial_cmp(y));
        same!((v == *y), (x == y));
        same!((*x == w), (x == y));
        if let (Ok(x), Ok(y)) = (core::str::from_utf8(x), core::str::from_utf8(y)) {
            let (Ok(v), Ok(w)) = (MString::from_utf8(v), MString::from_utf8(w)) else { panic!("not a string") };
            same!((v == w), (x == y));
            same!(v.cmp(&w), x.cmp(y));
            same!((v == *y), (x == y));
            same!((*x == w), (x == y));
        }
    }
}
