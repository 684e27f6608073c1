//! M14: the slice allocator hands out memory that is inside its buffer,
//! aligned and not shared, keeps what is stored there, and does not run dry.
use crate::sym;
use crate::tier;
use musli::alloc::{Slice, Vec};
use musli::alloc::{Alloc, AllocError, Allocator};

/// The most elements an allocation is grown to.
const M: usize = 16;

#[repr(align(16))]
struct Mem<const N: usize>([u8; N]);

type Of<'a, T> = <&'a Slice<'a> as Allocator>::Alloc<T>;

/// A live allocation and what it must contain.
struct Own<'a, T: 'static> {
    a: Of<'a, T>,
    d: [u64; M],
    n: usize,
}

enum Slot<'a> {
    No,
    A(Own<'a, u8>),
    B(Own<'a, u32>),
    C(Own<'a, u64>),
    D(Own<'a, u128>),
}

/// What an operation does; a later round repeats the first.
#[derive(Clone, Copy, PartialEq)]
enum Op {
    Open(usize, u8),
    One(usize, u8),
    Drop(usize),
    Grow(usize, usize),
    Merge(usize, usize),
}

trait El: Copy + 'static {
    fn of(v: u64) -> Self;
    fn get(self) -> u64;
}
macro_rules! el { ($($t:ty)*) => {$(impl El for $t { fn of(v: u64) -> Self { v as $t } fn get(self) -> u64 { self as u64 } })*} }
el!(u8 u32 u64 u128);

impl<'a, T: El> Own<'a, T> {
    #[inline(never)]
    fn grow(&mut self, add: usize) -> bool {
        if self.a.resize(self.n, add).is_err() {
            return false;
        }
        let room = self.a.capacity();
        if room < self.n || room - self.n < add {
            panic!("resized to less than was asked for");
        }
        let add = sym::concrete(add);
        let p = self.a.as_mut_ptr();
        for k in self.n..self.n + add {
            let v = T::of(sym::u8() as u64 | 0x1100);
            self.d[k] = v.get();
            unsafe { p.add(k).write(v) };
        }
        self.n += add;
        // Asking for nothing more changes nothing.
        if self.a.resize(self.n, 0).is_err() || self.a.capacity() < room {
            panic!("the capacity is lost");
        }
        true
    }
    /// The bytes that belong to this allocation.
    #[inline(never)]
    fn span(&mut self, lo: usize, hi: usize) -> (usize, usize) {
        let cap = self.a.capacity();
        let s = self.a.as_mut_ptr() as usize;
        if cap < self.n {
            panic!("less capacity than elements");
        }
        if s % core::mem::align_of::<T>() != 0 {
            panic!("not aligned");
        }
        if cap == 0 {
            return (0, 0);
        }
        if s < lo || s > hi || (hi - s) / core::mem::size_of::<T>() < cap {
            panic!("outside of the buffer");
        }
        let (s, cap) = (sym::concrete(s), sym::concrete(cap));
        let p = s as *mut T;
        for k in 0..self.n {
            if unsafe { p.add(k).read() }.get() != self.d[k] {
                panic!("the contents changed");
            }
        }
        // What is reserved may be written to.
        for k in self.n..cap {
            unsafe { p.add(k).write(T::of(0xeeee_eeee_eeee_eeee)) };
        }
        (s, s + cap * core::mem::size_of::<T>())
    }
    #[inline(never)]
    fn merge(&mut self, o: Own<'a, T>) -> Result<(), Own<'a, T>> {
        let Own { a, d, n } = o;
        match self.a.try_merge(self.n, a, n) {
            Ok(()) => {
                for k in 0..n {
                    self.d[self.n + k] = d[k];
                }
                self.n += n;
                sym::cover(5);
                Ok(())
            }
            Err(a) => {
                sym::cover(6);
                Err(Own { a, d, n })
            }
        }
    }
}

struct Cfg {
    /// Bytes of the buffer and where in memory it starts.
    n: usize,
    at: usize,
    /// Element types: a set of 1 (u8), 2 (u32), 4 (u64), 8 (u128).
    types: u8,
    slots: usize,
    ops: usize,
    /// By how much an allocation may grow at a time.
    add: usize,
    merge: bool,
    one: bool,
    /// How often the history is repeated.
    rounds: usize,
}

const SLOTS: usize = 4;
const OPS: usize = 10;

fn apply<'a>(s: &mut [Slot<'a>; SLOTS], al: &'a Slice<'a>, op: Op) -> bool {
    macro_rules! open { ($v:ident) => { Slot::$v(Own { a: al.alloc_empty(), d: [0; M], n: 0 }) } }
    macro_rules! one {
        ($v:ident, $t:ty) => {{
            let x = <$t as El>::of(sym::u8() as u64 | 0x1100);
            match al.alloc(x) {
                Ok(a) => {
                    let mut d = [0; M];
                    d[0] = x.get();
                    Slot::$v(Own { a, d, n: 1 })
                }
                Err(..) => return false,
            }
        }};
    }
    match op {
        Op::Open(i, t) => {
            s[i] = match t {
                0 => open!(A),
                1 => open!(B),
                2 => open!(C),
                _ => open!(D),
            };
            true
        }
        Op::One(i, t) => {
            s[i] = match t {
                0 => one!(A, u8),
                1 => one!(B, u32),
                2 => one!(C, u64),
                _ => one!(D, u128),
            };
            true
        }
        Op::Drop(i) => {
            s[i] = Slot::No;
            true
        }
        Op::Grow(i, n) => match &mut s[i] {
            Slot::A(o) => o.grow(n),
            Slot::B(o) => o.grow(n),
            Slot::C(o) => o.grow(n),
            Slot::D(o) => o.grow(n),
            Slot::No => false,
        },
        Op::Merge(i, j) => {
            let o = core::mem::replace(&mut s[j], Slot::No);
            let b;
            s[j] = match (&mut s[i], o) {
                (Slot::A(x), Slot::A(o)) => match x.merge(o) {
                    Ok(()) => { b = true; Slot::No }
                    Err(o) => { b = false; Slot::A(o) }
                },
                (Slot::B(x), Slot::B(o)) => match x.merge(o) {
                    Ok(()) => { b = true; Slot::No }
                    Err(o) => { b = false; Slot::B(o) }
                },
                (Slot::C(x), Slot::C(o)) => match x.merge(o) {
                    Ok(()) => { b = true; Slot::No }
                    Err(o) => { b = false; Slot::C(o) }
                },
                (Slot::D(x), Slot::D(o)) => match x.merge(o) {
                    Ok(()) => { b = true; Slot::No }
                    Err(o) => { b = false; Slot::D(o) }
                },
                (_, o) => { b = false; o }
            };
            b
        }
    }
}

#[inline(never)]
fn check(s: &mut [Slot<'_>; SLOTS], lo: usize, hi: usize) {
    let mut sp = [(0, 0); SLOTS];
    for i in 0..SLOTS {
        sp[i] = match &mut s[i] {
            Slot::No => (0, 0),
            Slot::A(o) => o.span(lo, hi),
            Slot::B(o) => o.span(lo, hi),
            Slot::C(o) => o.span(lo, hi),
            Slot::D(o) => o.span(lo, hi),
        };
        for j in 0..i {
            if sp[i].0 < sp[j].1 && sp[j].0 < sp[i].1 {
                panic!("two allocations share memory");
            }
        }
    }
}

fn kind(s: &Slot<'_>) -> u8 {
    match s {
        Slot::No => 9,
        Slot::A(..) => 0,
        Slot::B(..) => 1,
        Slot::C(..) => 2,
        Slot::D(..) => 3,
    }
}

fn len(s: &Slot<'_>) -> usize {
    match s {
        Slot::No => 0,
        Slot::A(o) => o.n,
        Slot::B(o) => o.n,
        Slot::C(o) => o.n,
        Slot::D(o) => o.n,
    }
}

/// Any operation that is possible.
#[inline(never)]
fn choose(s: &[Slot<'_>; SLOTS], c: &Cfg) -> Op {
    let mut t = [Op::Drop(0); 32];
    let mut n = 0;
    let mut put = |o| {
        t[n] = o;
        n += 1;
    };
    let free = (0..c.slots).find(|i| kind(&s[*i]) == 9);
    if let Some(i) = free {
        for k in 0..4 {
            if c.types >> k & 1 == 1 {
                put(Op::Open(i, k));
                if c.one {
                    put(Op::One(i, k));
                }
            }
        }
    }
    for i in 0..c.slots {
        if kind(&s[i]) == 9 {
            continue;
        }
        put(Op::Drop(i));
        if len(&s[i]) + c.add <= M {
            put(Op::Grow(i, 0));
        }
        if c.merge {
            for j in 0..c.slots {
                if j != i && kind(&s[j]) == kind(&s[i]) && len(&s[i]) + len(&s[j]) <= M {
                    put(Op::Merge(i, j));
                }
            }
        }
    }
    match t[sym::pick(n as u8)] {
        Op::Grow(i, _) => Op::Grow(i, sym::below(c.add as u8) as usize + 1),
        o => o,
    }
}

fn history<const N: usize>(c: Cfg) {
    let mut mem = Mem([0u8; N]);
    let lo = mem.0.as_ptr() as usize + c.at;
    let hi = lo + c.n;
    let al = Slice::new(&mut mem.0[c.at..c.at + c.n]);
    let al = unsafe { &*(&al as *const Slice<'_>) };
    let mut plan = [Op::Drop(0); OPS];
    let mut won = [false; OPS];
    for r in 0..c.rounds {
        let mut s = [const { Slot::No }; SLOTS];
        for k in 0..c.ops {
            if r == 0 {
                plan[k] = choose(&s, &c);
            }
            let ok = match plan[k] {
                // An operation of the first round on what this one did not get.
                Op::Grow(i, _) | Op::Merge(i, _) if kind(&s[i]) == 9 => false,
                o => apply(&mut s, al, o),
            };
            check(&mut s, lo, hi);
            if r == 0 && !ok {
                sym::cover(1);
            }
            if r <= 1 {
                won[k] = ok;
            } else if won[k] && !ok {
                panic!("memory that was given back is not available any more");
            }
        }
        for i in 0..SLOTS {
            s[i] = Slot::No;
            check(&mut s, lo, hi);
        }
    }
    sym::cover(2);
}

/// The size of the allocator's bookkeeping for one allocation.
const H: usize = 24;

/// Sizes as large as they get: an error, or that much memory.
fn huge<T: El>(n: usize, at: usize) {
    let mut mem = Mem([0u8; 160]);
    let lo = mem.0.as_ptr() as usize + at;
    let hi = lo + n;
    let al = Slice::new(&mut mem.0[at..at + n]);
    let mut a = al_of(&al).alloc_empty::<T>();
    let mut b = al_of(&al).alloc_empty::<T>();
    let which = sym::bool();
    let x = if which { &mut a } else { &mut b };
    let (len, add) = (sym::usize(), sym::usize());
    let had = x.capacity();
    // Only what is there is said to be used.
    sym::assume(len <= had);
    match x.resize(len, add) {
        Ok(()) => {
            let cap = x.capacity();
            if cap < len || cap - len < add {
                panic!("resized to less than was asked for");
            }
            let s = x.as_ptr() as usize;
            if s < lo || s > hi || (hi - s) / core::mem::size_of::<T>() < cap {
                panic!("outside of the buffer");
            }
            sym::cover(1);
        }
        Err(..) => {
            // What fits whatever the alignment must be given.
            let size = core::mem::size_of::<T>();
            if add <= n && (len + add) * size + 3 * H + 16 <= n {
                panic!("memory that is there is not given");
            }
            sym::cover(2);
        }
    }
}
fn al_of<'a>(a: &'a Slice<'a>) -> &'a Slice<'a> {
    a
}

/// A value of N bytes fits or is refused.
fn value<const N: usize>() {
    let mut mem = Mem([0u8; 160]);
    let n = sym::pick(161);
    let lo = mem.0.as_ptr() as usize;
    let al = Slice::new(&mut mem.0[..n]);
    let v: [u8; N] = sym::bytes();
    let mut live: [Option<Of<'_, [u8; N]>>; 3] = [None, None, None];
    for k in 0..3 {
        match (&al).alloc(v) {
            Ok(a) => {
                let p = a.as_ptr();
                let s = p as usize;
                if s < lo || s + N > lo + n {
                    panic!("outside of the buffer");
                }
                live[k] = Some(a);
            }
            Err(..) => {
                if k == 0 && N + H + 8 <= n {
                    panic!("memory that is there is not given");
                }
                sym::cover(2);
                break;
            }
        }
        for j in 0..=k {
            let Some(a) = &live[j] else { continue };
            if unsafe { a.as_ptr().read() } != v {
                panic!("the contents changed");
            }
            // All of it may be written to.
            unsafe { (a.as_ptr() as *mut [u8; N]).write(v) };
        }
    }
    sym::cover(1);
}

crate::harnesses! {
    /// One-byte allocations: opening, growing and dropping.
    fn h_m14_bytes() {
        history::<160>(Cfg { n: 4 * H + 6, at: 0, types: 1, slots: 3, ops: tier(6, 7), add: 2, merge: false, one: false, rounds: 1 })
    }
    /// Appending one allocation to another.
    fn h_m14_merge() {
        history::<160>(Cfg { n: 4 * H + 8, at: 0, types: 1, slots: 3, ops: tier(6, 8), add: 1, merge: true, one: false, rounds: 1 })
    }
    /// Two element types.
    fn h_m14_mixed() {
        history::<160>(Cfg { n: 4 * H + 16, at: 0, types: 3, slots: 2, ops: tier(6, 7), add: 2, merge: false, one: false, rounds: 1 })
    }
    /// A buffer that starts unaligned, and values allocated at once.
    fn h_m14_unaligned() {
        history::<160>(Cfg { n: 4 * H + 15, at: 1, types: 5, slots: 2, ops: tier(5, 6), add: 1, merge: false, one: true, rounds: 1 })
    }
    /// Elements aligned to more than the bookkeeping, with no room to align them or little.
    fn h_m14_aligned() {
        let (n, at) = match sym::pick(3) {
            0 => (31, 1),
            1 => (4 * H + 24, 8),
            _ => (3 * H + 24, 15),
        };
        history::<176>(Cfg { n, at, types: 9, slots: 2, ops: tier(5, 6), add: 1, merge: false, one: true, rounds: 1 })
    }
    /// Appending more than a few bytes.
    fn h_m14_merge_wide() {
        history::<208>(Cfg { n: 5 * H + 80, at: 0, types: 8, slots: 3, ops: tier(6, 7), add: 2, merge: true, one: false, rounds: 1 })
    }
    /// What is given back is available again.
    fn h_m14_again() {
        history::<160>(Cfg { n: 4 * H + 6, at: 0, types: 1, slots: 3, ops: tier(6, 7), add: 1, merge: false, one: false, rounds: 7 })
    }
    fn h_m14_again_unaligned() {
        history::<160>(Cfg { n: 4 * H + 15, at: 3, types: 2, slots: 3, ops: tier(6, 7), add: 1, merge: false, one: false, rounds: 7 })
    }
    /// Opening and dropping alone, for longer.
    fn h_m14_open_drop() {
        history::<160>(Cfg { n: 5 * H + 6, at: 0, types: 1, slots: 4, ops: tier(6, 8), add: 1, merge: false, one: true, rounds: 4 })
    }
    /// Any size, 64 bits wide.
    fn h_m14_huge() {
        match sym::pick(7) {
            0 => huge::<u8>(120, 0),
            1 => huge::<u32>(120, 0),
            2 => huge::<u64>(120, 0),
            3 => huge::<u8>(119, 1),
            4 => huge::<u32>(119, 1),
            5 => huge::<u128>(121, 7),
            _ => huge::<u64>(119, 1),
        }
    }
    /// Values that leave no room for the bookkeeping.
    fn h_m14_value() {
        match sym::pick(4) {
            0 => value::<1>(),
            1 => value::<7>(),
            2 => value::<40>(),
            _ => value::<100>(),
        }
    }
}
