//! M23: contexts are told what is read, and where.
use crate::cx::*;
use crate::fmts::*;
use crate::rt::{buf, B};
use crate::sym::{self, any, Sym};
use crate::tier;
use core::cell::{Cell, RefCell};
use core::fmt;
use musli::alloc::{Allocator, Slice, System};
use musli::context;
use musli::mode::{Binary, Text};
use musli::{Context, Decode, Decoder, Encode, Encoder};
use std::collections::{BTreeMap, VecDeque};

type D = Descriptive;
type J = Json;
type P = Packed;
type W = Wire;
type S = Storage;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Struct(&'static str),
    Enum(&'static str),
    Variant(&'static str),
    Named(&'static str),
    Unnamed(u32),
    Index(usize),
    /// Length and last character of the key.
    Key(usize, u8),
}
use Step::*;

/// A context that records what it is told.
struct Rec {
    pos: Cell<usize>,
    path: RefCell<Vec<Step>>,
    /// Number of errors, position and path of the first one.
    errors: Cell<usize>,
    at: Cell<(usize, usize)>,
    err: RefCell<Vec<Step>>,
    /// Those of the last one.
    last_at: Cell<(usize, usize)>,
    last: RefCell<Vec<Step>>,
}
impl Rec {
    fn new() -> Rec {
        Rec { pos: Cell::new(77), path: RefCell::default(), errors: Cell::new(0), at: Cell::new((0, 0)), err: RefCell::default(), last_at: Cell::new((0, 0)), last: RefCell::default() }
    }
    fn fail(&self, start: usize) -> Er {
        if self.errors.get() == 0 {
            self.at.set((start, self.pos.get()));
            *self.err.borrow_mut() = self.path.borrow().clone();
        }
        self.last_at.set((start, self.pos.get()));
        *self.last.borrow_mut() = self.path.borrow().clone();
        self.errors.set(self.errors.get() + 1);
        Er
    }
    fn enter(&self, s: Step) {
        self.path.borrow_mut().push(s);
    }
    fn leave(&self, f: fn(Step) -> bool) {
        match self.path.borrow_mut().pop() {
            Some(s) if f(s) => {}
            _ => panic!("left what was not entered last"),
        }
    }
}
/// Counts what is displayed.
struct Len(usize, u8);
impl fmt::Write for Len {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            *self = Len(self.0 + 1, b);
        }
        Ok(())
    }
}
impl Context for &Rec {
    type Error = Er;
    type Mark = (usize, usize);
    type Allocator = System;
    fn clear(self) {
        self.pos.set(0);
        self.path.borrow_mut().clear();
        self.errors.set(0);
    }
    fn advance(self, n: usize) {
        self.pos.set(self.pos.get().checked_add(n).expect("position"));
    }
    fn mark(self) -> (usize, usize) {
        (self.pos.get(), self.path.borrow().len())
    }
    fn restore(self, m: &(usize, usize)) {
        self.pos.set(m.0);
        self.path.borrow_mut().truncate(m.1);
    }
    fn alloc(self) -> System {
        System::new()
    }
    fn custom<E: 'static + Send + Sync + core::error::Error>(self, _: E) -> Er {
        self.fail(self.pos.get())
    }
    fn message<M: fmt::Display>(self, _: M) -> Er {
        self.fail(self.pos.get())
    }
    fn custom_at<E: 'static + Send + Sync + core::error::Error>(self, m: &(usize, usize), _: E) -> Er {
        self.fail(m.0)
    }
    fn message_at<M: fmt::Display>(self, m: &(usize, usize), _: M) -> Er {
        self.fail(m.0)
    }
    fn enter_struct(self, n: &'static str) {
        self.enter(Struct(n));
    }
    fn leave_struct(self) {
        self.leave(|s| matches!(s, Struct(..)));
    }
    fn enter_enum(self, n: &'static str) {
        self.enter(Enum(n));
    }
    fn leave_enum(self) {
        self.leave(|s| matches!(s, Enum(..)));
    }
    fn enter_variant<V: fmt::Display>(self, n: &'static str, _: V) {
        self.enter(Variant(n));
    }
    fn leave_variant(self) {
        self.leave(|s| matches!(s, Variant(..)));
    }
    fn enter_named_field<F: fmt::Display>(self, n: &'static str, _: F) {
        self.enter(Named(n));
    }
    fn enter_unnamed_field<F: fmt::Display>(self, i: u32, _: F) {
        self.enter(Unnamed(i));
    }
    fn leave_field(self) {
        self.leave(|s| matches!(s, Named(..) | Unnamed(..)));
    }
    fn enter_sequence_index(self, i: usize) {
        self.enter(Index(i));
    }
    fn leave_sequence_index(self) {
        self.leave(|s| matches!(s, Index(..)));
    }
    fn enter_map_key<K: fmt::Display>(self, k: K) {
        let mut l = Len(0, 0);
        let _ = fmt::Write::write_fmt(&mut l, format_args!("{k}"));
        self.enter(Key(l.0, l.1));
    }
    fn leave_map_key(self) {
        self.leave(|s| matches!(s, Key(..)));
    }
}

/// Does not decode when it is zero.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Probe(u8);
impl<M> Encode<M> for Probe {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_u8(self.0)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Probe {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X: Decoder<'de, Mode = M, Allocator = A>>(d: X) -> Result<Self, X::Error> {
        let cx = d.cx();
        match d.decode_u8()? {
            0 => Err(cx.message("zero")),
            n => Ok(Probe(n)),
        }
    }
}
impl Sym for Probe {
    // symbolic, but decided before anything else
    fn sym() -> Probe {
        Probe(sym::pick(2) as u8)
    }
}

#[derive(Encode, Decode, PartialEq)]
struct R {
    a: Probe,
    list: Vec<Probe>,
    dq: VecDeque<Probe>,
    #[musli(trace)]
    map: BTreeMap<u8, Probe>,
    e: En,
    t: (u8, Probe),
    u: Tu,
    o: Option<Probe>,
}
#[derive(Encode, Decode, PartialEq)]
enum En {
    A(Probe),
    B { x: Probe, y: Probe },
    C,
}
#[derive(Encode, Decode, PartialEq)]
struct Tu(Probe, u8, Probe);

/// The path to the first zero, in the order in which the fields are written.
fn bad(r: &R) -> Option<Vec<Step>> {
    let f = |n: &'static str, rest: &[Step]| {
        let mut v = vec![Struct("R"), Named(n)];
        v.extend_from_slice(rest);
        Some(v)
    };
    if r.a.0 == 0 {
        return f("a", &[]);
    }
    for (i, x) in r.list.iter().enumerate() {
        if x.0 == 0 {
            return f("list", &[Index(i)]);
        }
    }
    for (i, x) in r.dq.iter().enumerate() {
        if x.0 == 0 {
            return f("dq", &[Index(i)]);
        }
    }
    for (k, x) in &r.map {
        if x.0 == 0 {
            let (n, c) = if *k < 10 { (1, b'0' + *k) } else { (2, b'0' + *k % 10) };
            return f("map", &[Key(n, c)]);
        }
    }
    match &r.e {
        En::A(x) if x.0 == 0 => return f("e", &[Enum("En"), Variant("A"), Unnamed(0)]),
        En::B { x, .. } if x.0 == 0 => return f("e", &[Enum("En"), Variant("B"), Named("x")]),
        En::B { y, .. } if y.0 == 0 => return f("e", &[Enum("En"), Variant("B"), Named("y")]),
        _ => {}
    }
    if r.t.1 .0 == 0 {
        return f("t", &[]);
    }
    if r.u.0 .0 == 0 {
        return f("u", &[Struct("Tu"), Unnamed(0)]);
    }
    if r.u.2 .0 == 0 {
        return f("u", &[Struct("Tu"), Unnamed(2)]);
    }
    match r.o {
        Some(x) if x.0 == 0 => f("o", &[]),
        _ => None,
    }
}
fn all() -> R {
    let mut p: [u8; 15] = [1; 15];
    // one of them, or none
    let k = sym::pick(16);
    if k < 15 {
        p[k] = 0;
    }
    let k = sym::pick(3);
    let p = p.map(Probe);
    let n = 1 + sym::pick(12) as u8;
    R {
        a: p[0],
        list: vec![p[1], p[2], p[3]],
        dq: [p[4], p[5]].into(),
        map: [(n, p[6]), (n + 1, p[7])].into(),
        e: match k {
            0 => En::A(p[8]),
            1 => En::B { x: p[9], y: p[10] },
            _ => En::C,
        },
        t: (3, p[11]),
        u: Tu(p[12], 4, p[13]),
        o: if n < 11 { Some(p[14]) } else { None },
    }
}

/// What goes wrong is found at its path and position.
#[inline(never)]
fn located<F: Fmt>()
where
    R: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let r = all();
    let want = bad(&r);
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &r).expect("encode"));
    let cx = Rec::new();
    let mut rest = &b[..];
    let o = F::dec_in::<_, R>(&cx, &mut rest);
    // everything was counted, and once
    same!(cx.pos.get(), B - rest.len());
    match (o, want) {
        (Ok(o), None) => {
            if !(o == r) {
                panic!("decoded value differs");
            }
            same!(cx.pos.get(), n);
            same!(cx.errors.get(), 0);
            same!(cx.path.borrow().len(), 0);
            sym::cover(1);
        }
        (Err(..), Some(p)) => {
            same!(cx.errors.get(), 1);
            same!(&*cx.err.borrow(), &p);
            same!(cx.at.get(), (B - rest.len(), B - rest.len()));
            sym::cover(2);
        }
        _ => panic!("outcome differs"),
    }
}

#[derive(Encode, Decode, PartialEq)]
struct Q {
    a: u8,
    u: Ug,
    v: Vec<Ug>,
    z: Probe,
}
#[derive(Encode, Decode, PartialEq)]
#[musli(untagged)]
enum Ug {
    #[musli(name_all = "name")]
    A { x: Probe, l: Vec<Probe> },
    #[musli(transparent)]
    B(bool),
    #[musli(name_all = "name")]
    C { y: Probe },
}

/// Variants that were tried leave no trace.
#[inline(never)]
fn tried<F: Fmt>(at: usize)
where
    Q: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let k = sym::pick(6);
    let p = |i: usize| Probe((i != k) as u8);
    let ug = |i: usize| match sym::pick(3) {
        0 => Ug::A { x: p(i), l: vec![Probe(2), p(i + 1)] },
        1 => Ug::B(any()),
        _ => Ug::C { y: p(i) },
    };
    let q = Q { a: 1, u: ug(0), v: vec![Ug::B(true), ug(2)], z: p(4) };
    let bad = |u: &Ug| match u {
        Ug::A { x, l } => x.0 == 0 || l[1].0 == 0,
        Ug::B(..) => false,
        Ug::C { y } => y.0 == 0,
    };
    let want = if bad(&q.u) {
        Some(vec![Struct("Q"), Named("u"), Enum("Ug")])
    } else if bad(&q.v[1]) {
        Some(vec![Struct("Q"), Named("v"), Index(1), Enum("Ug")])
    } else if q.z.0 == 0 {
        Some(vec![Struct("Q"), Named("z")])
    } else {
        None
    };
    let mut b = buf::<F>();
    let n = sym::concrete(F::enc(sx(), &mut b, &q).expect("encode"));
    let cx = Rec::new();
    let mut rest = &b[..];
    let o = F::dec_in::<_, Q>(&cx, &mut rest);
    match (o, want) {
        (Ok(o), None) => {
            if !(o == q) {
                panic!("decoded value differs");
            }
            same!(B - rest.len(), n);
            same!(cx.pos.get(), n);
            same!(cx.path.borrow().len(), 0);
            sym::cover(1);
        }
        (Err(..), Some(p)) => {
            same!(&*cx.last.borrow(), &p);
            if p.len() == 2 {
                // what failed last is what is at fault
                same!(cx.last_at.get(), (B - rest.len(), B - rest.len()));
                sym::cover(2);
            } else {
                if p.len() == 3 && at > 0 {
                    same!(cx.last_at.get(), (at, at));
                }
                sym::cover(3);
            }
        }
        _ => panic!("outcome differs"),
    }
}

/// On any input, the position is that of the reader, errors are within what was read, and
/// there are errors exactly when decoding fails.
#[inline(never)]
fn input<F: Fmt, T>(b: &[u8])
where
    T: for<'de> Decode<'de, F::Mode, System>,
{
    let cx = Rec::new();
    let mut r = b;
    let o = F::dec_in::<_, T>(&cx, &mut r).is_ok();
    let used = b.len() - r.len();
    if o {
        same!(cx.errors.get(), 0);
        same!(cx.path.borrow().len(), 0);
        same!(cx.pos.get(), used);
        sym::cover(1);
    } else {
        if cx.errors.get() == 0 {
            panic!("failed without an error");
        }
        let (s, e) = cx.at.get();
        if s > e || e > b.len() {
            panic!("error outside of the input");
        }
        sym::cover(2);
    }
}

/// Text of at most this length.
struct Text_ {
    b: [u8; 160],
    n: usize,
}
impl Text_ {
    fn new() -> Self {
        Text_ { b: [0; 160], n: 0 }
    }
    fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
    fn str(&mut self, s: &str) {
        self.b[self.n..self.n + s.len()].copy_from_slice(s.as_bytes());
        self.n += s.len();
    }
    fn digit(&mut self, d: u8) {
        self.b[self.n] = b'0' + d;
        self.n += 1;
    }
}
impl fmt::Write for Text_ {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.str(s);
        Ok(())
    }
}

/// How a path is displayed: fields, indexes and keys follow each other, what
/// they hold comes after an equals sign, and what is in a type is in braces.
fn render(path: &[Step], types: bool, cap: usize) -> Text_ {
    let mut t = Text_::new();
    let (mut field, mut ty, mut level) = (false, false, 0);
    for s in path {
        match s {
            Struct(..) | Enum(..) if !types => continue,
            Struct(..) | Enum(..) | Variant(..) => {
                if field {
                    t.str(" = ");
                }
                field = false;
            }
            _ => {
                if ty {
                    t.str(" { ");
                    level += 1;
                }
                ty = false;
                field = true;
            }
        }
        match s {
            Struct(n) => {
                t.str(n);
                ty = true;
            }
            Enum(n) => {
                t.str(n);
                t.str("::");
            }
            Variant(n) => {
                t.str(n);
                ty = true;
            }
            Named(n) => {
                t.str(".");
                t.str(n);
            }
            Unnamed(i) => {
                t.str(".");
                t.digit(*i as u8);
            }
            Index(i) => {
                t.str("[");
                t.digit(*i as u8);
                t.str("]");
            }
            Key(_, c) => {
                t.str("[k");
                t.digit(*c);
                t.str("]");
            }
        }
    }
    for _ in 0..level {
        t.str(" }");
    }
    match cap {
        0 => {}
        1 => t.str(" .. *one capped step*"),
        n => {
            t.str(" .. *");
            t.digit(n as u8);
            t.str(" capped steps*");
        }
    }
    t
}

/// One thing a context is told.
#[inline(never)]
fn tell<C: Context>(cx: C, path: &mut Vec<Step>, i: usize) {
    let s = match sym::pick(8) {
        0 => {
            cx.enter_struct("S");
            Struct("S")
        }
        1 => {
            cx.enter_enum("E");
            Enum("E")
        }
        2 => {
            cx.enter_variant("V", 3);
            Variant("V")
        }
        3 => {
            cx.enter_named_field("f", 1);
            Named("f")
        }
        4 => {
            cx.enter_unnamed_field(i as u32, "n");
            Unnamed(i as u32)
        }
        5 => {
            cx.enter_sequence_index(i);
            Index(i)
        }
        6 => {
            cx.enter_map_key(format_args!("k{i}"));
            Key(2, i as u8)
        }
        _ => {
            match path.pop() {
                None => {}
                Some(Struct(..)) => cx.leave_struct(),
                Some(Enum(..)) => cx.leave_enum(),
                Some(Variant(..)) => cx.leave_variant(),
                Some(Named(..) | Unnamed(..)) => cx.leave_field(),
                Some(Index(..)) => cx.leave_sequence_index(),
                Some(Key(..)) => cx.leave_map_key(),
            }
            return;
        }
    };
    path.push(s);
}

/// The report of a tracing context.
fn reported(types: bool, steps: usize) {
    let cx = context::new().with_trace();
    let cx = if types { cx.with_type() } else { cx };
    let cx = &cx;
    let mut path = Vec::new();
    // what was before does not matter
    tell(cx, &mut path, 7);
    cx.advance(5);
    if sym::bool() {
        let _ = cx.message("old");
    }
    cx.clear();
    path.clear();
    for i in 0..steps {
        tell(cx, &mut path, i);
    }
    cx.advance(2);
    let m = cx.mark();
    cx.advance(1);
    // what is entered and not left is forgotten when the mark is restored
    let more = sym::pick(3);
    if more > 0 {
        cx.enter_struct("T");
        cx.enter_named_field("g", 2);
    }
    if more > 1 {
        cx.enter_map_key("key");
        cx.leave_map_key();
        cx.enter_sequence_index(8);
    }
    let _ = cx.message_at(&m, "first");
    cx.restore(&m);
    let _ = cx.message("second");
    let p = render(&path, types, 0);
    let mut want = Text_::new();
    let mut got = Text_::new();
    for (i, e) in cx.errors().enumerate() {
        let _ = fmt::Write::write_fmt(&mut got, format_args!("{e}"));
        want.str(core::str::from_utf8(p.get()).unwrap());
        want.str([": first (at bytes 2-3)", ": second (at byte 2)"][i]);
    }
    same!(cx.errors().count(), 2);
    same!(got.get(), want.get());
    sym::observe_bytes(got.get());
    sym::cover(1);
}

/// With little memory the path may be cut short, but it's not another one.
fn capped(room: usize, steps: usize) {
    let mut mem = [0u128; 32];
    let mem = unsafe { core::slice::from_raw_parts_mut(mem.as_mut_ptr().cast::<u8>(), room) };
    let al = Slice::new(mem);
    let al = &al;
    let cx = context::new_in(al).with_trace();
    let cx = &cx;
    let mut path = Vec::new();
    let mut held: Option<<&Slice as Allocator>::Alloc<[u8; 40]>> = None;
    // room for the errors
    let _ = cx.message("x");
    if sym::bool() {
        tell(cx, &mut path, 8);
        tell(cx, &mut path, 9);
        cx.clear();
        path.clear();
    }
    for i in 0..steps {
        // others use the memory, too
        if sym::bool() {
            held = match held {
                None => al.alloc([0; 40]).ok(),
                Some(..) => None,
            };
        }
        tell(cx, &mut path, i);
    }
    let m = cx.mark();
    for _ in 0..sym::pick(3) {
        cx.enter_sequence_index(3);
    }
    cx.restore(&m);
    drop(held);
    let _ = cx.message("m");
    let mut any = 0;
    for e in cx.errors() {
        let mut got = Text_::new();
        let _ = fmt::Write::write_fmt(&mut got, format_args!("{e}"));
        let n = path.iter().filter(|s| !matches!(s, Struct(..) | Enum(..))).count();
        let path: Vec<Step> = path.iter().copied().filter(|s| !matches!(s, Struct(..) | Enum(..))).collect();
        let mut ok = false;
        for k in 0..=n {
            let mut want = render(&path[..k], false, n - k);
            want.str(if any == 0 && cx.errors().count() > 1 { ": x" } else { ": m" });
            let mut x = render(&path[..k], false, n - k);
            x.str(": x");
            if got.get() == want.get() || got.get() == x.get() {
                ok = true;
                if k < n {
                    sym::cover(1);
                } else {
                    sym::cover(2);
                }
            }
        }
        if !ok {
            panic!("the path is another one");
        }
        any += 1;
    }
}

macro_rules! input {
    ($f:ident, $n:expr) => {{
        let b = sym::bytes::<8>();
        let b = &b[..sym::pick($n + 1)];
        match sym::pick(6) {
            0 => input::<$f, u16>(b),
            1 => input::<$f, (bool, u8)>(b),
            2 => input::<$f, Vec<bool>>(b),
            3 => input::<$f, BTreeMap<u8, u8>>(b),
            4 => input::<$f, En>(b),
            _ => input::<$f, Option<String>>(b),
        }
    }};
}
#[derive(Decode, PartialEq)]
struct Tail {
    a: u8,
}

/// The characters of strings are counted, be they decoded, skipped or a key.
#[inline(never)]
fn strings(pieces: usize) {
    const PIECES: [&[u8]; 10] = [
        b"ab",
        "\u{e9}".as_bytes(),
        b"\\n",
        b"\\u00e9",
        "\u{20ac}".as_bytes(),
        b"\\ud83d\\ude00",
        "\u{1f600}".as_bytes(),
        b"\xe9",
        b"\x01",
        b"\\x",
    ];
    let mut b = Vec::new();
    let what = sym::pick(5);
    b.extend_from_slice(match what {
        0 => &b"[\""[..],
        1 => b"{\"",
        2 => b"{\"x\":\"",
        3 => b"\"",
        _ => b"{\"x\":{\"",
    });
    for _ in 0..pieces {
        b.extend_from_slice(PIECES[sym::pick(10)]);
    }
    match what {
        0 => b.extend_from_slice(b"\", \"c\"]"),
        1 => b.extend_from_slice(b"\" : 1}"),
        2 => b.extend_from_slice(b"\", \"a\": 1}"),
        3 => b.push(b'"'),
        _ => b.extend_from_slice(b"\":2},\"a\":1}"),
    }
    match sym::pick(4) {
        // cut off
        0 => b.truncate(b.len() - 1),
        1 => b.push(b' '),
        _ => {}
    }
    match what {
        0 => input::<J, Vec<String>>(&b),
        1 => input::<J, BTreeMap<String, u8>>(&b),
        3 => input::<J, String>(&b),
        _ => input::<J, Tail>(&b),
    }
}
crate::harnesses! {
    fn h_m23_strings_json() { strings(tier(2, 3)) }
    fn h_m23_located_storage() { located::<S>() }
    fn h_m23_located_wire() { located::<W>() }
    fn h_m23_located_descriptive() { located::<D>() }
    fn h_m23_located_json() { located::<J>() }
    fn h_m23_tried_descriptive() { tried::<D>(0) }
    fn h_m23_tried_json() { tried::<J>(11) }
    fn h_m23_report() { reported(false, tier(3, 4)) }
    fn h_m23_report_types() { reported(true, tier(3, 4)) }
    fn h_m23_capped_0() { capped(0, 2) }
    fn h_m23_capped_128() { capped(128, tier(2, 3)) }
    fn h_m23_capped_256() { capped(256, tier(2, 3)) }
    fn h_m23_input_storage() { input!(S, 5) }
    fn h_m23_input_wire() { input!(W, 4) }
    fn h_m23_input_descriptive() { input!(D, 4) }
    fn h_m23_input_json() { input!(J, 5) }
}
