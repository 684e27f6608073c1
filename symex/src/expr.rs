//! Hash-consed bit-vector expressions with light simplification, interval
//! information and evaluation under a concrete model.
use std::collections::HashMap;

pub type Eid = u32;
pub const NONE: Eid = u32::MAX;
pub const MAXVARS: usize = 256;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Var,
    Const,
    Undef,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Not,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub imm: u128,
    pub h: u128,
    pub umin: u128,
    pub umax: u128,
    pub vars: [u64; 4],
    pub taint: bool,
    /// Contains multiplication or division.
    pub hard: bool,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { 127 } else { b as u32 };
            (x >> s.min(127)) as u128
        }
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Slt => return (sext128(a, w) < sext128(b, w)) as u128,
        _ => unreachable!(),
    };
    r & m
}

fn mix(mut x: u128) -> u128 {
    x ^= x >> 67;
    x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
    x ^= x >> 61;
    x = x.wrapping_mul(0xC2B2_AE3D_27D4_EB4F_1656_67B1_9E37_79F9);
    x ^ (x >> 59)
}

/// A set of byte values.
pub type Bits = [u64; 4];

type Key = (Op, u16, Eid, Eid, Eid, u128);

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Key, Eid, FxBuild>,
    vals: Vec<u128>,
    epoch_of: Vec<u32>,
    epoch: u32,
    pub model: Vec<u8>,
    undef_ctr: u128,
    simps: HashMap<Eid, Eid, FxBuild>,
    tts: HashMap<Eid, (usize, Bits), FxBuild>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
pub type FxBuild = std::hash::BuildHasherDefault<Fx>;

impl Arena {
    /// For debugging.
    pub fn text(&self, e: Eid, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{:#x}", n.imm),
            Op::Var => format!("v{}", n.imm),
            _ if depth == 0 => "..".into(),
            _ => {
                let k: Vec<String> = [n.a, n.b, n.c].iter().filter(|x| **x != NONE).map(|x| self.text(*x, depth - 1)).collect();
                format!("{:?}{}[{}]({})", n.op, n.w, n.imm, k.join(", "))
            }
        }
    }
    pub fn new() -> Self {
        Arena {
            nodes: Vec::new(),
            map: HashMap::default(),
            vals: Vec::new(),
            epoch_of: Vec::new(),
            epoch: 1,
            model: Vec::new(),
            undef_ctr: 0,
            simps: HashMap::default(),
            tts: HashMap::default(),
        }
    }

    pub fn begin(&mut self, model: Vec<u8>) {
        self.model = model;
        self.epoch += 1;
        self.undef_ctr = 0;
    }

    #[inline]
    pub fn n(&self, e: Eid) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn konst(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }

    pub fn eval(&mut self, e: Eid) -> u128 {
        let i = e as usize;
        if self.epoch_of[i] == self.epoch {
            return self.vals[i];
        }
        // Explicit stack: expressions can be deep.
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            let xi = x as usize;
            if self.epoch_of[xi] == self.epoch {
                st.pop();
                continue;
            }
            let n = self.nodes[xi];
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != NONE && self.epoch_of[k as usize] != self.epoch {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |k: Eid| self.vals[k as usize];
            let v = match n.op {
                Op::Const => n.imm,
                Op::Undef => 0,
                Op::Var => self.model.get(n.imm as usize).copied().unwrap_or(0) as u128,
                Op::Not => g(n.a) ^ 1,
                Op::Concat => (g(n.a) << self.nodes[n.b as usize].w) | g(n.b),
                Op::Extract => (g(n.a) >> n.imm) & mask(n.w as u32),
                Op::ZExt => g(n.a),
                Op::SExt => {
                    sext128(g(n.a), self.nodes[n.a as usize].w as u32) as u128 & mask(n.w as u32)
                }
                Op::Ite => {
                    if g(n.a) != 0 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                op => fold(op, self.nodes[n.a as usize].w as u32, g(n.a), g(n.b)),
            };
            self.vals[xi] = v;
            self.epoch_of[xi] = self.epoch;
            st.pop();
        }
        self.vals[i]
    }

    fn mk(&mut self, op: Op, w: u32, a: Eid, b: Eid, c: Eid, imm: u128) -> Eid {
        let key = (op, w as u16, a, b, c, imm);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let mut vars = [0u64; 4];
        let mut taint = false;
        let mut hard = matches!(op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem);
        let mut h = mix((op as u128 + 1) * 0x1_0000_0001 + ((w as u128) << 64)).wrapping_add(mix(imm ^ 0x5555));
        for (i, k) in [a, b, c].into_iter().enumerate() {
            if k != NONE {
                let n = &self.nodes[k as usize];
                for j in 0..4 {
                    vars[j] |= n.vars[j];
                }
                taint |= n.taint;
                hard |= n.hard;
                h = mix(h ^ n.h.rotate_left(7 * (i as u32 + 1)));
            }
        }
        let m = mask(w);
        let (mut lo, mut hi) = (0u128, m);
        match op {
            Op::Var => {
                vars[(imm / 64) as usize] |= 1 << (imm % 64);
            }
            Op::Undef => taint = true,
            Op::Const => {
                lo = imm;
                hi = imm;
            }
            _ => {
                let r = |k: Eid| {
                    let n = &self.nodes[k as usize];
                    (n.umin, n.umax)
                };
                match op {
                    Op::ZExt => {
                        (lo, hi) = r(a);
                    }
                    Op::Concat => {
                        let wl = self.nodes[b as usize].w as u32;
                        let (x, y) = (r(a), r(b));
                        lo = (x.0 << wl) | y.0;
                        hi = (x.1 << wl) | y.1;
                    }
                    Op::Extract => {
                        let x = r(a);
                        if imm == 0 && x.1 <= m {
                            (lo, hi) = x;
                        } else if imm + w as u128 == self.nodes[a as usize].w as u128 {
                            lo = x.0 >> imm;
                            hi = x.1 >> imm;
                        } else if (x.1 >> imm) <= m {
                            lo = x.0 >> imm;
                            hi = x.1 >> imm;
                        }
                    }
                    Op::And => {
                        hi = r(a).1.min(r(b).1);
                    }
                    Op::Or | Op::Xor => {
                        let t = r(a).1 | r(b).1;
                        let bits = 128 - t.leading_zeros();
                        hi = mask(bits).min(m);
                        if op == Op::Or {
                            lo = r(a).0.max(r(b).0);
                        }
                    }
                    Op::Add => {
                        let (x, y) = (r(a), r(b));
                        if let Some(s) = x.1.checked_add(y.1) {
                            if s <= m {
                                lo = x.0 + y.0;
                                hi = s;
                            }
                        }
                        // adding a "negative" constant
                        if let Some(k) = (y.0 == y.1).then_some(y.0) {
                            let neg = (m - k).wrapping_add(1) & m;
                            if neg != 0 && x.0 >= neg && hi == m {
                                lo = x.0 - neg;
                                hi = x.1 - neg;
                            }
                        }
                    }
                    Op::Sub => {
                        let (x, y) = (r(a), r(b));
                        if x.0 >= y.1 {
                            lo = x.0 - y.1;
                            hi = x.1 - y.0;
                        }
                    }
                    Op::Mul => {
                        let (x, y) = (r(a), r(b));
                        if let Some(s) = x.1.checked_mul(y.1) {
                            if s <= m {
                                lo = x.0 * y.0;
                                hi = s;
                            }
                        }
                    }
                    Op::UDiv => {
                        let (x, y) = (r(a), r(b));
                        if y.0 > 0 {
                            hi = x.1 / y.0;
                            lo = x.0 / y.1;
                        }
                    }
                    Op::URem => {
                        let (x, y) = (r(a), r(b));
                        if y.0 > 0 {
                            hi = x.1.min(y.1 - 1);
                        }
                    }
                    Op::LShr => {
                        hi = r(a).1;
                    }
                    Op::Ite => {
                        let (x, y) = (r(b), r(c));
                        lo = x.0.min(y.0);
                        hi = x.1.max(y.1);
                    }
                    _ => {}
                }
            }
        }
        if taint {
            lo = 0;
            hi = m;
        }
        let id = self.nodes.len() as Eid;
        self.nodes.push(Node {
            op,
            w: w as u16,
            a,
            b,
            c,
            imm,
            h,
            umin: lo,
            umax: hi,
            vars,
            taint,
            hard,
        });
        self.vals.push(0);
        self.epoch_of.push(0);
        self.map.insert(key, id);
        if lo == hi && op != Op::Const && !taint {
            let k = self.c(lo, w);
            self.map.insert(key, k);
            return k;
        }
        id
    }

    /// The only input byte of an expression.
    pub fn unary(&self, e: Eid) -> Option<usize> {
        let n = &self.nodes[e as usize];
        if n.taint {
            return None;
        }
        let mut r = None;
        for j in 0..4 {
            if n.vars[j] != 0 {
                if r.is_some() || n.vars[j] & (n.vars[j] - 1) != 0 {
                    return None;
                }
                r = Some(j * 64 + n.vars[j].trailing_zeros() as usize);
            }
        }
        r
    }

    /// The values of the input byte for which a condition over it holds.
    pub fn tt(&mut self, c: Eid) -> Option<(usize, Bits)> {
        if let Some(&r) = self.tts.get(&c) {
            return Some(r);
        }
        let i = self.unary(c)?;
        let mut t = [0u64; 4];
        for (k, x) in Prog::new(self, c, 60000)?.run(&[i]).enumerate() {
            if x != 0 {
                t[k >> 6] |= 1 << (k & 63);
            }
        }
        self.tts.insert(c, (i, t));
        Some((i, t))
    }

    /// The values of an expression over one input byte, by its value.
    pub fn values(&self, e: Eid, i: usize) -> Option<Vec<u128>> {
        Some(Prog::new(self, e, 60000)?.run(&[i]).collect())
    }

    /// An equivalent of a condition over at most two input bytes that
    /// contains arithmetic which bit-blasts badly: the union of the intervals
    /// where it holds.
    pub fn simp(&mut self, c: Eid) -> Eid {
        let n = self.nodes[c as usize];
        if !n.hard || n.taint || n.w != 1 {
            return c;
        }
        let mut vs: Vec<usize> = vec![];
        for j in 0..4 {
            let mut b = n.vars[j];
            while b != 0 {
                if vs.len() == 2 {
                    return c;
                }
                vs.push(j * 64 + b.trailing_zeros() as usize);
                b &= b - 1;
            }
        }
        if vs.is_empty() {
            return c;
        }
        if let Some(&r) = self.simps.get(&c) {
            return r;
        }
        let r = match Prog::new(self, c, if vs.len() == 2 { 300 } else { 60000 }) {
            Some(p) => {
                let truth = p.run(&vs).map(|x| x != 0).collect();
                self.intervals(&vs, truth).unwrap_or(c)
            }
            None => c,
        };
        self.simps.insert(c, r);
        r
    }

    fn intervals(&mut self, vs: &[usize], truth: Vec<bool>) -> Option<Eid> {
        let total = truth.len();
        let w = 8 * vs.len() as u32;
        for swap in 0..vs.len() {
            let f = |t: usize| if swap == 1 { truth[(t >> 8) | (t & 255) << 8] } else { truth[t] };
            let mut runs: Vec<(usize, usize)> = vec![];
            for t in 0..total {
                if f(t) {
                    match runs.last_mut() {
                        Some(r) if r.1 + 1 == t => r.1 = t,
                        _ => runs.push((t, t)),
                    }
                }
                if runs.len() > 130 {
                    break;
                }
            }
            if runs.len() > 128 {
                continue;
            }
            let mut x = self.var(vs[0]);
            if vs.len() == 2 {
                let y = self.var(vs[1]);
                x = if swap == 1 { self.concat(x, y) } else { self.concat(y, x) };
            }
            let mut r = self.c(0, 1);
            for (lo, hi) in runs {
                let k = self.c(lo as u128, w);
                let d = self.bin(Op::Sub, x, k);
                let l = self.c((hi - lo) as u128, w);
                let gt = self.ult(l, d);
                let le = self.not(gt);
                r = self.bin(Op::Or, r, le);
            }
            return Some(r);
        }
        None
    }

    pub fn c(&mut self, v: u128, w: u32) -> Eid {
        debug_assert!(v <= mask(w));
        self.mk(Op::Const, w, NONE, NONE, NONE, v & mask(w))
    }
    pub fn var(&mut self, i: usize) -> Eid {
        assert!(i < MAXVARS, "too many symbolic bytes");
        self.mk(Op::Var, 8, NONE, NONE, NONE, i as u128)
    }
    pub fn undef(&mut self, w: u32) -> Eid {
        self.undef_ctr += 1;
        let i = self.undef_ctr;
        self.mk(Op::Undef, w, NONE, NONE, NONE, i)
    }

    pub fn not(&mut self, a: Eid) -> Eid {
        debug_assert!(self.w(a) == 1);
        if let Some(k) = self.konst(a) {
            return self.c(k ^ 1, 1);
        }
        let n = *self.n(a);
        if n.op == Op::Not {
            return n.a;
        }
        self.mk(Op::Not, 1, a, NONE, NONE, 0)
    }

    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => self.c(n.imm, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Op::ZExt, w, a, NONE, NONE, 0),
        }
    }

    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = *self.n(a);
        if let Op::Const = n.op {
            return self.c(sext128(n.imm, wa) as u128 & mask(w), w);
        }
        if n.umax < (1u128 << (wa - 1)) && !n.taint {
            return self.zext(a, w);
        }
        if wa == 1 {
            let x = self.c(mask(w), w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, a, NONE, NONE, 0)
    }

    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {lo}+{w} of {wa}");
        if lo == 0 && w == wa {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.c((n.imm >> lo) & mask(w), w),
            Op::Extract => return self.extract(n.a, n.imm as u32 + lo, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo >= wi {
                    return self.c(0, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let x = self.extract(n.a, lo, wi - lo);
                    return self.sext(x, w);
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                // constants or cheap arms
                if self.konst(n.b).is_some() || self.konst(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Undef => return self.undef(w),
            _ => {}
        }
        if !n.taint && lo < 128 && (n.umax >> lo) == 0 {
            return self.c(0, w);
        }
        self.mk(Op::Extract, w, a, NONE, NONE, lo as u128)
    }

    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.c((nh.imm << wl) | nl.imm, w);
        }
        if nh.op == Op::Const && nh.imm == 0 {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.imm + wl as u128 == nh.imm {
            return self.extract(nh.a, nl.imm as u32, w);
        }
        if nh.op == Op::Concat {
            let inner = self.concat(nh.b, lo);
            return self.concat(nh.a, inner);
        }
        if nh.op == Op::ZExt {
            let pad = wh - self.w(nh.a);
            let inner = self.concat(nh.a, lo);
            let z = self.c(0, pad);
            return self.concat(z, inner);
        }
        if nl.op == Op::Concat {
            // merge hi with the top part of lo when adjacent
            let nt = *self.n(nl.a);
            if nh.op == Op::Extract && nt.op == Op::Extract && nh.a == nt.a && nt.imm + nt.w as u128 == nh.imm {
                let t = self.extract(nh.a, nt.imm as u32, wh + nt.w as u32);
                return self.concat(t, nl.b);
            }
            if nh.op == Op::Const && nt.op == Op::Const {
                let t = self.c((nh.imm << nt.w) | nt.imm, wh + nt.w as u32);
                return self.concat(t, nl.b);
            }
        }
        self.mk(Op::Concat, w, hi, lo, NONE, 0)
    }

    /// Decompose into (lo, width, expr) segments, None being zero bits.
    fn parts(&mut self, e: Eid, base: u32, out: &mut Vec<(u32, u32, Option<Eid>)>) {
        let n = *self.n(e);
        match n.op {
            Op::Concat => {
                self.parts(n.b, base, out);
                let wl = self.w(n.b);
                self.parts(n.a, base + wl, out);
            }
            Op::ZExt => {
                self.parts(n.a, base, out);
                let wi = self.w(n.a);
                out.push((base + wi, n.w as u32 - wi, None));
            }
            Op::Const if n.imm == 0 => out.push((base, n.w as u32, None)),
            Op::Const => {
                // split into zero and non-zero runs
                let w = n.w as u32;
                let mut i = 0;
                while i < w {
                    let z = (n.imm >> i) & 1 == 0;
                    let mut j = i;
                    while j < w && (((n.imm >> j) & 1 == 0) == z) {
                        j += 1;
                    }
                    if z {
                        out.push((base + i, j - i, None));
                    } else {
                        let k = self.c((n.imm >> i) & mask(j - i), j - i);
                        out.push((base + i, j - i, Some(k)));
                    }
                    i = j;
                }
            }
            _ => out.push((base, n.w as u32, Some(e))),
        }
    }

    fn or_parts(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let (mut pa, mut pb) = (vec![], vec![]);
        self.parts(a, 0, &mut pa);
        self.parts(b, 0, &mut pb);
        if pa.len() == 1 && pb.len() == 1 {
            return None;
        }
        let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).flat_map(|p| [p.0, p.0 + p.1]).collect();
        cuts.sort();
        cuts.dedup();
        let mut acc: Option<Eid> = None;
        let mut segs = vec![];
        let (mut i, mut j) = (0, 0);
        for win in cuts.windows(2) {
            let (l, h) = (win[0], win[1]);
            while pa[i].0 + pa[i].1 <= l {
                i += 1;
            }
            while pb[j].0 + pb[j].1 <= l {
                j += 1;
            }
            match (pa[i].2, pb[j].2) {
                (None, None) => segs.push((h - l, None)),
                (Some(x), None) => segs.push((h - l, Some((x, l - pa[i].0)))),
                (None, Some(y)) => segs.push((h - l, Some((y, l - pb[j].0)))),
                _ => return None,
            }
        }
        for (w, s) in segs {
            let e = match s {
                None => self.c(0, w),
                Some((x, lo)) => self.extract(x, lo, w),
            };
            acc = Some(match acc {
                None => e,
                Some(l) => self.concat(e, l),
            });
        }
        acc
    }

    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if a == b {
            return a;
        }
        if let Some(k) = self.konst(c) {
            return if k != 0 { a } else { b };
        }
        let n = *self.n(c);
        if n.op == Op::Not {
            return self.ite(n.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let na = *self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = *self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b && !self.n(a).taint {
            return self.c(1, 1);
        }
        let w = self.w(a);
        let (mut na, mut nb) = (*self.n(a), *self.n(b));
        let (mut a, mut b) = (a, b);
        if na.op == Op::Const {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut na, &mut nb);
        }
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((na.imm == nb.imm) as u128, 1);
        }
        if (na.umax < nb.umin || nb.umax < na.umin) && !na.taint && !nb.taint {
            return self.c(0, 1);
        }
        if nb.op == Op::Const {
            let k = nb.imm;
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if k > mask(wi) {
                        return self.c(0, 1);
                    }
                    let kk = self.c(k, wi);
                    return self.eq(na.a, kk);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let low = k & mask(wi);
                    if sext128(low, wi) as u128 & mask(w) != k {
                        return self.c(0, 1);
                    }
                    let kk = self.c(low, wi);
                    return self.eq(na.a, kk);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let (kh, kl) = (k >> wl, k & mask(wl));
                    let ch = self.c(kh, w - wl);
                    let cl = self.c(kl, wl);
                    let x = self.eq(na.a, ch);
                    let y = self.eq(na.b, cl);
                    return self.bin(Op::And, x, y);
                }
                Op::Add => {
                    if let Some(k2) = self.konst(na.b) {
                        let kk = self.c(k.wrapping_sub(k2) & mask(w), w);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.konst(na.b) {
                        let kk = self.c(k ^ k2, w);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Sub if k == 0 => return self.eq(na.a, na.b),
                Op::Or => {
                    if k == 0 {
                        let z = self.c(0, w);
                        let x = self.eq(na.a, z);
                        let y = self.eq(na.b, z);
                        return self.bin(Op::And, x, y);
                    }
                    if let Some(k2) = self.konst(na.b) {
                        if k2 & !k != 0 {
                            return self.c(0, 1);
                        }
                    }
                }
                Op::Ite => match (self.konst(na.b), self.konst(na.c)) {
                    (Some(x), Some(y)) => {
                        return match (x == k, y == k) {
                            (true, true) => self.c(1, 1),
                            (true, false) => na.a,
                            (false, true) => self.not(na.a),
                            _ => self.c(0, 1),
                        }
                    }
                    (Some(x), None) if x != k => {
                        let n2 = self.not(na.a);
                        let r = self.eq(na.c, b);
                        return self.bin(Op::And, n2, r);
                    }
                    (None, Some(y)) if y != k => {
                        let r = self.eq(na.b, b);
                        return self.bin(Op::And, na.a, r);
                    }
                    (Some(_), None) => {
                        let r = self.eq(na.c, b);
                        return self.bin(Op::Or, na.a, r);
                    }
                    (None, Some(_)) => {
                        let n2 = self.not(na.a);
                        let r = self.eq(na.b, b);
                        return self.bin(Op::Or, n2, r);
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
            let x = self.eq(na.a, nb.a);
            let y = self.eq(na.b, nb.b);
            return self.bin(Op::And, x, y);
        }
        if self.n(a).h > self.n(b).h {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Eq, 1, a, b, NONE, 0)
    }

    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((na.imm < nb.imm) as u128, 1);
        }
        if !na.taint && !nb.taint {
            if a == b || na.umin >= nb.umax {
                return self.c(0, 1);
            }
            if na.umax < nb.umin {
                return self.c(1, 1);
            }
        }
        if let Some(k) = self.konst(b) {
            if k == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if na.op == Op::ZExt {
                let wi = self.w(na.a);
                if k <= mask(wi) {
                    let kk = self.c(k, wi);
                    return self.ult(na.a, kk);
                }
            }
        }
        if let Some(k) = self.konst(a) {
            if k == 0 {
                let z = self.c(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            if nb.op == Op::ZExt {
                let wi = self.w(nb.a);
                if k <= mask(wi) {
                    let kk = self.c(k, wi);
                    return self.ult(kk, nb.a);
                }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.mk(Op::Ult, 1, a, b, NONE, 0)
    }

    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c((sext128(na.imm, w) < sext128(nb.imm, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        if !na.taint && !nb.taint {
            let an = na.umax < half;
            let bn = nb.umax < half;
            let am = na.umin >= half;
            let bm = nb.umin >= half;
            if (an && bn) || (am && bm) {
                return self.ult(a, b);
            }
            if am && bn {
                return self.c(1, 1);
            }
            if an && bm {
                return self.c(0, 1);
            }
        }
        // x < 0  <=> top bit
        if nb.op == Op::Const && nb.imm == 0 {
            return self.extract(a, w - 1, 1);
        }
        if na.op == Op::Const && na.imm == mask(w) {
            let t = self.extract(b, w - 1, 1);
            return self.not(t);
        }
        self.mk(Op::Slt, 1, a, b, NONE, 0)
    }

    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        match op {
            Op::Eq => return self.eq(a, b),
            Op::Ult => return self.ult(a, b),
            Op::Slt => return self.slt(a, b),
            _ => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let (mut a, mut b) = (a, b);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            return self.c(fold(op, w, x, y), w);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (self.konst(a).is_some() || (self.n(a).h > self.n(b).h && self.konst(b).is_none())) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        let kb = self.konst(b);
        let m = mask(w);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.konst(na.b) {
                            let kk = self.c(k.wrapping_add(k2) & m, w);
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    // Keep additions of constants outermost narrow: (zext x) + k stays.
                } else if na.op == Op::Add && self.konst(na.b).is_some() {
                    let t = self.bin(Op::Add, na.a, b);
                    return self.bin(Op::Add, t, na.b);
                } else if nb.op == Op::Add && self.konst(nb.b).is_some() {
                    let t = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, t, nb.b);
                }
            }
            Op::Sub => {
                if a == b && !na.taint {
                    return self.c(0, w);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if self.konst(a) == Some(0) && nb.umax == 1 {
                    let bit = self.extract(b, 0, 1);
                    return self.sext(bit, w);
                }
                if let Some(k) = kb {
                    let kk = self.c((0u128.wrapping_sub(k)) & m, w);
                    return self.bin(Op::Add, a, kk);
                }
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                if na.op == Op::Add && self.konst(na.b).is_some() {
                    let t = self.bin(Op::Sub, na.a, b);
                    return self.bin(Op::Add, t, na.b);
                }
                if nb.op == Op::Add {
                    if let Some(k) = self.konst(nb.b) {
                        let t = self.bin(Op::Sub, a, nb.a);
                        let kk = self.c((0u128.wrapping_sub(k)) & m, w);
                        return self.bin(Op::Add, t, kk);
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if na.umax < k && !na.taint {
                        return self.c(0, w);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if na.umax < k && !na.taint {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // contiguous mask
                    let tz = k.trailing_zeros();
                    let run = (!(k >> tz)).trailing_zeros();
                    if k >> tz == mask(run) {
                        let mid = self.extract(a, tz, run);
                        let mut r = mid;
                        if tz > 0 {
                            let z = self.c(0, tz);
                            r = self.concat(mid, z);
                        }
                        return self.zext(r, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.konst(na.b) {
                            let kk = self.c(k & k2, w);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if matches!(na.op, Op::Concat | Op::ZExt) {
                        let wl = if na.op == Op::ZExt { self.w(na.a) } else { self.w(na.b) };
                        let lo = self.extract(a, 0, wl);
                        let hi = self.extract(a, wl, w - wl);
                        let kl = self.c(k & mask(wl), wl);
                        let kh = self.c(k >> wl, w - wl);
                        let x = self.bin(Op::And, lo, kl);
                        let y = self.bin(Op::And, hi, kh);
                        return self.concat(y, x);
                    }
                }
                if w == 1 {
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.c(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.c(1, 1);
                    }
                } else if let Some(r) = self.or_parts(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b && !na.taint {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.konst(na.b) {
                            let kk = self.c(k ^ k2, w);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if matches!(na.op, Op::Concat | Op::ZExt) {
                        let wl = if na.op == Op::ZExt { self.w(na.a) } else { self.w(na.b) };
                        let lo = self.extract(a, 0, wl);
                        let hi = self.extract(a, wl, w - wl);
                        let kl = self.c(k & mask(wl), wl);
                        let kh = self.c(k >> wl, w - wl);
                        let x = self.bin(Op::Xor, lo, kl);
                        let y = self.bin(Op::Xor, hi, kh);
                        return self.concat(y, x);
                    }
                } else if w > 1 {
                    if let Some(r) = self.or_parts(a, b) {
                        return r;
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128) as u32;
                    match op {
                        Op::Shl => {
                            if k >= w {
                                return self.c(0, w);
                            }
                            let x = self.extract(a, 0, w - k);
                            let z = self.c(0, k);
                            return self.concat(x, z);
                        }
                        Op::LShr => {
                            if k >= w {
                                return self.c(0, w);
                            }
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                        _ => {
                            let k = k.min(w - 1);
                            let x = self.extract(a, k, w - k);
                            return self.sext(x, w);
                        }
                    }
                }
                if self.konst(a) == Some(0) {
                    return a;
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, NONE, 0)
    }
}

impl Arena {
    /// Switch the evaluation model without resetting the undef counter.
    pub fn begin_eval(&mut self, model: Vec<u8>) {
        self.model = model;
        self.epoch += 1;
    }
}

/// An expression flattened for evaluation on every value of one or two bytes.
struct Prog(Vec<PStep>);
#[derive(Clone, Copy)]
struct PStep {
    op: Op,
    w: u32,
    wa: u32,
    a: usize,
    b: usize,
    c: usize,
    imm: u128,
}
impl Prog {
    fn new(ar: &Arena, c: Eid, max: usize) -> Option<Prog> {
        let mut ord: Vec<Eid> = vec![];
        let mut idx: HashMap<Eid, usize, FxBuild> = HashMap::default();
        let mut st = vec![(c, false)];
        while let Some((e, done)) = st.pop() {
            if idx.contains_key(&e) {
                continue;
            }
            let n = &ar.nodes[e as usize];
            if done {
                idx.insert(e, ord.len());
                ord.push(e);
                if ord.len() > max {
                    return None;
                }
                continue;
            }
            st.push((e, true));
            for k in [n.a, n.b, n.c] {
                if k != NONE && !idx.contains_key(&k) {
                    st.push((k, false));
                }
            }
        }
        let at = |k: Eid| if k == NONE { 0 } else { idx[&k] };
        Some(Prog(
            ord.iter()
                .map(|&e| {
                    let n = &ar.nodes[e as usize];
                    PStep {
                        op: n.op,
                        w: n.w as u32,
                        wa: match n.op {
                            Op::Concat => ar.nodes[n.b as usize].w as u32,
                            Op::Const | Op::Var | Op::Undef => 0,
                            _ => ar.nodes[n.a as usize].w as u32,
                        },
                        a: at(n.a),
                        b: at(n.b),
                        c: at(n.c),
                        imm: n.imm,
                    }
                })
                .collect(),
        ))
    }

    fn run<'a>(&'a self, vs: &'a [usize]) -> impl Iterator<Item = u128> + 'a {
        let ss = &self.0;
        let mut vals = vec![0u128; ss.len()];
        (0..1usize << (8 * vs.len())).map(move |t| {
            for i in 0..ss.len() {
                let n = ss[i];
                vals[i] = match n.op {
                    Op::Const => n.imm,
                    Op::Undef => 0,
                    Op::Var => {
                        if n.imm as usize == vs[0] {
                            (t & 255) as u128
                        } else {
                            (t >> 8) as u128
                        }
                    }
                    Op::Not => vals[n.a] ^ 1,
                    Op::Concat => (vals[n.a] << n.wa) | vals[n.b],
                    Op::Extract => (vals[n.a] >> n.imm) & mask(n.w),
                    Op::ZExt => vals[n.a],
                    Op::SExt => sext128(vals[n.a], n.wa) as u128 & mask(n.w),
                    Op::Ite => {
                        if vals[n.a] != 0 {
                            vals[n.b]
                        } else {
                            vals[n.c]
                        }
                    }
                    op => fold(op, n.wa, vals[n.a], vals[n.b]),
                };
            }
            vals[ss.len() - 1]
        })
    }
}
