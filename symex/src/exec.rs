//! Path-wise symbolic execution (generational, model-driven).
use crate::expr::{mask, sext128, Arena, Bits, Eid, FxBuild, Op};
use crate::ir::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const UNINIT: u32 = u32::MAX - 1;
pub const CONC: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum End {
    Ok,
    Assume,
    Known(u32),
    Violation(String, String),
    Abort(String),
}
type R<T> = Result<T, End>;

fn viol<T>(kind: &str, msg: impl Into<String>) -> R<T> {
    Err(End::Violation(kind.into(), msg.into()))
}
fn abort<T>(msg: impl Into<String>) -> R<T> {
    Err(End::Abort(msg.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Stack,
    Heap,
    Const,
    Global,
}

struct Obj {
    base: u64,
    size: u64,
    /// The size if it is symbolic, at most `size`.
    len: Option<Eid>,
    align: u64,
    kind: Kind,
    alive: bool,
    conc: Arc<Vec<u8>>,
    sym: Option<Vec<u32>>,
}

pub struct Shared {
    pub cache: Vec<Mutex<HashMap<u128, Arc<Cached>>>>,
    pub q_total: AtomicU64,
    pub q_cached: AtomicU64,
    pub q_domain: AtomicU64,
    /// Solver time by source location.
    pub prof: Mutex<HashMap<u32, (u64, u64)>>,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub solver_us: AtomicU64,
}

pub enum Cached {
    Unsat,
    Sat(Vec<(usize, u8)>),
    Unknown,
}

impl Shared {
    pub fn new() -> Self {
        Shared {
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            q_total: AtomicU64::new(0),
            q_cached: AtomicU64::new(0),
            q_domain: AtomicU64::new(0),
            prof: Mutex::new(HashMap::new()),
            q_sat: AtomicU64::new(0),
            q_unsat: AtomicU64::new(0),
            q_unknown: AtomicU64::new(0),
            solver_us: AtomicU64::new(0),
        }
    }
}

pub struct Limits {
    pub prof: bool,
    pub insts: u64,
    pub enumerate: usize,
    pub ite: u64,
    pub heap: u64,
}

#[derive(Clone)]
pub struct Item {
    pub harness: usize,
    pub model: Arc<Vec<u8>>,
    pub bound: u32,
}

struct Frame {
    f: Arc<Func>,
    fid: usize,
    slots: Vec<Val>,
    bb: u32,
    ip: usize,
    ret: u32,
    allocas: Vec<u64>,
    dbg: u32,
}

pub struct PathOut {
    pub end: End,
    pub children: Vec<(Arc<Vec<u8>>, u32)>,
    pub insts: u64,
    pub branches: u32,
    pub covers: Vec<u32>,
    pub trace: u64,
    pub nbytes: usize,
    pub unknown: u64,
    pub stack: Vec<(String, u32)>,
    pub model: Vec<u8>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub z3: Solver,
    pub sh: &'m Shared,
    pub lim: &'m Limits,
    objs: HashMap<u64, Obj, FxBuild>,
    next_oid: u64,
    frames: Vec<Frame>,
    pc: Vec<Eid>,
    pcset: HashSet<Eid>,
    dom: Vec<Bits>,
    rel: Bits,
    bound: u32,
    depth: u32,
    children: Vec<(Arc<Vec<u8>>, u32)>,
    nsym: usize,
    insts: u64,
    covers: Vec<u32>,
    trace: u64,
    unknown: u64,
    pub seen_dbg: HashSet<u32, FxBuild>,
    pub seen_fn: HashSet<usize, FxBuild>,
    special: Vec<u8>,
    /// What was stored as these bytes.
    whole: HashMap<u64, Eid>,
}

const SP_NONE: u8 = 0;
const SP_PANIC: u8 = 1;
const SP_BUILTIN: u8 = 2;
const SP_UNKNOWN: u8 = 3;

fn classify(n: &str) -> u8 {
    if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") {
        return SP_PANIC;
    }
    if n.contains("5alloc18handle_alloc_error") || n.contains("rust_alloc_error") {
        return SP_PANIC;
    }
    match n {
        "sym_bytes" | "sym_assume" | "sym_cover" | "sym_observe" | "sym_known" | "sym_alloc" | "sym_dealloc"
        | "sym_realloc" | "sym_check_init" | "sym_concrete" | "bcmp" | "memcmp" | "memcpy" | "memmove" | "memset"
        | "abort" | "malloc" | "free" | "strlen" | "sym_live" => SP_BUILTIN,
        _ => SP_NONE,
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, z3: Solver, sh: &'m Shared, lim: &'m Limits) -> Self {
        let special = m
            .funcs
            .iter()
            .map(|f| {
                let s = classify(&f.name);
                if s == SP_NONE && f.body.is_none() {
                    SP_UNKNOWN
                } else {
                    s
                }
            })
            .collect();
        Exec {
            m,
            ar: Arena::new(),
            z3,
            sh,
            lim,
            objs: HashMap::default(),
            next_oid: 0,
            frames: vec![],
            pc: vec![],
            pcset: HashSet::new(),
            dom: vec![],
            rel: [0; 4],
            bound: 0,
            depth: 0,
            children: vec![],
            nsym: 0,
            insts: 0,
            covers: vec![],
            trace: 0,
            unknown: 0,
            seen_dbg: HashSet::default(),
            seen_fn: HashSet::default(),
            special,
            whole: HashMap::new(),
        }
    }

    pub fn run(&mut self, entry: usize, model: Vec<u8>, bound: u32) -> PathOut {
        if self.ar.nodes.len() > 3_000_000 {
            self.ar = Arena::new();
            self.z3.reset_cache();
        }
        self.ar.begin(model);
        self.objs.clear();
        self.whole.clear();
        self.next_oid = self.m.by_oid.len() as u64 + 16;
        self.frames.clear();
        self.pc.clear();
        self.pcset.clear();
        self.dom.clear();
        self.rel = [0; 4];
        self.bound = bound;
        self.depth = 0;
        self.children.clear();
        self.nsym = 0;
        self.insts = 0;
        self.covers.clear();
        self.trace = 0xcbf2_9ce4_8422_2325;
        self.unknown = 0;
        let end = match self.go(entry) {
            Ok(()) => End::Ok,
            Err(e) => e,
        };
        let mut stack = vec![];
        if !matches!(end, End::Ok | End::Assume) {
            for f in self.frames.iter().rev() {
                stack.push((self.m.funcs[f.fid].name.clone(), f.dbg));
            }
        }
        let mut model = self.ar.model.clone();
        model.resize(self.nsym, 0);
        PathOut {
            end,
            children: std::mem::take(&mut self.children),
            insts: self.insts,
            branches: self.depth,
            covers: self.covers.clone(),
            trace: self.trace,
            nbytes: self.nsym,
            unknown: self.unknown,
            stack,
            model,
        }
    }

    // ----- solver -----

    fn query(&mut self, cond: Eid, extra: &[Eid]) -> Option<Vec<u8>> {
        let n = *self.ar.n(cond);
        if let Op::Const = n.op {
            if n.imm == 0 {
                return None;
            }
        }
        let mut vars = n.vars;
        for e in extra {
            let v = self.ar.n(*e).vars;
            for j in 0..4 {
                vars[j] |= v[j];
            }
        }
        let mut used = vec![false; self.pc.len()];
        let mut cs = vec![cond];
        cs.extend_from_slice(extra);
        loop {
            let mut ch = false;
            for (i, &p) in self.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let v = self.ar.n(p).vars;
                if (0..4).any(|j| v[j] & vars[j] != 0) {
                    used[i] = true;
                    for j in 0..4 {
                        vars[j] |= v[j];
                    }
                    cs.push(p);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        self.sh.q_total.fetch_add(1, Ordering::Relaxed);
        let mut hs: Vec<u128> = cs.iter().map(|&c| self.ar.n(c).h).collect();
        hs.sort();
        hs.dedup();
        let mut key = 0u128;
        for h in &hs {
            key = key.rotate_left(29).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835) ^ h;
        }
        let shard = &self.sh.cache[(key % 64) as usize];
        let hit = shard.lock().unwrap().get(&key).cloned();
        let r = match hit {
            Some(r) => {
                self.sh.q_cached.fetch_add(1, Ordering::Relaxed);
                r
            }
            None => {
                let vl: Vec<usize> = (0..256).filter(|i| vars[i / 64] >> (i % 64) & 1 == 1).collect();
                let t = std::time::Instant::now();
                let r = match self.z3.check(&self.ar, &cs, &vl) {
                    Res::Unsat => {
                        self.sh.q_unsat.fetch_add(1, Ordering::Relaxed);
                        Cached::Unsat
                    }
                    Res::Sat(v) => {
                        self.sh.q_sat.fetch_add(1, Ordering::Relaxed);
                        Cached::Sat(v)
                    }
                    Res::Unknown => {
                        self.sh.q_unknown.fetch_add(1, Ordering::Relaxed);
                        Cached::Unknown
                    }
                };
                let us = t.elapsed().as_micros() as u64;
                self.sh.solver_us.fetch_add(us, Ordering::Relaxed);
                if self.lim.prof {
                    if std::env::var_os("SYMEX_DUMP").is_some() {
                        eprintln!("Q {}", self.ar.text(cond, 8));
                        if std::env::var_os("SYMEX_DUMP").unwrap() == "pc" {
                            for &p in &self.pc {
                                eprintln!("  pc {}", self.ar.text(p, 6));
                            }
                        }
                    }
                    let d = self.frames.last().map(|f| f.dbg).unwrap_or(0);
                    let mut p = self.sh.prof.lock().unwrap();
                    let e = p.entry(d).or_insert((0, 0));
                    e.0 += 1;
                    e.1 += us;
                }
                let r = Arc::new(r);
                shard.lock().unwrap().insert(key, r.clone());
                r
            }
        };
        match &*r {
            Cached::Unsat => None,
            Cached::Unknown => {
                self.unknown += 1;
                None
            }
            Cached::Sat(v) => {
                let mut m = self.ar.model.clone();
                for &(i, b) in v {
                    if m.len() <= i {
                        m.resize(i + 1, 0);
                    }
                    m[i] = b;
                }
                Some(m)
            }
        }
    }

    fn push_pc(&mut self, c: Eid) {
        if self.ar.konst(c).is_none() && self.pcset.insert(c) {
            let n = *self.ar.n(c);
            if n.op == Op::And {
                self.push_pc(n.a);
                return self.push_pc(n.b);
            }
            if n.op == Op::Not && self.ar.n(n.a).op == Op::Or {
                let o = *self.ar.n(n.a);
                for x in [o.a, o.b] {
                    let x = self.ar.not(x);
                    self.push_pc(x);
                }
                return;
            }
            self.pc.push(c);
            match self.ar.tt(c) {
                Some((i, t)) => {
                    let d = self.dom_mut(i);
                    for j in 0..4 {
                        d[j] &= t[j];
                    }
                }
                None => {
                    let v = self.ar.n(c).vars;
                    for j in 0..4 {
                        self.rel[j] |= v[j];
                    }
                }
            }
        }
    }

    /// The values an input byte has left, judging by the conditions on the
    /// path that involve no other byte.
    fn dom_mut(&mut self, i: usize) -> &mut Bits {
        if self.dom.len() <= i {
            self.dom.resize(i + 1, [!0; 4]);
        }
        &mut self.dom[i]
    }

    fn related(&self, i: usize) -> bool {
        self.rel[i / 64] >> (i % 64) & 1 == 1
    }

    /// What the byte domains say about a condition, and the values for which
    /// it holds and does not hold.
    fn domain(&mut self, c: Eid) -> Option<(usize, Bits, Bits)> {
        let (i, t) = self.ar.tt(c)?;
        let d = *self.dom_mut(i);
        let mut y = [0; 4];
        let mut n = [0; 4];
        for j in 0..4 {
            y[j] = d[j] & t[j];
            n[j] = d[j] & !t[j];
        }
        Some((i, y, n))
    }

    /// Does the path fix every input byte that this depends on?
    fn pinned(&mut self, c: Eid) -> bool {
        let v = self.ar.n(c).vars;
        for j in 0..4 {
            let mut m = v[j];
            while m != 0 {
                let i = j * 64 + m.trailing_zeros() as usize;
                m &= m - 1;
                let d = *self.dom_mut(i);
                if d.iter().map(|x| x.count_ones()).sum::<u32>() != 1 {
                    return false;
                }
            }
        }
        true
    }

    /// Replaces the parts of a condition which the byte domains decide.
    fn narrow(&mut self, c: Eid, fuel: &mut u32) -> Eid {
        let n = *self.ar.n(c);
        if n.w != 1 || n.op == Op::Const || n.taint || *fuel == 0 {
            return c;
        }
        *fuel -= 1;
        if self.pinned(c) {
            let v = self.ar.eval(c);
            return self.ar.c(v, 1);
        }
        if let Some((_, y, z)) = self.domain(c) {
            return if y == [0; 4] {
                self.ar.c(0, 1)
            } else if z == [0; 4] {
                self.ar.c(1, 1)
            } else {
                c
            };
        }
        if self.pcset.contains(&c) {
            return self.ar.c(1, 1);
        }
        let nc = self.ar.not(c);
        if self.pcset.contains(&nc) {
            return self.ar.c(0, 1);
        }
        match n.op {
            // A lookup in a table of constants: each of them by itself.
            Op::Ult | Op::Slt if *fuel > 8 => {
                let a = self.narrow_val(n.a, 4, fuel);
                let b = self.narrow_val(n.b, 4, fuel);
                if a == n.a && b == n.b {
                    c
                } else if n.op == Op::Ult {
                    self.ar.ult(a, b)
                } else {
                    self.ar.slt(a, b)
                }
            }
            Op::Eq if *fuel > 8 => {
                let (mut t, mut e) = (n.a, n.b);
                if self.ar.n(t).op != Op::Ite {
                    std::mem::swap(&mut t, &mut e);
                }
                let (x, y) = (self.narrow_val(t, 4, fuel), self.narrow_val(e, 4, fuel));
                if x != t || y != e {
                    return self.ar.eq(x, y);
                }
                let i = *self.ar.n(t);
                if i.op != Op::Ite || i.taint || self.ar.konst(e).is_some() || self.ar.konst(i.b).is_none() {
                    return c;
                }
                let x = self.ar.eq(i.b, e);
                let x = self.narrow(x, fuel);
                let y = self.ar.eq(i.c, e);
                let y = self.narrow(y, fuel);
                match (self.ar.konst(x), self.ar.konst(y)) {
                    (Some(a), Some(b)) if a == b => x,
                    (None, None) => c,
                    _ => self.ar.ite(i.a, x, y),
                }
            }
            Op::Not => {
                let a = self.narrow(n.a, fuel);
                if a == n.a {
                    c
                } else {
                    self.ar.not(a)
                }
            }
            Op::And | Op::Or => {
                let a = self.narrow(n.a, fuel);
                let b = self.narrow(n.b, fuel);
                if a == n.a && b == n.b {
                    c
                } else {
                    self.ar.bin(n.op, a, b)
                }
            }
            Op::Ite => {
                let a = self.narrow(n.a, fuel);
                match self.ar.konst(a) {
                    Some(0) => self.narrow(n.c, fuel),
                    Some(_) => self.narrow(n.b, fuel),
                    None => {
                        let x = self.narrow(n.b, fuel);
                        let y = self.narrow(n.c, fuel);
                        if a == n.a && x == n.b && y == n.c {
                            c
                        } else {
                            self.ar.ite(a, x, y)
                        }
                    }
                }
            }
            _ => c,
        }
    }

    /// A value without the choices that are decided on this path.
    fn narrow_val(&mut self, e: Eid, depth: u32, fuel: &mut u32) -> Eid {
        let n = *self.ar.n(e);
        if depth == 0 || n.taint || n.w == 1 {
            return e;
        }
        match n.op {
            Op::Ite => {
                let a = self.narrow(n.a, fuel);
                match self.ar.konst(a) {
                    Some(0) => self.narrow_val(n.c, depth - 1, fuel),
                    Some(_) => self.narrow_val(n.b, depth - 1, fuel),
                    None => e,
                }
            }
            Op::Add | Op::Sub => {
                let a = self.narrow_val(n.a, depth - 1, fuel);
                let b = self.narrow_val(n.b, depth - 1, fuel);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.ar.bin(n.op, a, b)
                }
            }
            Op::ZExt => {
                let a = self.narrow_val(n.a, depth - 1, fuel);
                if a == n.a {
                    e
                } else {
                    self.ar.zext(a, n.w as u32)
                }
            }
            _ => e,
        }
    }

    /// Is a condition satisfiable on this path? Single-byte conditions over
    /// bytes that nothing relates to others are looked up in the domains
    /// (one in 64 of these verdicts is also put to the solver), everything
    /// else is a query.
    fn sat(&mut self, c: Eid) -> R<Option<Vec<u8>>> {
        if let Some((i, y, _)) = self.domain(c) {
            let r = if y == [0; 4] {
                None
            } else if !self.related(i) {
                let b = (0..256).find(|k| y[k >> 6] >> (k & 63) & 1 == 1).unwrap();
                let mut m = self.ar.model.clone();
                if m.len() <= i {
                    m.resize(i + 1, 0);
                }
                m[i] = b as u8;
                Some(m)
            } else {
                return Ok(self.query(c, &[]));
            };
            let k = self.sh.q_domain.fetch_add(1, Ordering::Relaxed);
            if k % 64 == 0 && !self.ar.n(c).hard {
                let q = self.query(c, &[]);
                if q.is_some() != r.is_some() && self.unknown == 0 {
                    return abort("solver disagrees with a byte domain");
                }
            }
            return Ok(r);
        }
        Ok(self.query(c, &[]))
    }

    /// Take the direction of the current model; explore the other one.
    fn branch(&mut self, c: Eid) -> R<bool> {
        if let Some(k) = self.ar.konst(c) {
            return Ok(k != 0);
        }
        if self.ar.n(c).taint {
            return viol("uninit", "branch on uninitialised memory");
        }
        let c = self.ar.simp(c);
        if let Some(k) = self.ar.konst(c) {
            return Ok(k != 0);
        }
        let o = c;
        let c = self.narrow(c, &mut 200);
        if let Some(k) = self.ar.konst(c) {
            if self.depth >= self.bound {
                let o = if k != 0 { self.ar.not(o) } else { o };
                if self.ar.unary(o).is_some() {
                    self.sat(o)?;
                } else if !self.pinned(o) {
                    let n = self.sh.q_domain.fetch_add(1, Ordering::Relaxed);
                    if n % 64 == 0 && !self.ar.n(o).hard && self.query(o, &[]).is_some() {
                        return abort("solver disagrees with a byte domain");
                    }
                }
            }
            return Ok(k != 0);
        }
        let v = self.ar.eval(c) != 0;
        let nc = self.ar.not(c);
        let (pos, neg) = if v { (c, nc) } else { (nc, c) };
        if self.pcset.contains(&pos) {
            return Ok(v);
        }
        let d = self.depth;
        self.depth += 1;
        if d >= self.bound {
            if let Some(m) = self.sat(neg)? {
                self.children.push((Arc::new(m), d + 1));
            }
        }
        self.push_pc(pos);
        Ok(v)
    }

    /// A value that must be concrete from here on: enumerates all of them.
    fn concretize(&mut self, v: &Val) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::A(_) => abort("aggregate where scalar expected"),
            Val::E(e) => {
                let e = *e;
                if self.ar.n(e).taint {
                    return viol("uninit", "use of uninitialised memory");
                }
                let x = self.ar.eval(e);
                if self.pinned(e) {
                    return Ok(x);
                }
                let w = self.ar.w(e);
                let k = self.ar.c(x, w);
                let eq = self.ar.eq(e, k);
                let eq = self.ar.simp(eq);
                if self.ar.konst(eq).is_some() || self.pcset.contains(&eq) {
                    return Ok(x);
                }
                let d = self.depth;
                self.depth += 1;
                let one = self.ar.unary(e).filter(|&i| !self.related(i));
                let all = one.and_then(|i| Some((i, self.ar.values(e, i)?)));
                if d < self.bound {
                } else if let Some((i, vs)) = all {
                    let dm = *self.dom_mut(i);
                    let mut seen = HashSet::new();
                    seen.insert(x);
                    for b in 0..256 {
                        if dm[b >> 6] >> (b & 63) & 1 == 1 && seen.insert(vs[b]) {
                            self.sh.q_domain.fetch_add(1, Ordering::Relaxed);
                            let mut m = self.ar.model.clone();
                            if m.len() <= i {
                                m.resize(i + 1, 0);
                            }
                            m[i] = b as u8;
                            self.children.push((Arc::new(m), d + 1));
                        }
                    }
                    // The values found in the domain must be all of them.
                    let k = self.sh.q_domain.fetch_add(1, Ordering::Relaxed);
                    if k % 64 == 0 && seen.len() <= 16 && !self.ar.n(e).hard {
                        let mut ne = vec![];
                        for &y in &seen {
                            let y = self.ar.c(y, w);
                            let eq = self.ar.eq(e, y);
                            ne.push(self.ar.not(eq));
                        }
                        if self.query(ne[0], &ne[1..]).is_some() {
                            return abort("solver disagrees with a byte domain");
                        }
                    }
                } else {
                    let mut seen = vec![];
                    let mut last = self.ar.not(eq);
                    let mut n = 0;
                    loop {
                        let Some(m) = self.query(last, &seen) else { break };
                        n += 1;
                        if n > self.lim.enumerate {
                            return abort("too many values to enumerate");
                        }
                        let save = std::mem::replace(&mut self.ar.model, vec![]);
                        let old = save.clone();
                        self.ar.begin_eval(m.clone());
                        let y = self.ar.eval(e);
                        self.ar.begin_eval(old);
                        self.children.push((Arc::new(m), d + 1));
                        seen.push(last);
                        let ky = self.ar.c(y, w);
                        let ey = self.ar.eq(e, ky);
                        let ey = self.ar.simp(ey);
                        last = self.ar.not(ey);
                    }
                }
                self.push_pc(eq);
                Ok(x)
            }
        }
    }

    fn assume(&mut self, c: Eid) -> R<()> {
        let c = self.ar.simp(c);
        if let Some(k) = self.ar.konst(c) {
            return if k != 0 { Ok(()) } else { Err(End::Assume) };
        }
        if self.ar.eval(c) != 0 {
            self.push_pc(c);
            return Ok(());
        }
        if let Some(m) = self.sat(c)? {
            self.children.push((Arc::new(m), self.depth.max(self.bound)));
        }
        Err(End::Assume)
    }

    // ----- values -----

    fn eid(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(x) => self.ar.c(*x & mask(w), w),
            Val::E(e) => *e,
            Val::A(_) => panic!("aggregate"),
        }
    }
    fn wrap(&self, e: Eid) -> Val {
        match self.ar.konst(e) {
            Some(k) => Val::C(k),
            None => Val::E(e),
        }
    }
    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(crate::expr::fold(op, w, *x, *y));
        }
        let x = self.eid(a, w);
        let y = self.eid(b, w);
        let r = self.ar.bin(op, x, y);
        self.wrap(r)
    }
    fn not(&mut self, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C(x ^ 1),
            Val::E(e) => {
                let r = self.ar.not(*e);
                self.wrap(r)
            }
            _ => panic!(),
        }
    }
    fn zext(&mut self, a: &Val, w: u32) -> Val {
        match a {
            Val::C(x) => Val::C(*x),
            Val::E(e) => {
                let r = self.ar.zext(*e, w);
                self.wrap(r)
            }
            _ => panic!(),
        }
    }
    fn sext(&mut self, a: &Val, from: u32, w: u32) -> Val {
        match a {
            Val::C(x) => Val::C(sext128(*x, from) as u128 & mask(w)),
            Val::E(e) => {
                let r = self.ar.sext(*e, w);
                self.wrap(r)
            }
            _ => panic!(),
        }
    }
    fn extract(&mut self, a: &Val, lo: u32, w: u32) -> Val {
        match a {
            Val::C(x) => Val::C((x >> lo) & mask(w)),
            Val::E(e) => {
                let r = self.ar.extract(*e, lo, w);
                self.wrap(r)
            }
            _ => panic!(),
        }
    }
    fn concat(&mut self, hi: &Val, wh: u32, lo: &Val, wl: u32) -> Val {
        if let (Val::C(x), Val::C(y)) = (hi, lo) {
            return Val::C((x << wl) | y);
        }
        let h = self.eid(hi, wh);
        let l = self.eid(lo, wl);
        let r = self.ar.concat(h, l);
        self.wrap(r)
    }
    fn ite(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c {
            Val::C(k) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::E(e) => {
                let x = self.eid(a, w);
                let y = self.eid(b, w);
                let r = self.ar.ite(*e, x, y);
                self.wrap(r)
            }
            _ => panic!(),
        }
    }
    fn icmp(&mut self, p: u8, w: u32, a: &Val, b: &Val) -> Val {
        match p {
            0 => self.bin(Op::Eq, w, a, b),
            1 => {
                let r = self.bin(Op::Eq, w, a, b);
                self.not(&r)
            }
            2 => self.bin(Op::Ult, w, b, a),
            3 => {
                let r = self.bin(Op::Ult, w, a, b);
                self.not(&r)
            }
            4 => self.bin(Op::Ult, w, a, b),
            5 => {
                let r = self.bin(Op::Ult, w, b, a);
                self.not(&r)
            }
            6 => self.bin(Op::Slt, w, b, a),
            7 => {
                let r = self.bin(Op::Slt, w, a, b);
                self.not(&r)
            }
            8 => self.bin(Op::Slt, w, a, b),
            _ => {
                let r = self.bin(Op::Slt, w, b, a);
                self.not(&r)
            }
        }
    }
    fn cond(&mut self, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(*x != 0),
            Val::E(e) => self.branch(*e),
            _ => abort("aggregate condition"),
        }
    }

    // ----- memory -----

    fn new_obj(&mut self, size: u64, align: u64, kind: Kind) -> u64 {
        let oid = self.next_oid;
        self.next_oid += 1;
        let base = obj_addr(oid, align);
        self.objs.insert(
            oid,
            Obj {
                base,
                size,
                len: None,
                align,
                kind,
                alive: true,
                conc: Arc::new(vec![0; size as usize]),
                sym: Some(vec![UNINIT; size as usize]),
            },
        );
        base
    }

    fn obj(&mut self, a: u64) -> Option<u64> {
        let oid = a >> 24;
        if self.objs.contains_key(&oid) {
            return Some(oid);
        }
        if let Some(Sym::G(i)) = self.m.by_oid.get(oid as usize).copied() {
            if oid == 0 {
                return None;
            }
            let g = &self.m.globals[i];
            let bytes = self.m.global_bytes(i)?;
            self.objs.insert(
                oid,
                Obj {
                    base: obj_addr(oid, g.align),
                    size: g.size,
                    len: None,
                    align: g.align,
                    kind: if g.constant { Kind::Const } else { Kind::Global },
                    alive: true,
                    conc: bytes,
                    sym: None,
                },
            );
            return Some(oid);
        }
        None
    }

    /// Resolve an address for an access of n bytes to (object, concrete or symbolic offset).
    fn resolve(&mut self, p: &Val, n: u64, align: u64, write: bool) -> R<(u64, Val)> {
        let a = match p {
            Val::C(x) => *x as u64,
            Val::E(e) => {
                if self.ar.n(*e).taint {
                    return viol("uninit", "uninitialised pointer");
                }
                self.ar.eval(*e) as u64
            }
            _ => return abort("aggregate address"),
        };
        let what = if write { "write" } else { "read" };
        let Some(oid) = self.obj(a) else {
            return viol("memory", format!("{what} of {n} bytes outside any object (address {a:#x})"));
        };
        let o = &self.objs[&oid];
        let (base, size, alive, kind, len) = (o.base, o.size, o.alive, o.kind, o.len);
        if !alive {
            return viol("memory", format!("{what} of freed memory"));
        }
        if write && kind == Kind::Const {
            return viol("memory", "write to constant memory");
        }
        let off = a.wrapping_sub(base);
        if let Some(l) = len {
            let oe = match p {
                Val::E(e) => {
                    let kb = self.ar.c(base as u128, 64);
                    self.ar.bin(Op::Sub, *e, kb)
                }
                _ => self.ar.c(off as u128, 64),
            };
            let kn = self.ar.c(n as u128, 64);
            let end = self.ar.bin(Op::Add, oe, kn);
            let out = self.ar.ult(l, end);
            if self.branch(out)? {
                return viol("memory", format!("{what} of {n} bytes at offset {} of an object of {} bytes", off as i64, self.ar.eval(l)));
            }
        }
        match p {
            Val::C(_) => {
                if off > size || n > size - off {
                    return viol("memory", format!("{what} of {n} bytes at offset {} of an object of {size} bytes", off as i64));
                }
                if align > 1 && a % align != 0 {
                    return viol("memory", format!("misaligned {what}: address modulo {align} is {}", a % align));
                }
                Ok((oid, Val::C(off as u128)))
            }
            Val::E(e) => {
                let e = *e;
                let kb = self.ar.c(base as u128, 64);
                let oe = self.ar.bin(Op::Sub, e, kb);
                // in bounds
                let inb = if n > size {
                    self.ar.c(0, 1)
                } else {
                    let lim = self.ar.c((size - n) as u128 + 1, 64);
                    self.ar.ult(oe, lim)
                };
                if !self.branch(inb)? {
                    return viol("memory", format!("{what} of {n} bytes at offset {} of an object of {size} bytes", off as i64));
                }
                if align > 1 {
                    let low = self.ar.extract(e, 0, align.trailing_zeros());
                    let z = self.ar.c(0, align.trailing_zeros());
                    let al = self.ar.eq(low, z);
                    if !self.branch(al)? {
                        return viol("memory", format!("misaligned {what}"));
                    }
                }
                Ok((oid, self.wrap(oe)))
            }
            _ => unreachable!(),
        }
    }

    fn byte(&mut self, oid: u64, i: u64) -> Val {
        let o = &self.objs[&oid];
        if let Some(s) = &o.sym {
            match s[i as usize] {
                CONC => {}
                UNINIT => {
                    let u = self.ar.undef(8);
                    return Val::E(u);
                }
                e => return Val::E(e),
            }
        }
        Val::C(o.conc[i as usize] as u128)
    }

    fn set_byte(&mut self, oid: u64, i: u64, v: &Val) {
        let o = self.objs.get_mut(&oid).unwrap();
        let i = i as usize;
        match v {
            Val::C(x) => {
                Arc::make_mut(&mut o.conc)[i] = *x as u8;
                if let Some(s) = &mut o.sym {
                    s[i] = CONC;
                }
            }
            Val::E(e) => {
                let n = o.size as usize;
                let tag = if self.ar.n(*e).op == Op::Undef { UNINIT } else { *e };
                o.sym.get_or_insert_with(|| vec![CONC; n])[i] = tag;
            }
            _ => panic!(),
        }
    }

    fn read_int(&mut self, oid: u64, off: u64, n: u64) -> Val {
        {
            let o = &self.objs[&oid];
            let r = off as usize..(off + n) as usize;
            if o.sym.as_ref().map_or(true, |s| s[r.clone()].iter().all(|x| *x == CONC)) {
                let mut b = [0u8; 16];
                b[..n as usize].copy_from_slice(&o.conc[r]);
                return Val::C(u128::from_le_bytes(b));
            }
        }
        let bytes: Vec<Val> = (0..n).map(|i| self.byte(oid, off + i)).collect();
        if n > 1 {
            if let Some(&e) = self.whole.get(&Self::whole_key(&bytes)) {
                let same = (0..n as usize).all(|i| {
                    let x = self.ar.extract(e, 8 * i as u32, 8);
                    match (&bytes[i], self.wrap(x)) {
                        (Val::E(a), Val::E(b)) => *a == b,
                        (Val::C(a), Val::C(b)) => *a == b,
                        _ => false,
                    }
                });
                if same && self.ar.w(e) as u64 == 8 * n {
                    return Val::E(e);
                }
            }
        }
        let mut acc = bytes[0].clone();
        for i in 1..n {
            acc = self.concat(&bytes[i as usize], 8, &acc, 8 * i as u32);
        }
        acc
    }

    fn whole_key(b: &[Val]) -> u64 {
        let mut h = b.len() as u64;
        for v in b {
            let x = match v {
                Val::C(x) => *x as u64,
                Val::E(e) => 0x1_0000 + *e as u64,
                _ => 0,
            };
            h = (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        }
        h
    }

    /// The offset is one of the sorted `os`.
    fn among(&mut self, k: Eid, os: &[u64], stride: u64) -> Eid {
        let mut c = self.ar.c(0, 1);
        let mut i = 0;
        while i < os.len() {
            let mut j = i;
            while j + 1 < os.len() && os[j + 1] == os[j] + stride {
                j += 1;
            }
            let t = if i == j {
                let x = self.ar.c(os[i] as u128, 64);
                self.ar.eq(k, x)
            } else {
                let a = self.ar.c(os[i] as u128, 64);
                let b = self.ar.c(os[j] as u128 + 1, 64);
                let lt = self.ar.ult(k, a);
                let ge = self.ar.not(lt);
                let le = self.ar.ult(k, b);
                self.ar.bin(Op::And, ge, le)
            };
            c = self.ar.bin(Op::Or, c, t);
            i = j + 1;
        }
        c
    }

    fn read_scalar(&mut self, oid: u64, off: &Val, n: u64) -> R<Val> {
        match off {
            Val::C(o) => Ok(self.read_int(oid, *o as u64, n)),
            Val::E(e) => {
                let nd = *self.ar.n(*e);
                let size = self.objs[&oid].size;
                let lo = nd.umin.min(size as u128) as u64;
                let hi = (nd.umax.min((size - n) as u128)) as u64;
                if hi < lo || hi - lo + 1 > self.lim.ite {
                    let o = self.concretize(off)?;
                    return Ok(self.read_int(oid, o as u64, n));
                }
                // stride from known trailing zeros
                let mut stride = 1u64;
                if nd.op == Op::Concat {
                    if self.ar.konst(nd.b) == Some(0) {
                        stride = 1 << self.ar.w(nd.b).min(16);
                    }
                } else if nd.op == Op::ZExt {
                    let i = *self.ar.n(nd.a);
                    if i.op == Op::Concat && self.ar.konst(i.b) == Some(0) {
                        stride = 1 << self.ar.w(i.b).min(16);
                    }
                } else if nd.op == Op::Add {
                    stride = 1;
                }
                let start = lo.next_multiple_of(stride);
                // group equal values
                let mut groups: Vec<(Val, Vec<u64>)> = vec![];
                let mut idx: BTreeMap<u128, usize> = BTreeMap::new();
                let mut o = start;
                while o <= hi {
                    let v = self.read_int(oid, o, n);
                    match &v {
                        Val::C(x) => match idx.get(x) {
                            Some(&g) => groups[g].1.push(o),
                            None => {
                                idx.insert(*x, groups.len());
                                groups.push((v, vec![o]));
                            }
                        },
                        _ => groups.push((v, vec![o])),
                    }
                    o += stride;
                }
                let k = *e;
                // Uninitialised bytes only count if they can be reached.
                let mut gone = vec![];
                let ar = &self.ar;
                groups.retain(|(v, os)| {
                    let t = matches!(v, Val::E(e) if ar.n(*e).taint);
                    if t {
                        gone.extend(os.iter().copied());
                    }
                    !t
                });
                if !gone.is_empty() {
                    gone.sort_unstable();
                    let c = self.among(k, &gone, stride);
                    if groups.is_empty() || self.branch(c)? {
                        let o = self.concretize(off)?;
                        return Ok(self.read_int(oid, o as u64, n));
                    }
                }
                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                let w = 8 * n as u32;
                let mut acc = groups[0].0.clone();
                for (v, os) in groups[1..].iter() {
                    let c = self.among(k, os, stride);
                    let cv = self.wrap(c);
                    acc = self.ite(&cv, v, &acc, w);
                }
                Ok(acc)
            }
            _ => unreachable!(),
        }
    }

    fn load(&mut self, t: &Ty, p: &Val, align: u64) -> R<Val> {
        let n = t.store_size();
        if n == 0 {
            return Ok(zero_of(t));
        }
        let (oid, off) = self.resolve(p, n, align, false)?;
        self.load_at(t, oid, &off)
    }

    fn load_at(&mut self, t: &Ty, oid: u64, off: &Val) -> R<Val> {
        if t.is_agg() {
            if let Ty::Vec(_, e) = t {
                if e.bits() % 8 != 0 {
                    return abort("load of sub-byte vector");
                }
            }
            let mut v = vec![];
            for i in 0..t.nfields() {
                let fo = t.field_off(i);
                let o = self.bin(Op::Add, 64, off, &Val::C(fo as u128));
                v.push(self.load_at(&t.field(i), oid, &o)?);
            }
            return Ok(Val::A(Arc::new(v)));
        }
        let n = t.store_size();
        let v = self.read_scalar(oid, off, n)?;
        let w = t.bits();
        if w as u64 != n * 8 {
            return Ok(self.extract(&v, 0, w));
        }
        Ok(v)
    }

    fn store(&mut self, t: &Ty, v: &Val, p: &Val, align: u64) -> R<()> {
        let n = t.store_size();
        if n == 0 {
            return Ok(());
        }
        let (oid, off) = self.resolve(p, n, align, true)?;
        let o = self.concretize(&off)? as u64;
        self.store_at(t, v, oid, o);
        Ok(())
    }

    fn store_at(&mut self, t: &Ty, v: &Val, oid: u64, off: u64) {
        if let Val::A(f) = v {
            for (i, x) in f.clone().iter().enumerate() {
                self.store_at(&t.field(i), x, oid, off + t.field_off(i));
            }
            return;
        }
        let n = t.store_size();
        let w = t.bits();
        match v {
            Val::C(x) => {
                let o = self.objs.get_mut(&oid).unwrap();
                let r = off as usize..(off + n) as usize;
                Arc::make_mut(&mut o.conc)[r.clone()].copy_from_slice(&x.to_le_bytes()[..n as usize]);
                if let Some(s) = &mut o.sym {
                    s[r].fill(CONC);
                }
            }
            Val::E(e) => {
                let e = if w as u64 != n * 8 { self.ar.zext(*e, 8 * n as u32) } else { *e };
                let mut bytes = vec![];
                for i in 0..n {
                    let b = self.ar.extract(e, 8 * i as u32, 8);
                    let b = self.wrap(b);
                    self.set_byte(oid, off + i, &b);
                    bytes.push(b);
                }
                // A sum or choice is found again as a whole when all of its
                // bytes are read.
                let m = *self.ar.n(e);
                if n > 1 && !m.taint && matches!(m.op, Op::Add | Op::Sub | Op::Ite) {
                    self.whole.insert(Self::whole_key(&bytes), e);
                }
            }
            _ => unreachable!(),
        }
    }

    fn range(&mut self, p: &Val, n: u64, write: bool) -> R<(u64, u64)> {
        let a = Val::C(self.concretize(p)?);
        let (oid, off) = self.resolve(&a, n, 1, write)?;
        match off {
            Val::C(o) => Ok((oid, o as u64)),
            _ => unreachable!(),
        }
    }

    fn memcpy(&mut self, d: &Val, s: &Val, n: &Val, overlap_ok: bool) -> R<()> {
        let n = self.concretize(n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let (so, sp) = self.range(s, n, false)?;
        let (dobj, dp) = self.range(d, n, true)?;
        if !overlap_ok && so == dobj && sp < dp + n && dp < sp + n && sp != dp {
            return viol("memory", "overlapping copy_nonoverlapping");
        }
        let src = &self.objs[&so];
        let conc = src.conc[sp as usize..(sp + n) as usize].to_vec();
        let sym = src.sym.as_ref().map(|s| s[sp as usize..(sp + n) as usize].to_vec());
        let o = self.objs.get_mut(&dobj).unwrap();
        let r = dp as usize..(dp + n) as usize;
        Arc::make_mut(&mut o.conc)[r.clone()].copy_from_slice(&conc);
        match sym {
            Some(s) => {
                let sz = o.size as usize;
                o.sym.get_or_insert_with(|| vec![CONC; sz])[r].copy_from_slice(&s);
            }
            None => {
                if let Some(x) = &mut o.sym {
                    x[r].fill(CONC);
                }
            }
        }
        Ok(())
    }

    fn memset(&mut self, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.concretize(n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let (oid, off) = self.range(d, n, true)?;
        for i in 0..n {
            self.set_byte(oid, off + i, v);
        }
        Ok(())
    }

    fn compare(&mut self, a: &Val, b: &Val, n: &Val, eq_only: bool) -> R<Val> {
        let n = self.concretize(n)? as u64;
        if n == 0 {
            return Ok(Val::C(0));
        }
        let (ao, ap) = self.range(a, n, false)?;
        let (bo, bp) = self.range(b, n, false)?;
        if eq_only {
            let mut acc = Val::C(1);
            for i in 0..n {
                let x = self.byte(ao, ap + i);
                let y = self.byte(bo, bp + i);
                let e = self.bin(Op::Eq, 8, &x, &y);
                acc = self.bin(Op::And, 1, &acc, &e);
                if let Val::C(0) = acc {
                    break;
                }
            }
            let r = self.not(&acc);
            return Ok(self.zext(&r, 32));
        }
        let mut acc = Val::C(0);
        for i in (0..n).rev() {
            let x = self.byte(ao, ap + i);
            let y = self.byte(bo, bp + i);
            let e = self.bin(Op::Eq, 8, &x, &y);
            let l = self.bin(Op::Ult, 8, &x, &y);
            let t = self.ite(&l, &Val::C(0xffff_ffff), &Val::C(1), 32);
            acc = self.ite(&e, &acc, &t, 32);
        }
        Ok(acc)
    }

    /// No more than a dozen values are possible.
    fn few(&mut self, e: Eid) -> bool {
        const N: usize = 12;
        let n = *self.ar.n(e);
        if n.umax - n.umin < N as u128 {
            return true;
        }
        if let Some(i) = self.ar.unary(e).filter(|&i| !self.related(i)) {
            if let Some(vs) = self.ar.values(e, i) {
                let dm = *self.dom_mut(i);
                let seen: HashSet<_> = (0..256).filter(|b| dm[b >> 6] >> (b & 63) & 1 == 1).map(|b| vs[b]).collect();
                return seen.len() <= N;
            }
        }
        let w = self.ar.w(e);
        let x = self.ar.eval(e);
        let k = self.ar.c(x, w);
        let eq = self.ar.eq(e, k);
        let mut last = self.ar.not(eq);
        let mut seen = vec![];
        for _ in 0..N {
            let Some(m) = self.query(last, &seen) else { return true };
            let old = std::mem::take(&mut self.ar.model);
            self.ar.begin_eval(m);
            let y = self.ar.eval(e);
            self.ar.begin_eval(old);
            seen.push(last);
            let ky = self.ar.c(y, w);
            let ey = self.ar.eq(e, ky);
            last = self.ar.not(ey);
        }
        false
    }

    fn alloc(&mut self, size: &Val, align: &Val) -> R<Val> {
        if let Val::E(e) = size {
            let e = self.ar.simp(*e);
            if self.ar.konst(e).is_none() && !self.ar.n(e).taint && !self.few(e) {
                let one = self.ar.c(1, 64);
                let none = self.ar.ult(e, one);
                if self.branch(none)? {
                    return viol("memory", "allocation of no bytes");
                }
                let lim = self.ar.c(self.lim.heap as u128, 64);
                let over = self.ar.ult(lim, e);
                if self.branch(over)? {
                    return Ok(Val::C(0));
                }
                let a = self.concretize(align)? as u64;
                if a > 4096 {
                    return abort("large alignment");
                }
                let mut cap = self.lim.heap;
                while cap > 64 {
                    let k = self.ar.c(cap as u128 / 4, 64);
                    let more = self.ar.ult(k, e);
                    if self.ar.konst(more) != Some(0) && (self.ar.eval(more) != 0 || self.query(more, &[]).is_some()) {
                        break;
                    }
                    cap /= 4;
                }
                let p = self.new_obj(cap, a, Kind::Heap);
                self.objs.get_mut(&(p >> 24)).unwrap().len = Some(e);
                return Ok(Val::C(p as u128));
            }
        }
        let n = self.concretize(size)? as u64;
        let a = self.concretize(align)? as u64;
        if n == 0 {
            return viol("memory", "allocation of no bytes");
        }
        if n > self.lim.heap {
            return Ok(Val::C(0));
        }
        if a > 4096 {
            return abort("large alignment");
        }
        Ok(Val::C(self.new_obj(n, a, Kind::Heap) as u128))
    }

    fn dealloc(&mut self, p: &Val, size: Option<&Val>, align: Option<&Val>) -> R<()> {
        let a = self.concretize(p)? as u64;
        let len = self.obj(a).and_then(|o| self.objs[&o].len);
        let size = match (size, len) {
            (Some(s), Some(l)) => {
                let s = self.eid(s, 64);
                let same = self.ar.eq(s, l);
                if !self.branch(same)? {
                    return viol("memory", "free with a layout other than that of the allocation");
                }
                None
            }
            (Some(s), None) => Some(self.concretize(s)? as u64),
            (None, _) => None,
        };
        let align = match align {
            Some(s) => Some(self.concretize(s)? as u64),
            None => None,
        };
        let Some(oid) = self.obj(a) else {
            return viol("memory", format!("free of a pointer that was not allocated ({a:#x})"));
        };
        let o = self.objs.get_mut(&oid).unwrap();
        if o.kind != Kind::Heap || o.base != a {
            return viol("memory", "free of a pointer that was not allocated");
        }
        if !o.alive {
            return viol("memory", "double free");
        }
        if size.is_some_and(|s| s != o.size) || align.is_some_and(|s| s != o.align) {
            return viol(
                "memory",
                format!("free with layout {size:?}/{align:?} of an allocation with layout {}/{}", o.size, o.align),
            );
        }
        o.alive = false;
        Ok(())
    }

    // ----- execution -----

    fn get(&self, o: &Opnd) -> Val {
        match o {
            Opnd::K(v) => v.clone(),
            Opnd::S(i) => self.frames.last().unwrap().slots[*i as usize].clone(),
        }
    }
    fn set(&mut self, d: u32, v: Val) {
        if d != NOSLOT {
            self.frames.last_mut().unwrap().slots[d as usize] = v;
        }
    }

    fn jump(&mut self, to: u32) {
        let fr = self.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let vals: Vec<(u32, Val)> = blk
                .phis
                .iter()
                .map(|(d, m)| {
                    let v = match &m[&from] {
                        Opnd::K(v) => v.clone(),
                        Opnd::S(i) => fr.slots[*i as usize].clone(),
                    };
                    (*d, v)
                })
                .collect();
            for (d, v) in vals {
                fr.slots[d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
    }

    fn enter(&mut self, fid: usize, args: Vec<Val>, ret: u32) -> R<()> {
        if self.frames.len() > 1500 {
            return viol("limit", "recursion too deep");
        }
        let Some(f) = self.m.code(fid) else {
            return abort(format!("call of unknown function {}", self.m.funcs[fid].name));
        };
        self.seen_fn.insert(fid);
        let mut slots = args;
        slots.resize(f.nslots, Val::C(0));
        self.frames.push(Frame { f, fid, slots, bb: 0, ip: 0, ret, allocas: vec![], dbg: 0 });
        Ok(())
    }

    fn go(&mut self, entry: usize) -> R<()> {
        self.enter(entry, vec![], NOSLOT)?;
        loop {
            self.insts += 1;
            if self.insts > self.lim.insts {
                return viol("limit", "instruction limit: the path does not terminate within the bound");
            }
            let (f, bb, ip) = {
                let fr = self.frames.last_mut().unwrap();
                let r = (fr.f.clone(), fr.bb, fr.ip);
                fr.ip += 1;
                r
            };
            let inst = &f.blocks[bb as usize].insts[ip];
            if inst.dbg != 0 {
                self.frames.last_mut().unwrap().dbg = inst.dbg;
                self.seen_dbg.insert(inst.dbg);
            }
            if self.step(inst)? {
                return Ok(());
            }
        }
    }

    fn elementwise2(&mut self, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, &Val, &Val) -> R<Val>) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(f(self, p, q)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => f(self, a, b),
        }
    }

    fn scalar(t: &Ty) -> (u32, bool) {
        match t {
            Ty::Vec(_, e) => (e.bits(), matches!(**e, Ty::F32 | Ty::F64)),
            t => (t.bits(), matches!(t, Ty::F32 | Ty::F64)),
        }
    }

    fn step(&mut self, inst: &Inst) -> R<bool> {
        match &inst.i {
            I::Nop => {}
            I::Bin(op, t, a, b) => {
                let (a, b) = (self.get(a), self.get(b));
                let (w, _) = Self::scalar(t);
                let op = *op;
                let r = self.elementwise2(&a, &b, |s, a, b| s.binop(op, w, a, b))?;
                self.set(inst.dst, r);
            }
            I::ICmp(p, t, a, b) => {
                let (a, b) = (self.get(a), self.get(b));
                let (w, _) = Self::scalar(t);
                let p = *p;
                let r = self.elementwise2(&a, &b, |s, a, b| Ok(s.icmp(p, w, a, b)))?;
                self.set(inst.dst, r);
            }
            I::FCmp(p, t, a, b) => {
                let (a, b) = (self.get(a), self.get(b));
                let w = t.bits();
                if w == 0 {
                    return abort("vector fcmp");
                }
                let r = self.fcmp(p, w, &a, &b)?;
                self.set(inst.dst, r);
            }
            I::FNeg(t, a) => {
                let a = self.get(a);
                let w = t.bits();
                let r = self.bin(Op::Xor, w, &a, &Val::C(1 << (w - 1)));
                self.set(inst.dst, r);
            }
            I::Cast(k, from, to, a) => {
                let a = self.get(a);
                let r = self.cast(*k, from, to, &a)?;
                self.set(inst.dst, r);
            }
            I::Select(t, c, a, b) => {
                let (c, a, b) = (self.get(c), self.get(a), self.get(b));
                let r = self.select(t, &c, &a, &b)?;
                self.set(inst.dst, r);
            }
            I::Gep(b, off, terms) => {
                let mut p = self.get(b);
                if *off != 0 {
                    p = self.bin(Op::Add, 64, &p, &Val::C(*off as u64 as u128));
                }
                for (o, w, sz) in terms {
                    let i = self.get(o);
                    let i = self.sext(&i, *w, 64);
                    let x = self.bin(Op::Mul, 64, &i, &Val::C(*sz as u128));
                    p = self.bin(Op::Add, 64, &p, &x);
                }
                self.set(inst.dst, p);
            }
            I::Load(t, p, al, range) => {
                let p = self.get(p);
                let v = self.load(t, &p, *al)?;
                if let Some(r) = range {
                    self.check_range(*r, t.bits(), &v)?;
                }
                self.set(inst.dst, v);
            }
            I::Store(t, v, p, al) => {
                let v = self.get(v);
                let p = self.get(p);
                self.store(t, &v, &p, *al)?;
            }
            I::Alloca(n, al) => {
                let a = self.new_obj(*n, *al, Kind::Stack);
                self.frames.last_mut().unwrap().allocas.push(a >> 24);
                self.set(inst.dst, Val::C(a as u128));
            }
            I::Extract(v, ix) => {
                let mut v = self.get(v);
                for i in ix {
                    v = match &v {
                        Val::A(f) => f[*i].clone(),
                        _ => return abort("extractvalue"),
                    };
                }
                self.set(inst.dst, v);
            }
            I::Insert(v, e, ix) => {
                fn ins(v: &Val, e: &Val, ix: &[usize]) -> Val {
                    if ix.is_empty() {
                        return e.clone();
                    }
                    match v {
                        Val::A(f) => {
                            let mut f = (**f).clone();
                            f[ix[0]] = ins(&f[ix[0]], e, &ix[1..]);
                            Val::A(Arc::new(f))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let (v, e) = (self.get(v), self.get(e));
                let r = ins(&v, &e, ix);
                self.set(inst.dst, r);
            }
            I::ExtElem(v, i) => {
                let (v, i) = (self.get(v), self.get(i));
                let i = self.concretize(&i)? as usize;
                match &v {
                    Val::A(f) => {
                        let r = f[i].clone();
                        self.set(inst.dst, r)
                    }
                    _ => return abort("extractelement"),
                }
            }
            I::InsElem(v, e, i) => {
                let (v, e, i) = (self.get(v), self.get(e), self.get(i));
                let i = self.concretize(&i)? as usize;
                match v {
                    Val::A(f) => {
                        let mut f = (*f).clone();
                        f[i] = e;
                        self.set(inst.dst, Val::A(Arc::new(f)))
                    }
                    _ => return abort("insertelement"),
                }
            }
            I::Shuffle(a, b, ix) => {
                let (a, b) = (self.get(a), self.get(b));
                match (a, b) {
                    (Val::A(x), Val::A(y)) => {
                        let r = ix
                            .iter()
                            .map(|&i| {
                                if i < 0 {
                                    Val::C(0)
                                } else if (i as usize) < x.len() {
                                    x[i as usize].clone()
                                } else {
                                    y[i as usize - x.len()].clone()
                                }
                            })
                            .collect();
                        self.set(inst.dst, Val::A(Arc::new(r)));
                    }
                    _ => return abort("shuffle"),
                }
            }
            I::Freeze(v) => {
                let v = self.get(v);
                let v = match v {
                    Val::E(e) if self.ar.n(e).taint => Val::C(0),
                    v => v,
                };
                self.set(inst.dst, v);
            }
            I::Rmw(op, t, p, v) => {
                let (p, v) = (self.get(p), self.get(v));
                let old = self.load(t, &p, 1)?;
                let w = t.bits();
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, w, &old, &v),
                    "sub" => self.bin(Op::Sub, w, &old, &v),
                    "and" => self.bin(Op::And, w, &old, &v),
                    "or" => self.bin(Op::Or, w, &old, &v),
                    o => return abort(format!("atomicrmw {o}")),
                };
                self.store(t, &new, &p, 1)?;
                self.set(inst.dst, old);
            }
            I::CmpXchg(t, p, e, n) => {
                let (p, e, n) = (self.get(p), self.get(e), self.get(n));
                let old = self.load(t, &p, 1)?;
                let c = self.bin(Op::Eq, t.bits(), &old, &e);
                let ok = self.cond(&c)?;
                if ok {
                    self.store(t, &n, &p, 1)?;
                }
                self.set(inst.dst, Val::A(Arc::new(vec![old, Val::C(ok as u128)])));
            }
            I::Br(b) => self.jump(*b),
            I::CondBr(c, a, b) => {
                let c = self.get(c);
                let t = self.cond(&c)?;
                self.jump(if t { *a } else { *b });
            }
            I::Switch(w, v, d, cs) => {
                let v = self.get(v);
                let to = self.switch(*w, &v, *d, cs)?;
                self.jump(to);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| self.get(v));
                let fr = self.frames.pop().unwrap();
                for a in fr.allocas {
                    self.objs.remove(&a);
                }
                if self.frames.is_empty() {
                    return Ok(true);
                }
                if let Some(v) = v {
                    self.set(fr.ret, v);
                }
            }
            I::Call(callee, args, rt) => self.call(callee, args, rt, inst.dst)?,
            I::Invoke(callee, args, rt, to) => {
                // Jump first so that the callee returns into the normal destination;
                // phis there never use the result of this very invoke from this edge
                // before it is set, except as a phi input, which is handled below.
                self.invoke(callee, args, rt, inst.dst, *to)?;
            }
            I::Unreachable => return viol("ub", "unreachable code reached"),
            I::Unsupported(s) => return abort(format!("unsupported instruction {s}")),
        }
        Ok(false)
    }

    fn check_range(&mut self, meta: u32, w: u32, v: &Val) -> R<()> {
        let Some(&(p, e)) = self.m.meta.get(&meta) else { return Ok(()) };
        let l = &self.m.text[p..e];
        let nums: Vec<u128> = l[l.find('{').unwrap_or(0)..]
            .split(|c: char| c == '{' || c == '}' || c == ',')
            .filter_map(|s| s.trim().split(' ').nth(1))
            .filter_map(|s| s.parse::<i128>().ok())
            .map(|x| x as u128 & mask(w))
            .collect();
        if nums.len() != 2 {
            return Ok(());
        }
        let (lo, hi) = (nums[0], nums[1]);
        let ok = if lo < hi {
            let a = self.icmp(3, w, v, &Val::C(lo));
            let b = self.icmp(4, w, v, &Val::C(hi));
            self.bin(Op::And, 1, &a, &b)
        } else {
            let a = self.icmp(3, w, v, &Val::C(lo));
            let b = self.icmp(4, w, v, &Val::C(hi));
            self.bin(Op::Or, 1, &a, &b)
        };
        if let Val::E(e) = ok {
            if self.ar.n(e).taint {
                return Ok(());
            }
        }
        if !self.cond(&ok)? {
            return viol("ub", "loaded value is not valid for its type");
        }
        Ok(())
    }

    fn switch(&mut self, w: u32, v: &Val, d: u32, cs: &[(u128, u32)]) -> R<u32> {
        let e = match v {
            Val::C(x) => return Ok(cs.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(d)),
            Val::E(e) => *e,
            _ => return abort("switch"),
        };
        if self.ar.n(e).taint {
            return viol("uninit", "switch on uninitialised memory");
        }
        let x = self.ar.eval(e);
        let taken = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(d);
        // group by target
        let mut targets: Vec<(u32, Eid)> = vec![];
        let mut any = self.ar.c(0, 1);
        for (k, t) in cs {
            let kk = self.ar.c(*k, w);
            let q = self.ar.eq(e, kk);
            any = self.ar.bin(Op::Or, any, q);
            match targets.iter_mut().find(|z| z.0 == *t) {
                Some(z) => z.1 = self.ar.bin(Op::Or, z.1, q),
                None => targets.push((*t, q)),
            }
        }
        let none = self.ar.not(any);
        match targets.iter_mut().find(|z| z.0 == d) {
            Some(z) => z.1 = self.ar.bin(Op::Or, z.1, none),
            None => targets.push((d, none)),
        }
        let mine = targets.iter().find(|z| z.0 == taken).unwrap().1;
        if let Some((_, _, n)) = self.domain(mine) {
            if n == [0; 4] {
                return Ok(taken);
            }
        }
        if self.ar.konst(mine).is_some() || self.pcset.contains(&mine) {
            return Ok(taken);
        }
        let dp = self.depth;
        self.depth += 1;
        if dp >= self.bound {
            for (t, c) in targets {
                if t != taken {
                    if let Some(m) = self.sat(c)? {
                        self.children.push((Arc::new(m), dp + 1));
                    }
                }
            }
        }
        self.push_pc(mine);
        Ok(taken)
    }

    fn select(&mut self, t: &Ty, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            Val::A(cs) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let et = t.field(0);
                    let mut v = vec![];
                    for i in 0..cs.len() {
                        v.push(self.select(&et, &cs[i], &x[i], &y[i])?);
                    }
                    Ok(Val::A(Arc::new(v)))
                }
                _ => abort("select"),
            },
            Val::E(e) => {
                if self.ar.n(*e).taint {
                    // speculated selects on undefined conditions yield undefined values
                    if t.is_agg() {
                        return viol("uninit", "select on uninitialised memory");
                    }
                    let u = self.ar.undef(t.bits());
                    return Ok(Val::E(u));
                }
                if t.is_agg() || *t == Ty::Ptr {
                    if let (Val::C(x), Val::C(y)) = (a, b) {
                        if x == y {
                            return Ok(a.clone());
                        }
                    }
                    return Ok(if self.branch(*e)? { a.clone() } else { b.clone() });
                }
                let w = t.bits();
                Ok(self.ite(c, a, b, w))
            }
        }
    }

    fn binop(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            _ => {
                let (Val::C(x), Val::C(y)) = (a, b) else {
                    return abort("symbolic floating point arithmetic");
                };
                return Ok(Val::C(if w == 32 {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                } else {
                    let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                }));
            }
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            let z = self.icmp(0, w, b, &Val::C(0));
            if self.cond(&z)? {
                return viol("ub", "division by zero");
            }
        }
        Ok(self.bin(o, w, a, b))
    }

    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (em, ab) = if w == 32 {
            (0x7f80_0000u128, 0x7fff_ffffu128)
        } else {
            (0x7ff0_0000_0000_0000, 0x7fff_ffff_ffff_ffff)
        };
        let nan = |s: &mut Self, v: &Val| {
            let m = s.bin(Op::And, w, v, &Val::C(ab));
            s.icmp(2, w, &m, &Val::C(em))
        };
        let na = nan(self, a);
        let nb = nan(self, b);
        let uno = self.bin(Op::Or, 1, &na, &nb);
        let ord = self.not(&uno);
        // order-preserving map to signed integers with -0 == +0
        let key = |s: &mut Self, v: &Val| {
            let mag = s.bin(Op::And, w, v, &Val::C(ab));
            let neg = s.bin(Op::Sub, w, &Val::C(0), &mag);
            let sg = s.extract(v, w - 1, 1);
            s.ite(&sg, &neg, &mag, w)
        };
        let ka = key(self, a);
        let kb = key(self, b);
        let (o, base) = match p.as_bytes()[0] {
            b'o' if p != "ord" => (true, &p[1..]),
            b'u' if p != "uno" => (false, &p[1..]),
            _ => {
                return Ok(match p {
                    "ord" => ord,
                    "uno" => uno,
                    "true" => Val::C(1),
                    _ => Val::C(0),
                })
            }
        };
        let c = match base {
            "eq" => self.icmp(0, w, &ka, &kb),
            "ne" => self.icmp(1, w, &ka, &kb),
            "gt" => self.icmp(6, w, &ka, &kb),
            "ge" => self.icmp(7, w, &ka, &kb),
            "lt" => self.icmp(8, w, &ka, &kb),
            _ => self.icmp(9, w, &ka, &kb),
        };
        Ok(if o { self.bin(Op::And, 1, &ord, &c) } else { self.bin(Op::Or, 1, &uno, &c) })
    }

    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if k == Cast::Bit && (from.is_agg() != to.is_agg() || (from.is_agg() && from.nfields() != to.nfields())) {
            // flatten to one integer and split
            let total: u32 = if from.is_agg() { from.nfields() as u32 * from.field(0).bits() } else { from.bits() };
            if total > 128 {
                return abort("wide bitcast");
            }
            let int = if let Val::A(f) = a {
                let w = from.field(0).bits();
                let mut acc = f[0].clone();
                for (i, x) in f.iter().enumerate().skip(1) {
                    acc = self.concat(x, w, &acc, w * i as u32);
                }
                acc
            } else {
                a.clone()
            };
            if to.is_agg() {
                let w = to.field(0).bits();
                let v = (0..to.nfields() as u32).map(|i| self.extract(&int, i * w, w)).collect();
                return Ok(Val::A(Arc::new(v)));
            }
            return Ok(int);
        }
        if let Val::A(f) = a {
            let (ft, tt) = (from.field(0), to.field(0));
            let mut v = vec![];
            for x in f.clone().iter() {
                v.push(self.cast(k, &ft, &tt, x)?);
            }
            return Ok(Val::A(Arc::new(v)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match k {
            Cast::Trunc => self.extract(a, 0, tw),
            Cast::ZExt => self.zext(a, tw),
            Cast::SExt => self.sext(a, fw, tw),
            Cast::Bit => a.clone(),
            _ => {
                let Val::C(x) = *a else { return abort("symbolic floating point conversion") };
                let fl = |x: u128| if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let mkf = |d: f64| if tw == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 };
                Val::C(match k {
                    Cast::FpToUi => (fl(x) as u128) & mask(tw),
                    Cast::FpToSi => (fl(x) as i128) as u128 & mask(tw),
                    Cast::UiToFp => {
                        if tw == 32 {
                            (x as f32).to_bits() as u128
                        } else {
                            (x as f64).to_bits() as u128
                        }
                    }
                    Cast::SiToFp => {
                        let s = sext128(x, fw);
                        if tw == 32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                    _ => mkf(fl(x)),
                })
            }
        })
    }

    fn invoke(&mut self, callee: &Callee, args: &[(Ty, Opnd)], rt: &Ty, dst: u32, to: u32) -> R<()> {
        // Execute as a call; continue at `to` after return. When the callee is
        // interpreted, its return value is written to dst, and then the next
        // instruction of the block would run, so a synthetic jump is needed: run the
        // callee to completion here.
        let depth = self.frames.len();
        self.call(callee, args, rt, dst)?;
        while self.frames.len() > depth {
            self.insts += 1;
            if self.insts > self.lim.insts {
                return viol("limit", "instruction limit: the path does not terminate within the bound");
            }
            let (f, bb, ip) = {
                let fr = self.frames.last_mut().unwrap();
                let r = (fr.f.clone(), fr.bb, fr.ip);
                fr.ip += 1;
                r
            };
            let inst = &f.blocks[bb as usize].insts[ip];
            if inst.dbg != 0 {
                self.frames.last_mut().unwrap().dbg = inst.dbg;
                self.seen_dbg.insert(inst.dbg);
            }
            self.step(inst)?;
        }
        self.jump(to);
        Ok(())
    }

    fn call(&mut self, callee: &Callee, args: &[(Ty, Opnd)], rt: &Ty, dst: u32) -> R<()> {
        let fid = match callee {
            Callee::Asm => {
                // optimisation barriers (black_box) only
                return Ok(());
            }
            Callee::Intr(n) => {
                let a: Vec<Val> = args.iter().map(|x| self.get(&x.1)).collect();
                let n = n.clone();
                let r = self.intrinsic(&n, &a, args, rt)?;
                if let Some(r) = r {
                    self.set(dst, r);
                }
                return Ok(());
            }
            Callee::F(i) => *i,
            Callee::P(p) => {
                let p = self.get(p);
                let a = self.concretize(&p)? as u64;
                match self.m.by_oid.get((a >> 24) as usize) {
                    Some(Sym::F(i)) if (a >> 24) != 0 && a == obj_addr(a >> 24, 16) => *i,
                    _ => return viol("memory", format!("call of a non-function pointer {a:#x}")),
                }
            }
        };
        let a: Vec<Val> = args.iter().map(|x| self.get(&x.1)).collect();
        match self.special[fid] {
            SP_PANIC => {
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let Val::C(p) = v {
                        if let Some(l) = self.location(*p as u64) {
                            loc = l;
                            break;
                        }
                    }
                }
                viol("panic", loc)
            }
            SP_BUILTIN => {
                let r = self.builtin(fid, &a)?;
                if let Some(r) = r {
                    self.set(dst, r);
                }
                Ok(())
            }
            SP_UNKNOWN => abort(format!("call of external function {}", self.m.funcs[fid].name)),
            _ => self.enter(fid, a, dst),
        }
    }

    /// core::panic::Location { file ptr, file len, line: u32, col: u32 }
    fn location(&mut self, p: u64) -> Option<String> {
        let oid = self.obj(p)?;
        let o = &self.objs[&oid];
        if o.kind != Kind::Const || o.size != 24 || p != o.base {
            return None;
        }
        let g = |i: usize| u64::from_le_bytes(o.conc[i..i + 8].try_into().unwrap());
        let (f, n) = (g(0), g(8));
        let line = u32::from_le_bytes(o.conc[16..20].try_into().unwrap());
        let col = u32::from_le_bytes(o.conc[20..24].try_into().unwrap());
        let fo = self.obj(f)?;
        let o = &self.objs[&fo];
        let off = (f - o.base) as usize;
        let s = o.conc.get(off..off + n as usize)?;
        Some(format!("{}:{line}:{col}", String::from_utf8_lossy(s)))
    }

    fn builtin(&mut self, fid: usize, a: &[Val]) -> R<Option<Val>> {
        let name = self.m.funcs[fid].name.clone();
        Ok(match name.as_str() {
            "sym_bytes" => {
                let n = self.concretize(&a[1])? as u64;
                if n > 0 {
                    let (oid, off) = self.range(&a[0], n, true)?;
                    for i in 0..n {
                        if self.nsym >= crate::expr::MAXVARS {
                            return abort("too many symbolic bytes");
                        }
                        let v = self.ar.var(self.nsym);
                        self.nsym += 1;
                        self.set_byte(oid, off + i, &Val::E(v));
                    }
                }
                None
            }
            "sym_assume" => {
                match &a[0] {
                    Val::C(x) => {
                        if *x == 0 {
                            return Err(End::Assume);
                        }
                    }
                    Val::E(e) => {
                        let e = *e;
                        let c = if self.ar.w(e) == 1 {
                            e
                        } else {
                            let w = self.ar.w(e);
                            let z = self.ar.c(0, w);
                            let q = self.ar.eq(e, z);
                            self.ar.not(q)
                        };
                        self.assume(c)?;
                    }
                    _ => {}
                }
                None
            }
            "sym_cover" => {
                let x = self.concretize(&a[0])?;
                self.covers.push(x as u32);
                self.mix(x as u64);
                None
            }
            "sym_observe" => {
                let v = match &a[0] {
                    Val::C(x) => *x as u64,
                    Val::E(e) => {
                        if self.ar.n(*e).taint {
                            return viol("uninit", "observed uninitialised memory");
                        }
                        self.ar.eval(*e) as u64
                    }
                    _ => 0,
                };
                self.mix(v);
                None
            }
            "sym_known" => {
                let x = self.concretize(&a[0])?;
                return Err(End::Known(x as u32));
            }
            "sym_concrete" => {
                let v = self.concretize(&a[0])?;
                Some(Val::C(v))
            }
            "sym_live" => {
                let n = self.objs.values().filter(|o| o.kind == Kind::Heap && o.alive).count();
                Some(Val::C(n as u128))
            }
            "sym_check_init" => {
                let n = self.concretize(&a[1])? as u64;
                if n > 0 {
                    let (oid, off) = self.range(&a[0], n, false)?;
                    for i in 0..n {
                        if let Val::E(e) = self.byte(oid, off + i) {
                            if self.ar.n(e).taint {
                                return viol("uninit", format!("byte {i} of the buffer is uninitialised"));
                            }
                        }
                    }
                }
                None
            }
            "sym_alloc" => Some(self.alloc(&a[0], &a[1])?),
            "malloc" => Some(self.alloc(&a[0], &Val::C(16))?),
            "free" => {
                self.dealloc(&a[0], None, None)?;
                None
            }
            "sym_dealloc" => {
                self.dealloc(&a[0], Some(&a[1]), Some(&a[2]))?;
                None
            }
            "sym_realloc" => {
                // (ptr, old, align, new)
                let p = self.concretize(&a[0])? as u64;
                let from = self.obj(p).filter(|o| self.objs[o].alive && self.objs[o].base == p);
                if let Some(from) = from {
                    let new = self.alloc(&a[3], &a[2])?;
                    if let Val::C(0) = new {
                        return Ok(Some(new));
                    }
                    let Val::C(q) = new else { unreachable!() };
                    let to = q as u64 >> 24;
                    if self.objs[&from].len.is_some() || self.objs[&to].len.is_some() {
                        let o = &self.objs[&from];
                        let n = o.size.min(self.objs[&to].size) as usize;
                        let conc = o.conc[..n].to_vec();
                        let sym = match &o.sym {
                            Some(s) => s[..n].to_vec(),
                            None => vec![CONC; n],
                        };
                        let o = self.objs.get_mut(&to).unwrap();
                        Arc::make_mut(&mut o.conc)[..n].copy_from_slice(&conc);
                        o.sym.as_mut().unwrap()[..n].copy_from_slice(&sym);
                        self.dealloc(&a[0], Some(&a[1]), Some(&a[2]))?;
                        return Ok(Some(new));
                    }
                    let old = self.concretize(&a[1])?;
                    let len = self.objs[&to].size as u128;
                    self.memcpy(&new, &a[0], &Val::C(old.min(len)), true)?;
                    self.dealloc(&a[0], Some(&Val::C(old)), Some(&a[2]))?;
                    return Ok(Some(new));
                }
                let old = self.concretize(&a[1])?;
                let new = self.concretize(&a[3])?;
                let r = self.alloc(&Val::C(new), &a[2])?;
                if let Val::C(0) = r {
                    return Ok(Some(r));
                }
                self.memcpy(&r, &a[0], &Val::C(old.min(new)), true)?;
                self.dealloc(&a[0], Some(&Val::C(old)), Some(&a[2]))?;
                Some(r)
            }
            "bcmp" => Some(self.compare(&a[0], &a[1], &a[2], true)?),
            "memcmp" => Some(self.compare(&a[0], &a[1], &a[2], false)?),
            "memcpy" => {
                self.memcpy(&a[0], &a[1], &a[2], false)?;
                Some(a[0].clone())
            }
            "memmove" => {
                self.memcpy(&a[0], &a[1], &a[2], true)?;
                Some(a[0].clone())
            }
            "memset" => {
                let b = self.extract(&a[1], 0, 8);
                self.memset(&a[0], &b, &a[2])?;
                Some(a[0].clone())
            }
            "strlen" => {
                let p = self.concretize(&a[0])? as u64;
                let mut n = 0u64;
                loop {
                    let v = self.load(&Ty::Int(8), &Val::C((p + n) as u128), 1)?;
                    if self.concretize(&v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n as u128))
            }
            "abort" => return viol("panic", "abort"),
            _ => return abort(format!("builtin {name}")),
        })
    }

    fn mix(&mut self, v: u64) {
        for b in v.to_le_bytes() {
            self.trace = (self.trace ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }

    fn overflow(&mut self, n: &str, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
        let signed = n.starts_with('s');
        let kind = &n[1..4];
        match kind {
            "add" | "sub" => {
                let op = if kind == "add" { Op::Add } else { Op::Sub };
                let r = self.bin(op, w, a, b);
                let o = if signed {
                    // add: (a^r)&(b^r) < 0 ; sub: (a^b)&(a^r) < 0
                    let x = self.bin(Op::Xor, w, a, &r);
                    let y = if kind == "add" { self.bin(Op::Xor, w, b, &r) } else { self.bin(Op::Xor, w, a, b) };
                    let z = self.bin(Op::And, w, &x, &y);
                    self.extract(&z, w - 1, 1)
                } else if kind == "add" {
                    match (a, b) {
                        (Val::E(_), Val::C(k)) => self.icmp(2, w, a, &Val::C(mask(w) - k)),
                        (Val::C(k), Val::E(_)) => self.icmp(2, w, b, &Val::C(mask(w) - k)),
                        _ => self.icmp(4, w, &r, a),
                    }
                } else {
                    self.icmp(4, w, a, b)
                };
                Ok((r, o))
            }
            "mul" => {
                let r = self.bin(Op::Mul, w, a, b);
                if let (Val::C(x), Val::C(y)) = (a, b) {
                    let o = if signed {
                        match sext128(*x, w).checked_mul(sext128(*y, w)) {
                            Some(p) => sext128(p as u128 & mask(w), w) != p,
                            None => true,
                        }
                    } else {
                        match x.checked_mul(*y) {
                            Some(p) => p > mask(w),
                            None => true,
                        }
                    };
                    return Ok((r, Val::C(o as u128)));
                }
                if w * 2 <= 128 {
                    let (x, y) = if signed {
                        (self.sext(a, w, 2 * w), self.sext(b, w, 2 * w))
                    } else {
                        (self.zext(a, 2 * w), self.zext(b, 2 * w))
                    };
                    if !signed {
                        // constant factor: a plain comparison
                        if let (Val::E(_), Val::C(k)) | (Val::C(k), Val::E(_)) = (a, b) {
                            let v = if let Val::C(_) = a { b } else { a };
                            if *k == 0 {
                                return Ok((r, Val::C(0)));
                            }
                            let lim = mask(w) / k;
                            let o = self.icmp(2, w, v, &Val::C(lim));
                            return Ok((r, o));
                        }
                    }
                    let p = self.bin(Op::Mul, 2 * w, &x, &y);
                    let back = if signed { self.sext(&r, w, 2 * w) } else { self.zext(&r, 2 * w) };
                    let o = self.icmp(1, 2 * w, &p, &back);
                    return Ok((r, o));
                }
                if let (Val::E(_), Val::C(k)) | (Val::C(k), Val::E(_)) = (a, b) {
                    let v = if let Val::C(_) = a { b } else { a };
                    if !signed {
                        if *k == 0 {
                            return Ok((r, Val::C(0)));
                        }
                        let lim = mask(w) / k;
                        let o = self.icmp(2, w, v, &Val::C(lim));
                        return Ok((r, o));
                    }
                    let ks = sext128(*k, w);
                    if ks > 0 {
                        let max = i128::MAX / ks;
                        let min = i128::MIN / ks;
                        let x = self.icmp(6, w, v, &Val::C(max as u128));
                        let y = self.icmp(8, w, v, &Val::C(min as u128));
                        let o = self.bin(Op::Or, 1, &x, &y);
                        return Ok((r, o));
                    }
                }
                abort("128-bit multiplication overflow of two symbolic values")
            }
            _ => abort(n),
        }
    }

    fn intrinsic(&mut self, n: &str, a: &[Val], args: &[(Ty, Opnd)], rt: &Ty) -> R<Option<Val>> {
        let n = &n[5..];
        let base = n.split('.').next().unwrap();
        if let Some(Val::A(_)) = a.first() {
            if n.starts_with("x86.sse2.pmovmskb") {
                if let Val::A(f) = &a[0] {
                    let bits: Vec<Val> = f.clone().iter().map(|x| self.extract(x, 7, 1)).collect();
                    let mut acc = bits[0].clone();
                    for (i, b) in bits.iter().enumerate().skip(1) {
                        acc = self.concat(b, 1, &acc, i as u32);
                    }
                    return Ok(Some(self.zext(&acc, 32)));
                }
            }
            if let Some(k) = n.strip_prefix("vector.reduce.") {
                if let Val::A(f) = &a[0] {
                    let w = rt.bits();
                    let k = k.split('.').next().unwrap();
                    let f = f.clone();
                    let mut acc = f[0].clone();
                    for x in f.iter().skip(1) {
                        acc = match k {
                            "or" => self.bin(Op::Or, w, &acc, x),
                            "and" => self.bin(Op::And, w, &acc, x),
                            "add" => self.bin(Op::Add, w, &acc, x),
                            "xor" => self.bin(Op::Xor, w, &acc, x),
                            "umax" => {
                                let c = self.icmp(2, w, &acc, x);
                                self.ite(&c, &acc, x, w)
                            }
                            "umin" => {
                                let c = self.icmp(4, w, &acc, x);
                                self.ite(&c, &acc, x, w)
                            }
                            _ => return abort(format!("llvm.{n}")),
                        };
                    }
                    return Ok(Some(acc));
                }
            }
            if rt.is_agg() {
                let et = rt.field(0);
                let len = rt.nfields();
                let mut out = vec![];
                for i in 0..len {
                    let ai: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(f) => f[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    match self.intrinsic(&format!("llvm.{n}"), &ai, args, &et)? {
                        Some(v) => out.push(v),
                        None => return abort(format!("llvm.{n}")),
                    }
                }
                return Ok(Some(Val::A(Arc::new(out))));
            }
        }
        let w = rt.bits();
        Ok(match base {
            "lifetime" => {
                let p = a.last().unwrap();
                if let Val::C(p) = p {
                    if let Some(o) = self.objs.get_mut(&((*p as u64) >> 24)) {
                        if o.base == *p as u64 {
                            o.sym = Some(vec![UNINIT; o.size as usize]);
                        }
                    }
                }
                None
            }
            "experimental" | "dbg" | "donothing" | "sideeffect" | "prefetch" | "invariant" | "pseudoprobe" => None,
            "assume" => {
                let tainted = matches!(&a[0], Val::E(e) if self.ar.n(*e).taint);
                if !tainted && !self.cond(&a[0])? {
                    return viol("ub", "llvm.assume violated");
                }
                None
            }
            "memcpy" => {
                self.memcpy(&a[0], &a[1], &a[2], false)?;
                None
            }
            "memmove" => {
                self.memcpy(&a[0], &a[1], &a[2], true)?;
                None
            }
            "memset" => {
                self.memset(&a[0], &a[1], &a[2])?;
                None
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base {
                    "umax" => 2,
                    "umin" => 4,
                    "smax" => 6,
                    _ => 8,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                Some(self.ite(&c, &a[0], &a[1], w))
            }
            "ucmp" | "scmp" => {
                let aw = args[0].0.bits();
                let (lt, gt) = if base == "ucmp" { (4, 2) } else { (8, 6) };
                let l = self.icmp(lt, aw, &a[0], &a[1]);
                let g = self.icmp(gt, aw, &a[0], &a[1]);
                let t = self.ite(&g, &Val::C(1), &Val::C(0), w);
                Some(self.ite(&l, &Val::C(mask(w)), &t, w))
            }
            "abs" => {
                let ng = self.bin(Op::Sub, w, &Val::C(0), &a[0]);
                let c = self.icmp(8, w, &a[0], &Val::C(0));
                Some(self.ite(&c, &ng, &a[0], w))
            }
            "ctlz" | "cttz" | "ctpop" => match &a[0] {
                Val::C(x) => Some(Val::C(match base {
                    "ctlz" => (x << (128 - w)).leading_zeros().min(w) as u128,
                    "cttz" => x.trailing_zeros().min(w) as u128,
                    _ => x.count_ones() as u128,
                })),
                _ => {
                    let mut acc = Val::C(if base == "ctpop" { 0 } else { w as u128 });
                    match base {
                        "ctpop" => {
                            for i in 0..w {
                                let b = self.extract(&a[0], i, 1);
                                let b = self.zext(&b, w);
                                acc = self.bin(Op::Add, w, &acc, &b);
                            }
                        }
                        "ctlz" => {
                            for i in 0..w {
                                let b = self.extract(&a[0], i, 1);
                                acc = self.ite(&b, &Val::C((w - 1 - i) as u128), &acc, w);
                            }
                        }
                        _ => {
                            for i in (0..w).rev() {
                                let b = self.extract(&a[0], i, 1);
                                acc = self.ite(&b, &Val::C(i as u128), &acc, w);
                            }
                        }
                    }
                    Some(acc)
                }
            },
            "bswap" | "bitreverse" => {
                let step = if base == "bswap" { 8 } else { 1 };
                let k = w / step;
                let mut acc = self.extract(&a[0], (k - 1) * step, step);
                for i in 1..k {
                    let b = self.extract(&a[0], (k - 1 - i) * step, step);
                    acc = self.concat(&b, step, &acc, step * i);
                }
                Some(acc)
            }
            "fshl" | "fshr" => {
                let s = self.binop(BinOp::URem, w, &a[2], &Val::C(w as u128))?;
                if let Val::C(k) = s {
                    let k = k as u32;
                    if k == 0 {
                        return Ok(Some(if base == "fshl" { a[0].clone() } else { a[1].clone() }));
                    }
                    let k = if base == "fshl" { k } else { w - k };
                    let x = self.extract(&a[0], 0, w - k);
                    let y = self.extract(&a[1], w - k, k);
                    Some(self.concat(&x, w - k, &y, k))
                } else {
                    let k = Val::C(self.concretize(&s)?);
                    let aa = [a[0].clone(), a[1].clone(), k];
                    return self.intrinsic(&format!("llvm.{n}"), &aa, args, rt);
                }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                if n.contains(".sat.") {
                    let (r, o) = self.overflow(base, w, &a[0], &a[1])?;
                    let lim = match base {
                        "uadd" => Val::C(mask(w)),
                        "usub" => Val::C(0),
                        _ => {
                            let sg = self.extract(&a[0], w - 1, 1);
                            self.ite(&sg, &Val::C(1 << (w - 1)), &Val::C(mask(w - 1)), w)
                        }
                    };
                    Some(self.ite(&o, &lim, &r, w))
                } else {
                    let aw = args[0].0.bits();
                    let (r, o) = self.overflow(base, aw, &a[0], &a[1])?;
                    Some(Val::A(Arc::new(vec![r, o])))
                }
            }
            "expect" | "threadlocal" | "launder" | "strip" | "ssa" => Some(a[0].clone()),
            "is" => Some(Val::C(matches!(a[0], Val::C(_)) as u128)),
            "objectsize" => Some(Val::C(mask(w))),
            "ptrmask" => Some(self.bin(Op::And, 64, &a[0], &a[1])),
            "fptoui" | "fptosi" => {
                let Val::C(x) = a[0] else { return abort("symbolic floating point conversion") };
                let f = if args[0].0.bits() == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                Some(Val::C(match (base, w) {
                    ("fptoui", 128) => f as u128,
                    ("fptosi", 128) => f as i128 as u128,
                    ("fptoui", w) => (f as u128).min(mask(w)),
                    (_, w) => ((f as i128).clamp(-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)) as u128 & mask(w),
                }))
            }
            "fabs" => Some(self.bin(Op::And, w, &a[0], &Val::C(mask(w) >> 1))),
            "load" => {
                // llvm.load.relative
                let p = self.bin(Op::Add, 64, &a[0], &a[1]);
                let v = self.load(&Ty::Int(32), &p, 4)?;
                let v = self.sext(&v, 32, 64);
                Some(self.bin(Op::Add, 64, &a[0], &v))
            }
            "trap" | "ubsantrap" => return viol("panic", "trap"),
            "x86" if n.ends_with("pause") => None,
            _ => return abort(format!("intrinsic llvm.{n}")),
        })
    }
}
