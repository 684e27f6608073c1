//! Parser for the textual LLVM IR produced by rustc, compiled lazily to a
//! compact instruction form.
use crate::expr::mask;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Arc<Ty>),
    Struct(bool, Arc<Vec<Ty>>),
    Vec(u64, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// Bytes read or written by a load or store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
            Ty::Struct(p, f) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if !p {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(p, f) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {self:?}"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(_, f) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(_, f) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(crate::expr::Eid),
    A(Arc<Vec<Val>>),
}

pub fn zero_of(t: &Ty) -> Val {
    if t.is_agg() {
        Val::A(Arc::new((0..t.nfields()).map(|i| zero_of(&t.field(i))).collect()))
    } else {
        Val::C(0)
    }
}

pub struct Global {
    pub name: String,
    pub oid: u64,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub bytes: OnceLock<Arc<Vec<u8>>>,
}

pub struct FuncInfo {
    pub name: String,
    pub oid: u64,
    pub header: (usize, usize),
    pub body: Option<(usize, usize)>,
    pub code: OnceLock<Arc<Func>>,
}

#[derive(Clone, Copy)]
pub enum Sym {
    G(usize),
    F(usize),
}

pub struct Module {
    pub text: Arc<String>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<FuncInfo>,
    pub syms: HashMap<String, Sym>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub by_oid: Vec<Sym>,
}

pub fn obj_addr(oid: u64, align: u64) -> u64 {
    (oid << 24) + 0x1000 + align.max(1)
}

#[derive(Clone, Debug)]
pub enum Opnd {
    S(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(usize),
    Intr(Arc<str>),
    P(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, Opnd, Opnd),
    ICmp(u8, Ty, Opnd, Opnd),
    FCmp(Arc<str>, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Cast(Cast, Ty, Ty, Opnd),
    Select(Ty, Opnd, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u32, u64)>),
    Load(Ty, Opnd, u64, Option<u32>),
    Store(Ty, Opnd, Opnd, u64),
    Alloca(u64, u64),
    Call(Callee, Vec<(Ty, Opnd)>, Ty),
    Extract(Opnd, Vec<usize>),
    Insert(Opnd, Opnd, Vec<usize>),
    ExtElem(Opnd, Opnd),
    InsElem(Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<i64>),
    Freeze(Opnd),
    Rmw(Arc<str>, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Invoke(Callee, Vec<(Ty, Opnd)>, Ty, u32),
    Unreachable,
    Unsupported(String),
}

pub struct Inst {
    pub dst: u32,
    pub i: I,
    pub dbg: u32,
}

pub struct Block {
    pub phis: Vec<(u32, HashMap<u32, Opnd>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub nslots: usize,
    pub nparams: usize,
    pub blocks: Vec<Block>,
}

pub const NOSLOT: u32 = u32::MAX;

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    pub fn ws(&mut self) {
        while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\t' | b'\n') {
            self.p += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c as char, self.rest());
        }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..self.s.len().min(self.p + 120)]).into_owned()
    }
    fn isid(c: u8) -> bool {
        c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
    }
    pub fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut q = self.p;
        while q < self.s.len() && Self::isid(self.s[q]) {
            q += 1;
        }
        std::str::from_utf8(&self.s[self.p..q]).unwrap()
    }
    pub fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    pub fn name(&mut self) -> String {
        // after % or @
        if self.s[self.p] == b'"' {
            let q = self.p + 1;
            let mut e = q;
            while self.s[e] != b'"' {
                e += 1;
            }
            self.p = e + 1;
            String::from_utf8_lossy(&self.s[q..e]).into_owned()
        } else {
            self.word().to_string()
        }
    }
    pub fn skip_balanced(&mut self) {
        // at an opening paren
        let mut d = 0;
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'(' | b'[' | b'{' | b'<' => d += 1,
                b')' | b']' | b'}' | b'>' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                }
                _ => {}
            }
        }
    }
    pub fn num(&mut self) -> i128 {
        self.word().parse().unwrap_or_else(|_| panic!("number at {:?}", self.rest()))
    }
}

const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "inbounds", "nusw", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "volatile", "atomic",
];

impl Module {
    pub fn parse(text: String) -> Module {
        let text = Arc::new(text);
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            globals: vec![],
            funcs: vec![],
            syms: HashMap::new(),
            meta: HashMap::new(),
            by_oid: vec![Sym::G(0)],
        };
        let b = text.as_bytes();
        let mut p = 0;
        let line_end = |p: usize| b[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(b.len());
        // types first
        let mut lines = vec![];
        while p < b.len() {
            let e = line_end(p);
            let l = &text[p..e];
            if l.starts_with("define") {
                let mut q = e + 1;
                loop {
                    let e2 = line_end(q);
                    if &text[q..e2] == "}" {
                        lines.push((p, e, Some((e + 1, q))));
                        p = e2 + 1;
                        break;
                    }
                    q = e2 + 1;
                }
                continue;
            }
            if l.starts_with('%') {
                let mut c = Cur::new(l);
                c.p = 1;
                let n = c.name();
                c.expect(b'=');
                c.eatw("type");
                let t = m.ty(&mut c);
                m.types.insert(n, t);
            } else if l.starts_with('!') {
                let mut c = Cur::new(l);
                c.p = 1;
                let w = c.word();
                if let Ok(n) = w.parse::<u32>() {
                    m.meta.insert(n, (p, e));
                }
            } else if !l.is_empty() {
                lines.push((p, e, None));
            }
            p = e + 1;
        }
        for (p, e, body) in lines {
            let l = &text[p..e];
            if l.starts_with('@') {
                let mut c = Cur::new(l);
                c.p = 1;
                let name = c.name();
                c.expect(b'=');
                let mut external = false;
                let constant;
                loop {
                    let w = c.word();
                    match w {
                        "global" => {
                            constant = false;
                            break;
                        }
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "alias" => {
                            constant = true;
                            break;
                        }
                        _ => {
                            if c.peek() == b'(' {
                                c.skip_balanced();
                            }
                        }
                    }
                }
                let ty = m.ty(&mut c);
                let init = if external { None } else { Some((p + c.p, e)) };
                let align = l
                    .rfind(", align ")
                    .and_then(|i| {
                        let t = &l[i + 8..];
                        let t: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                        t.parse().ok()
                    })
                    .unwrap_or_else(|| ty.align());
                let oid = m.by_oid.len() as u64;
                m.by_oid.push(Sym::G(m.globals.len()));
                m.syms.insert(name.clone(), Sym::G(m.globals.len()));
                m.globals.push(Global {
                    name,
                    oid,
                    size: ty.size(),
                    align,
                    constant,
                    ty,
                    init,
                    bytes: OnceLock::new(),
                });
            } else if l.starts_with("define") || l.starts_with("declare") {
                let i = l.find(" @").expect("function name");
                let mut c = Cur::new(l);
                c.p = i + 2;
                let name = c.name();
                let oid = m.by_oid.len() as u64;
                m.by_oid.push(Sym::F(m.funcs.len()));
                m.syms.insert(name.clone(), Sym::F(m.funcs.len()));
                m.funcs.push(FuncInfo { name, oid, header: (p, e), body, code: OnceLock::new() });
            }
        }
        m
    }

    pub fn ty(&self, c: &mut Cur) -> Ty {
        let t = match c.peek() {
            b'{' => {
                c.p += 1;
                let mut f = vec![];
                while !c.eat(b'}') {
                    f.push(self.ty(c));
                    c.eat(b',');
                }
                Ty::Struct(false, Arc::new(f))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let mut f = vec![];
                    while !c.eat(b'}') {
                        f.push(self.ty(c));
                        c.eat(b',');
                    }
                    c.expect(b'>');
                    Ty::Struct(true, Arc::new(f))
                } else {
                    let n = c.num() as u64;
                    c.eatw("x");
                    let t = self.ty(c);
                    c.expect(b'>');
                    Ty::Vec(n, Arc::new(t))
                }
            }
            b'[' => {
                c.p += 1;
                let n = c.num() as u64;
                c.eatw("x");
                let t = self.ty(c);
                c.expect(b']');
                Ty::Arr(n, Arc::new(t))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type {w:?} at {:?}", c.rest()),
                }
            }
        };
        if t == Ty::Ptr && c.eatw("addrspace") {
            c.ws();
            c.skip_balanced();
        }
        // function types (in calls of varargs)
        t
    }

    fn is_ty_start(c: &mut Cur) -> bool {
        match c.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            _ => {
                let w = c.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
        }
    }

    fn skip_to_ty(c: &mut Cur) {
        while !Self::is_ty_start(c) {
            match c.peek() {
                b'"' => {
                    c.p += 1;
                    while c.s[c.p] != b'"' {
                        c.p += 1;
                    }
                    c.p += 1;
                }
                b'#' | b'!' => {
                    c.p += 1;
                    c.word();
                }
                b'(' => c.skip_balanced(),
                b'=' => c.p += 1,
                _ => {
                    let w = c.word();
                    if w.is_empty() {
                        panic!("skip_to_ty at {:?}", c.rest());
                    }
                }
            }
        }
    }

    fn skip_attrs_to_val(c: &mut Cur) {
        loop {
            match c.peek() {
                b'%' | b'@' | b'{' | b'[' | b'<' | b')' | b',' | b'!' => return,
                b'"' => {
                    c.p += 1;
                    while c.s[c.p] != b'"' {
                        c.p += 1;
                    }
                    c.p += 1;
                    continue;
                }
                _ => {}
            }
            let w = c.peek_word();
            match w {
                "align" => {
                    c.word();
                    c.word();
                }
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "none" | "asm" | "splat" | "trunc" | "sub" | "add" | "blockaddress" | "bitcast" => return,
                "c" => return,
                _ => {
                    let b0 = w.as_bytes().first().copied().unwrap_or(0);
                    if b0.is_ascii_digit() || b0 == b'-' || w.starts_with("f0x") {
                        return;
                    }
                    if w.is_empty() {
                        return;
                    }
                    c.word();
                    if c.peek() == b'(' {
                        c.skip_balanced();
                    }
                }
            }
        }
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        match self.syms.get(n) {
            Some(Sym::G(i)) => obj_addr(self.globals[*i].oid, self.globals[*i].align),
            Some(Sym::F(i)) => obj_addr(self.funcs[*i].oid, 16),
            None => panic!("unknown symbol {n}"),
        }
    }

    fn k(&self, c: &mut Cur, t: &Ty) -> Val {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return Val::C(self.sym_addr(&n) as u128);
            }
            b'{' | b'[' => {
                let close = if c.peek() == b'{' { b'}' } else { b']' };
                c.p += 1;
                let mut v = vec![];
                while !c.eat(close) {
                    let ft = self.ty(c);
                    v.push(self.k(c, &ft));
                    c.eat(b',');
                }
                return Val::A(Arc::new(v));
            }
            b'<' => {
                c.p += 1;
                let packed = c.eat(b'{');
                let mut v = vec![];
                while !c.eat(if packed { b'}' } else { b'>' }) {
                    let ft = self.ty(c);
                    v.push(self.k(c, &ft));
                    c.eat(b',');
                }
                if packed {
                    c.expect(b'>');
                }
                return Val::A(Arc::new(v));
            }
            _ => {}
        }
        let w = c.peek_word();
        match w {
            "true" => {
                c.word();
                Val::C(1)
            }
            "false" => {
                c.word();
                Val::C(0)
            }
            "null" | "none" => {
                c.word();
                Val::C(0)
            }
            "undef" | "poison" | "zeroinitializer" => {
                c.word();
                zero_of(t)
            }
            "splat" => {
                c.word();
                c.expect(b'(');
                let ft = self.ty(c);
                let v = self.k(c, &ft);
                c.expect(b')');
                Val::A(Arc::new(vec![v; t.nfields()]))
            }
            "c" if c.s[c.p + 1] == b'"' => {
                c.p += 2;
                let mut v = vec![];
                while c.s[c.p] != b'"' {
                    let b = c.s[c.p];
                    if b == b'\\' && c.s[c.p + 1] == b'\\' {
                        v.push(Val::C(b as u128));
                        c.p += 2;
                    } else if b == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).unwrap() as u128));
                        c.p += 3;
                    } else {
                        v.push(Val::C(b as u128));
                        c.p += 1;
                    }
                }
                c.p += 1;
                Val::A(Arc::new(v))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                c.word();
                c.expect(b'(');
                let ft = self.ty(c);
                let v = self.k(c, &ft);
                assert!(c.eatw("to"), "const cast: {}", String::from_utf8_lossy(&c.s[c.p..(c.p+60).min(c.s.len())]));
                let tt = self.ty(c);
                c.expect(b')');
                match v {
                    Val::C(x) => Val::C(x & mask(tt.bits().max(1))),
                    v => v,
                }
            }
            "sub" | "add" | "xor" => {
                c.word();
                while FLAGS.contains(&c.peek_word()) {
                    c.word();
                }
                c.expect(b'(');
                let ft = self.ty(c);
                let a = self.k(c, &ft);
                c.expect(b',');
                let ft = self.ty(c);
                let b = self.k(c, &ft);
                c.expect(b')');
                match (a, b) {
                    (Val::C(x), Val::C(y)) => Val::C(
                        match w {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            _ => x ^ y,
                        } & mask(ft.bits()),
                    ),
                    _ => panic!("const expr"),
                }
            }
            "getelementptr" => {
                c.word();
                while FLAGS.contains(&c.peek_word()) || c.peek_word() == "inrange" {
                    c.word();
                    if c.peek() == b'(' && c.s[c.p + 1] == b'-' {
                        c.skip_balanced();
                    }
                }
                c.expect(b'(');
                let bt = self.ty(c);
                c.expect(b',');
                let pt = self.ty(c);
                let base = self.k(c, &pt);
                let mut off = 0i64;
                let mut cur = bt.clone();
                let mut first = true;
                while c.eat(b',') {
                    c.eatw("inrange");
                    let it = self.ty(c);
                    let i = match self.k(c, &it) {
                        Val::C(x) => crate::expr::sext128(x, it.bits()) as i64,
                        _ => panic!("gep const"),
                    };
                    if first {
                        off += i * bt.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_off(i as usize) as i64;
                        cur = cur.field(i as usize);
                    }
                }
                c.expect(b')');
                match base {
                    Val::C(x) => Val::C((x as u64).wrapping_add(off as u64) as u128),
                    _ => panic!("gep base"),
                }
            }
            _ => {
                let w = c.word();
                if let (Some(h), Ty::F32 | Ty::F64) = (w.strip_prefix("f0x"), t) {
                    return Val::C(u128::from_str_radix(h, 16).unwrap());
                }
                match t {
                    Ty::F32 | Ty::F64 => {
                        let d: f64 = if let Some(h) = w.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            // "1.0e+00": '+' is not an identifier character
                            let mut s = w.to_string();
                            if s.is_empty() && c.s.get(c.p) == Some(&b'+') {
                                c.p += 1;
                                s = c.word().to_string();
                            }
                            if s.ends_with("qnan") {
                                s = "nan".to_string();
                            } else if c.s.get(c.p) == Some(&b'+') {
                                c.p += 1;
                                s.push('+');
                                s.push_str(c.word());
                            }
                            s.parse().unwrap_or_else(|_| panic!("float {s:?} {:?}", c.s[c.p..].iter().take(40).map(|b| *b as char).collect::<String>()))
                        };
                        Val::C(if *t == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
                    }
                    Ty::Int(bits) => {
                        let v = if let Some(r) = w.strip_prefix('-') {
                            0u128.wrapping_sub(r.parse::<u128>().unwrap_or_else(|_| panic!("int {w:?} at {:?}", c.rest())))
                        } else {
                            w.parse::<u128>().unwrap_or_else(|_| panic!("int {w:?} at {:?}", c.rest()))
                        };
                        Val::C(v & mask(*bits))
                    }
                    _ => panic!("constant {w:?} of {t:?} at {:?}", c.rest()),
                }
            }
        }
    }

    fn put(&self, t: &Ty, v: &Val, out: &mut [u8]) {
        match v {
            Val::C(x) => {
                let n = t.store_size() as usize;
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Val::A(f) => {
                for (i, x) in f.iter().enumerate() {
                    let o = t.field_off(i) as usize;
                    self.put(&t.field(i), x, &mut out[o..]);
                }
            }
            _ => unreachable!(),
        }
    }

    pub fn global_bytes(&self, i: usize) -> Option<Arc<Vec<u8>>> {
        let g = &self.globals[i];
        let (p, e) = g.init?;
        Some(
            g.bytes
                .get_or_init(|| {
                    let mut c = Cur::new(&self.text[p..e]);
                    let v = self.k(&mut c, &g.ty);
                    let mut out = vec![0u8; g.size as usize];
                    self.put(&g.ty, &v, &mut out);
                    Arc::new(out)
                })
                .clone(),
        )
    }

    pub fn code(&self, f: usize) -> Option<Arc<Func>> {
        let fi = &self.funcs[f];
        fi.body?;
        Some(fi.code.get_or_init(|| Arc::new(self.compile(f))).clone())
    }

    fn compile(&self, f: usize) -> Func {
        let fi = &self.funcs[f];
        let head = &self.text[fi.header.0..fi.header.1];
        let mut slots: HashMap<String, u32> = HashMap::new();
        let mut c = Cur::new(head);
        c.p = head.find(" @").unwrap() + 2;
        c.name();
        c.expect(b'(');
        let mut nparams = 0;
        let mut unnamed = 0;
        while !c.eat(b')') {
            if c.eatw("...") {
                continue;
            }
            self.ty(&mut c);
            Self::skip_attrs_to_val(&mut c);
            if c.peek() == b'%' {
                c.p += 1;
                let n = c.name();
                if n.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed += 1;
                }
                slots.insert(n, nparams);
            } else {
                unnamed += 1;
                slots.insert(format!("#p{nparams}"), nparams);
            }
            nparams += 1;
            c.eat(b',');
        }
        let (bs, be) = fi.body.unwrap();
        let body = &self.text[bs..be];
        // Join logical lines.
        let mut lines: Vec<String> = vec![];
        let mut it = body.lines().peekable();
        while let Some(l) = it.next() {
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            let mut s = t.to_string();
            if t.starts_with("switch ") && t.ends_with('[') {
                for l2 in it.by_ref() {
                    let t2 = l2.trim();
                    s.push(' ');
                    s.push_str(t2);
                    if t2.starts_with(']') {
                        break;
                    }
                }
            } else if t.starts_with("invoke ") || t.contains("= invoke ") {
                while !s.contains(" unwind label ") {
                    s.push(' ');
                    s.push_str(it.next().unwrap().trim());
                }
            } else if t.contains(" = landingpad ") {
                while let Some(n) = it.peek() {
                    let n = n.trim();
                    if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") {
                        it.next();
                    } else {
                        break;
                    }
                }
            }
            lines.push(s);
        }
        // Pass 1: labels and result names.
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let mut nslots = nparams;
        let is_label = |s: &str| -> Option<String> {
            let b = s.as_bytes();
            if b[0] == b'"' {
                let e = s[1..].find('"')? + 1;
                if b.get(e + 1) == Some(&b':') {
                    return Some(s[1..e].to_string());
                }
                return None;
            }
            let e = s.find(':')?;
            if s[..e].bytes().all(Cur::isid) {
                Some(s[..e].to_string())
            } else {
                None
            }
        };
        for (i, l) in lines.iter().enumerate() {
            if let Some(n) = is_label(l) {
                labels.insert(n, nb);
                nb += 1;
            } else {
                if i == 0 {
                    labels.insert(unnamed.to_string(), 0);
                    nb = 1;
                }
                if l.starts_with('%') {
                    let mut c = Cur::new(l);
                    c.p = 1;
                    let n = c.name();
                    slots.insert(n, nslots);
                    nslots += 1;
                }
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let cx = Fx { m: self, slots: &slots, labels: &labels };
        for (i, l) in lines.iter().enumerate() {
            if is_label(l).is_some() {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            if i == 0 {
                blocks.push(Block { phis: vec![], insts: vec![] });
            }
            let dbg = l
                .rfind("!dbg !")
                .map(|i| l[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0))
                .unwrap_or(0);
            let mut c = Cur::new(l);
            let mut dst = NOSLOT;
            if c.peek() == b'%' {
                c.p += 1;
                let n = c.name();
                dst = slots[&n];
                c.expect(b'=');
            }
            let blk = blocks.last_mut().unwrap();
            if c.peek_word() == "phi" {
                c.word();
                while FLAGS.contains(&c.peek_word()) {
                    c.word();
                }
                let t = self.ty(&mut c);
                let mut m = HashMap::new();
                loop {
                    c.expect(b'[');
                    let v = cx.val(&mut c, &t);
                    c.expect(b',');
                    let bb = cx.label_ref(&mut c);
                    c.expect(b']');
                    m.insert(bb, v);
                    if !c.eat(b',') || c.peek() != b'[' {
                        break;
                    }
                }
                blk.phis.push((dst, m));
                continue;
            }
            let inst = cx.inst(&mut c, l);
            blk.insts.push(Inst { dst, i: inst, dbg });
        }
        Func { nslots: nslots as usize, nparams: nparams as usize, blocks }
    }
}

struct Fx<'a> {
    m: &'a Module,
    slots: &'a HashMap<String, u32>,
    labels: &'a HashMap<String, u32>,
}

impl Fx<'_> {
    fn val(&self, c: &mut Cur, t: &Ty) -> Opnd {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Opnd::S(*self.slots.get(&n).unwrap_or_else(|| panic!("slot {n}")));
        }
        Opnd::K(self.m.k(c, t))
    }
    fn tval(&self, c: &mut Cur) -> (Ty, Opnd) {
        let t = self.m.ty(c);
        if t == Ty::Other {
            // metadata argument: skip to , or )
            let mut d = 0;
            while c.p < c.s.len() {
                match c.s[c.p] {
                    b'(' => d += 1,
                    b')' if d == 0 => break,
                    b')' => d -= 1,
                    b',' if d == 0 => break,
                    _ => {}
                }
                c.p += 1;
            }
            return (t, Opnd::K(Val::C(0)));
        }
        Module::skip_attrs_to_val(c);
        let v = self.val(c, &t);
        (t, v)
    }
    fn label_ref(&self, c: &mut Cur) -> u32 {
        c.expect(b'%');
        let n = c.name();
        *self.labels.get(&n).unwrap_or_else(|| panic!("label {n}"))
    }
    fn label(&self, c: &mut Cur) -> u32 {
        assert!(c.eatw("label"));
        self.label_ref(c)
    }
    fn align(&self, l: &str) -> u64 {
        l.rfind(", align ")
            .map(|i| l[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap())
            .unwrap_or(1)
    }
    fn call(&self, c: &mut Cur) -> (Callee, Vec<(Ty, Opnd)>, Ty) {
        Module::skip_to_ty(c);
        let rt = self.m.ty(c);
        // function type for varargs: (..)
        if c.peek() == b'(' {
            c.skip_balanced();
        }
        loop {
            match c.peek() {
                b'@' | b'%' => break,
                _ => {
                    let w = c.word();
                    if w == "asm" {
                        return (Callee::Asm, vec![], rt);
                    }
                    if w == "inttoptr" || w.is_empty() {
                        return (Callee::Asm, vec![], rt);
                    }
                }
            }
        }
        let callee = if c.eat(b'@') {
            let n = c.name();
            if n.starts_with("llvm.") {
                Callee::Intr(n.into())
            } else {
                match self.m.syms.get(&n) {
                    Some(Sym::F(i)) => Callee::F(*i),
                    _ => panic!("callee {n}"),
                }
            }
        } else {
            Callee::P(self.val(c, &Ty::Ptr))
        };
        c.expect(b'(');
        let mut args = vec![];
        while !c.eat(b')') {
            args.push(self.tval(c));
            c.eat(b',');
        }
        (callee, args, rt)
    }

    fn inst(&self, c: &mut Cur, l: &str) -> I {
        let op = c.word();
        while FLAGS.contains(&c.peek_word()) {
            c.word();
        }
        use BinOp::*;
        let b = match op {
            "add" => Some(Add),
            "sub" => Some(Sub),
            "mul" => Some(Mul),
            "udiv" => Some(UDiv),
            "sdiv" => Some(SDiv),
            "urem" => Some(URem),
            "srem" => Some(SRem),
            "and" => Some(And),
            "or" => Some(Or),
            "xor" => Some(Xor),
            "shl" => Some(Shl),
            "lshr" => Some(LShr),
            "ashr" => Some(AShr),
            "fadd" => Some(FAdd),
            "fsub" => Some(FSub),
            "fmul" => Some(FMul),
            "fdiv" => Some(FDiv),
            "frem" => Some(FRem),
            _ => None,
        };
        if let Some(b) = b {
            let t = self.m.ty(c);
            let x = self.val(c, &t);
            c.expect(b',');
            let y = self.val(c, &t);
            return I::Bin(b, t, x, y);
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "addrspacecast" => Some(Cast::Bit),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptrunc" => Some(Cast::FpTrunc),
            "fpext" => Some(Cast::FpExt),
            _ => None,
        };
        if let Some(k) = cast {
            let (t, v) = self.tval(c);
            assert!(c.eatw("to"), "cast: {l}");
            let tt = self.m.ty(c);
            let k = if matches!(op, "inttoptr" | "ptrtoint" | "ptrtoaddr") && t.bits() != tt.bits() {
                if t.bits() > tt.bits() {
                    Cast::Trunc
                } else {
                    Cast::ZExt
                }
            } else {
                k
            };
            return I::Cast(k, t, tt, v);
        }
        match op {
            "icmp" => {
                let p = c.word();
                let p = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"].iter().position(|x| *x == p);
                let t = self.m.ty(c);
                let x = self.val(c, &t);
                c.expect(b',');
                let y = self.val(c, &t);
                I::ICmp(p.unwrap() as u8, t, x, y)
            }
            "fcmp" => {
                let p = c.word();
                let t = self.m.ty(c);
                let x = self.val(c, &t);
                c.expect(b',');
                let y = self.val(c, &t);
                I::FCmp(p.into(), t, x, y)
            }
            "fneg" => {
                let (t, v) = self.tval(c);
                I::FNeg(t, v)
            }
            "select" => {
                let (_, x) = self.tval(c);
                c.expect(b',');
                let (t, y) = self.tval(c);
                c.expect(b',');
                let (_, z) = self.tval(c);
                I::Select(t, x, y, z)
            }
            "getelementptr" => {
                let bt = self.m.ty(c);
                c.expect(b',');
                let (pt, base) = self.tval(c);
                if pt != Ty::Ptr {
                    return I::Unsupported(l.into());
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = self.tval(c);
                    if it.is_agg() {
                        return I::Unsupported(l.into());
                    }
                    let sz = if first { bt.size() } else { 0 };
                    match (&iv, first) {
                        (Opnd::K(Val::C(x)), true) => {
                            off = off.wrapping_add((crate::expr::sext128(*x, it.bits()) as i64).wrapping_mul(sz as i64))
                        }
                        (Opnd::K(Val::C(x)), false) => {
                            match cur {
                                Ty::Struct(..) => off += cur.field_off(*x as usize) as i64,
                                _ => {
                                    off = off.wrapping_add(
                                        (crate::expr::sext128(*x, it.bits()) as i64)
                                            .wrapping_mul(cur.field(0).size() as i64),
                                    )
                                }
                            }
                            let i = if matches!(cur, Ty::Struct(..)) { *x as usize } else { 0 };
                            cur = cur.field(i);
                        }
                        (_, true) => terms.push((iv, it.bits(), sz)),
                        (_, false) => {
                            let f = cur.field(0);
                            terms.push((iv, it.bits(), f.size()));
                            cur = f;
                        }
                    }
                    first = false;
                }
                I::Gep(base, off, terms)
            }
            "load" => {
                let t = self.m.ty(c);
                c.expect(b',');
                let (_, p) = self.tval(c);
                // Without !noundef (speculated loads), a value out of range is poison that may go unused.
                let range = l.find("!range !").filter(|_| l.contains("!noundef")).map(|i| {
                    l[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
                });
                I::Load(t, p, self.align(l), range)
            }
            "store" => {
                let (t, v) = self.tval(c);
                c.expect(b',');
                let (_, p) = self.tval(c);
                I::Store(t, v, p, self.align(l))
            }
            "alloca" => {
                let t = self.m.ty(c);
                let mut n = 1u64;
                if c.eat(b',') && c.peek_word() != "align" {
                    match self.tval(c) {
                        (_, Opnd::K(Val::C(x))) => n = x as u64,
                        _ => return I::Unsupported(l.into()),
                    }
                }
                I::Alloca(t.size() * n, self.align(l))
            }
            "call" | "tail" | "musttail" | "notail" => {
                if op != "call" {
                    c.eatw("call");
                }
                let (f, a, r) = self.call(c);
                I::Call(f, a, r)
            }
            "invoke" => {
                let (f, a, r) = self.call(c);
                let i = l.find(" to label ").unwrap();
                c.p = i;
                c.ws();
                assert!(c.eatw("to"));
                let b = self.label(c);
                I::Invoke(f, a, r, b)
            }
            "extractvalue" => {
                let (_, v) = self.tval(c);
                let mut ix = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.num() as usize);
                }
                I::Extract(v, ix)
            }
            "insertvalue" => {
                let (_, v) = self.tval(c);
                c.expect(b',');
                let (_, e) = self.tval(c);
                let mut ix = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.num() as usize);
                }
                I::Insert(v, e, ix)
            }
            "extractelement" => {
                let (_, v) = self.tval(c);
                c.expect(b',');
                let (_, i) = self.tval(c);
                I::ExtElem(v, i)
            }
            "insertelement" => {
                let (_, v) = self.tval(c);
                c.expect(b',');
                let (_, e) = self.tval(c);
                c.expect(b',');
                let (_, i) = self.tval(c);
                I::InsElem(v, e, i)
            }
            "shufflevector" => {
                let (_, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                c.expect(b',');
                let t = self.m.ty(c);
                // poison lanes become -1
                c.ws();
                let mut ix = vec![];
                if c.peek() == b'<' {
                    c.p += 1;
                    while !c.eat(b'>') {
                        self.m.ty(c);
                        let w = c.word();
                        ix.push(w.parse::<i64>().unwrap_or(-1));
                        c.eat(b',');
                    }
                } else {
                    match self.m.k(c, &t) {
                        Val::A(v) => {
                            for x in v.iter() {
                                if let Val::C(x) = x {
                                    ix.push(*x as i64);
                                }
                            }
                        }
                        _ => return I::Unsupported(l.into()),
                    }
                }
                I::Shuffle(a, b, ix)
            }
            "freeze" => {
                let (_, v) = self.tval(c);
                I::Freeze(v)
            }
            "atomicrmw" => {
                let o = c.word();
                let (_, p) = self.tval(c);
                c.expect(b',');
                let (t, v) = self.tval(c);
                I::Rmw(o.into(), t, p, v)
            }
            "cmpxchg" => {
                c.eatw("weak");
                let (_, p) = self.tval(c);
                c.expect(b',');
                let (t, e) = self.tval(c);
                c.expect(b',');
                let (_, n) = self.tval(c);
                I::CmpXchg(t, p, e, n)
            }
            "fence" => I::Nop,
            "landingpad" | "resume" | "cleanupret" => I::Unsupported("unwind".into()),
            "br" => {
                if c.peek_word() == "label" {
                    I::Br(self.label(c))
                } else {
                    let (_, v) = self.tval(c);
                    c.expect(b',');
                    let a = self.label(c);
                    c.expect(b',');
                    let b = self.label(c);
                    I::CondBr(v, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tval(c);
                c.expect(b',');
                let d = self.label(c);
                c.expect(b'[');
                let mut cs = vec![];
                while !c.eat(b']') {
                    let ft = self.m.ty(c);
                    let k = match self.m.k(c, &ft) {
                        Val::C(x) => x,
                        _ => unreachable!(),
                    };
                    c.expect(b',');
                    cs.push((k, self.label(c)));
                }
                I::Switch(t.bits(), v, d, cs)
            }
            "ret" => {
                if c.peek_word() == "void" {
                    I::Ret(None)
                } else {
                    let (_, v) = self.tval(c);
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            _ => I::Unsupported(l.into()),
        }
    }
}
