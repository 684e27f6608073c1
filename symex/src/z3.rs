//! Minimal binding to libz3 through dlopen.
use crate::expr::{Arena, Eid, Op};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

type P = *mut c_void;

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[derive(Clone, Copy)]
        #[allow(non_snake_case)]
        pub struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Option<Api> {
                Some(Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { return None; }
                    std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                },)* })
            }
        }
    }
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_global_param_set: fn(*const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_set_error_handler: fn(P, Option<unsafe extern "C" fn(P, c_int)>);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_iff: fn(P, P, P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P);
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_get_full_version: fn() -> *const c_char;
}

pub fn load(paths: &[String]) -> Option<(Api, String)> {
    for p in paths {
        let c = CString::new(p.as_str()).unwrap();
        unsafe {
            let h = dlopen(c.as_ptr(), 2);
            if h.is_null() {
                continue;
            }
            if let Some(a) = Api::load(h) {
                let v = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
                return Some((a, format!("{v} ({p})")));
            }
        }
    }
    None
}

pub struct Solver {
    a: Api,
    cx: P,
    logic: P,
    params: P,
    cache: Vec<P>,
    built: usize,
    timeout_ms: u32,
}

pub enum Res {
    Unsat,
    Sat(Vec<(usize, u8)>),
    Unknown,
}

unsafe extern "C" fn on_error(_: P, _: c_int) {}

impl Solver {
    pub fn new(a: Api, timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = (a.Z3_mk_config)();
            let cx = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(cx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let logic = (a.Z3_mk_string_symbol)(cx, l.as_ptr());
            let params = (a.Z3_mk_params)(cx);
            (a.Z3_params_inc_ref)(cx, params);
            let t = CString::new("timeout").unwrap();
            let ts = (a.Z3_mk_string_symbol)(cx, t.as_ptr());
            (a.Z3_params_set_uint)(cx, params, ts, timeout_ms);
            Solver { a, cx, logic, params, cache: vec![], built: 0, timeout_ms }
        }
    }

    fn renew(&mut self) {
        unsafe { (self.a.Z3_del_context)(self.cx) };
        *self = Solver::new(self.a, self.timeout_ms);
    }

    fn ast(&mut self, ar: &Arena, e: Eid) -> P {
        if self.cache.len() < ar.nodes.len() {
            self.cache.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.cache[e as usize].is_null() {
            return self.cache[e as usize];
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.cache[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = *ar.n(x);
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != crate::expr::NONE && self.cache[k as usize].is_null() {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let a = &self.a;
            let cx = self.cx;
            let g = |k: Eid| self.cache[k as usize];
            let w = n.w as u32;
            let isb = |k: Eid| ar.w(k) == 1;
            // Bool -> bv1
            let tobv = |k: Eid| unsafe {
                let p = g(k);
                if isb(k) {
                    let s = (a.Z3_mk_bv_sort)(cx, 1);
                    (a.Z3_mk_ite)(cx, p, (a.Z3_mk_unsigned_int64)(cx, 1, s), (a.Z3_mk_unsigned_int64)(cx, 0, s))
                } else {
                    p
                }
            };
            let r = unsafe {
                match n.op {
                    Op::Const => {
                        if w == 1 {
                            if n.imm == 1 {
                                (a.Z3_mk_true)(cx)
                            } else {
                                (a.Z3_mk_false)(cx)
                            }
                        } else {
                            let s = (a.Z3_mk_bv_sort)(cx, w);
                            let t = CString::new(n.imm.to_string()).unwrap();
                            (a.Z3_mk_numeral)(cx, t.as_ptr(), s)
                        }
                    }
                    Op::Var | Op::Undef => {
                        let t = CString::new(format!("{}{}", if n.op == Op::Var { "b" } else { "u" }, n.imm)).unwrap();
                        let s = (a.Z3_mk_bv_sort)(cx, w);
                        let sy = (a.Z3_mk_string_symbol)(cx, t.as_ptr());
                        let v = (a.Z3_mk_const)(cx, sy, s);
                        if w == 1 {
                            let one = (a.Z3_mk_unsigned_int64)(cx, 1, s);
                            (a.Z3_mk_eq)(cx, v, one)
                        } else {
                            v
                        }
                    }
                    Op::Not => (a.Z3_mk_not)(cx, g(n.a)),
                    Op::And if w == 1 => (a.Z3_mk_and)(cx, 2, [g(n.a), g(n.b)].as_ptr()),
                    Op::Or if w == 1 => (a.Z3_mk_or)(cx, 2, [g(n.a), g(n.b)].as_ptr()),
                    Op::Xor if w == 1 => (a.Z3_mk_xor)(cx, g(n.a), g(n.b)),
                    Op::Eq => (a.Z3_mk_eq)(cx, g(n.a), g(n.b)),
                    Op::Ite => (a.Z3_mk_ite)(cx, g(n.a), g(n.b), g(n.c)),
                    Op::Ult => (a.Z3_mk_bvult)(cx, tobv(n.a), tobv(n.b)),
                    Op::Slt => (a.Z3_mk_bvslt)(cx, tobv(n.a), tobv(n.b)),
                    Op::Concat => (a.Z3_mk_concat)(cx, tobv(n.a), tobv(n.b)),
                    Op::Extract => {
                        let lo = n.imm as u32;
                        let x = (a.Z3_mk_extract)(cx, lo + w - 1, lo, tobv(n.a));
                        if w == 1 {
                            let s = (a.Z3_mk_bv_sort)(cx, 1);
                            (a.Z3_mk_eq)(cx, x, (a.Z3_mk_unsigned_int64)(cx, 1, s))
                        } else {
                            x
                        }
                    }
                    Op::ZExt => (a.Z3_mk_zero_ext)(cx, w - ar.w(n.a), tobv(n.a)),
                    Op::SExt => (a.Z3_mk_sign_ext)(cx, w - ar.w(n.a), tobv(n.a)),
                    op => {
                        let f = match op {
                            Op::Add => a.Z3_mk_bvadd,
                            Op::Sub => a.Z3_mk_bvsub,
                            Op::Mul => a.Z3_mk_bvmul,
                            Op::UDiv => a.Z3_mk_bvudiv,
                            Op::SDiv => a.Z3_mk_bvsdiv,
                            Op::URem => a.Z3_mk_bvurem,
                            Op::SRem => a.Z3_mk_bvsrem,
                            Op::And => a.Z3_mk_bvand,
                            Op::Or => a.Z3_mk_bvor,
                            Op::Xor => a.Z3_mk_bvxor,
                            Op::Shl => a.Z3_mk_bvshl,
                            Op::LShr => a.Z3_mk_bvlshr,
                            Op::AShr => a.Z3_mk_bvashr,
                            _ => unreachable!(),
                        };
                        let r = f(cx, tobv(n.a), tobv(n.b));
                        if w == 1 {
                            let s = (a.Z3_mk_bv_sort)(cx, 1);
                            (a.Z3_mk_eq)(cx, r, (a.Z3_mk_unsigned_int64)(cx, 1, s))
                        } else {
                            r
                        }
                    }
                }
            };
            self.cache[x as usize] = r;
            self.built += 1;
            st.pop();
        }
        self.cache[e as usize]
    }

    pub fn check(&mut self, ar: &Arena, cs: &[Eid], vars: &[usize]) -> Res {
        if self.built > 400_000 {
            self.renew();
        }
        let asts: Vec<P> = cs.iter().map(|&c| self.ast(ar, c)).collect();
        let a = self.a;
        let cx = self.cx;
        unsafe {
            let s = (a.Z3_mk_solver_for_logic)(cx, self.logic);
            (a.Z3_solver_inc_ref)(cx, s);
            (a.Z3_solver_set_params)(cx, s, self.params);
            for x in asts {
                (a.Z3_solver_assert)(cx, s, x);
            }
            let r = (a.Z3_solver_check)(cx, s);
            let out = if (a.Z3_get_error_code)(cx) != 0 {
                Res::Unknown
            } else if r == -1 {
                Res::Unsat
            } else if r == 1 {
                let m = (a.Z3_solver_get_model)(cx, s);
                (a.Z3_model_inc_ref)(cx, m);
                let sort = (a.Z3_mk_bv_sort)(cx, 8);
                let mut v = vec![];
                for &i in vars {
                    let t = CString::new(format!("b{i}")).unwrap();
                    let sy = (a.Z3_mk_string_symbol)(cx, t.as_ptr());
                    let c = (a.Z3_mk_const)(cx, sy, sort);
                    let mut o: P = std::ptr::null_mut();
                    let mut x = 0u64;
                    if (a.Z3_model_eval)(cx, m, c, true, &mut o) && (a.Z3_get_numeral_uint64)(cx, o, &mut x) {
                        v.push((i, x as u8));
                    }
                }
                (a.Z3_model_dec_ref)(cx, m);
                if v.len() == vars.len() {
                    Res::Sat(v)
                } else {
                    Res::Unknown
                }
            } else {
                Res::Unknown
            };
            (a.Z3_solver_dec_ref)(cx, s);
            out
        }
    }
}

impl Solver {
    pub fn reset_cache(&mut self) {
        self.renew();
    }
}
