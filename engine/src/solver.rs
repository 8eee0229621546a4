//! Z3 back end: one context per worker thread; queries are conjunctions of
//! boolean nodes plus per-variable value sets.
use crate::expr::*;
use crate::ir::BinOp;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::{Duration, Instant};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, a: P, out: *mut c_uint) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(2);
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<(u8, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    cache: FxMap<u32, P>,
    bools: FxMap<u32, P>,
    vars: FxMap<u8, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub max_time: Duration,
    timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        Solver {
            c: Self::ctx(),
            cache: FxMap::default(),
            bools: FxMap::default(),
            vars: FxMap::default(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: Duration::ZERO,
            max_time: Duration::ZERO,
            timeout_ms,
        }
    }
    fn ctx() -> P {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            c
        }
    }
    fn num(&self, k: u128, w: u8) -> P {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w as u32))
        }
    }
    fn zvar(&mut self, id: u8) -> P {
        if let Some(&p) = self.vars.get(&id) {
            return p;
        }
        unsafe {
            let s = CString::new(format!("v{}", id)).unwrap();
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), Z3_mk_bv_sort(self.c, 8));
            self.vars.insert(id, p);
            p
        }
    }
    /// membership of variable x in a set of bytes, as interval disjunction
    fn in_set(&mut self, x: P, t: &TTab) -> P {
        let mut parts = vec![];
        let mut i = 0;
        let bit = |i: usize| (t[i >> 6] >> (i & 63)) & 1 == 1;
        while i < 256 {
            if bit(i) {
                let st = i;
                while i < 256 && bit(i) {
                    i += 1;
                }
                let en = i - 1;
                unsafe {
                    parts.push(if st == en {
                        Z3_mk_eq(self.c, x, self.num(st as u128, 8))
                    } else {
                        let a = Z3_mk_bvule(self.c, self.num(st as u128, 8), x);
                        let b = Z3_mk_bvule(self.c, x, self.num(en as u128, 8));
                        let l = [a, b];
                        Z3_mk_and(self.c, 2, l.as_ptr())
                    });
                }
            } else {
                i += 1;
            }
        }
        unsafe {
            match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as u32, parts.as_ptr()),
            }
        }
    }
    fn vid(n: N) -> u8 {
        match n.op {
            Op::Var { id, .. } => id,
            _ => panic!("vid"),
        }
    }
    /// boolean translation of a width-1 node
    fn b(&mut self, n: N) -> P {
        if let Some(&p) = self.bools.get(&n.id) {
            return p;
        }
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const(k) => {
                    if k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::TT(v, t) => {
                    let x = self.zvar(Self::vid(v));
                    // choose the smaller side; bits outside the range are don't care
                    self.in_set(x, &t)
                }
                Op::Bin(BinOp::And, a, b) => {
                    let l = [self.b(a), self.b(b)];
                    Z3_mk_and(c, 2, l.as_ptr())
                }
                Op::Bin(BinOp::Or, a, b) => {
                    let l = [self.b(a), self.b(b)];
                    Z3_mk_or(c, 2, l.as_ptr())
                }
                Op::Bin(BinOp::Xor, a, b) => {
                    if b.konst() == Some(1) {
                        let x = self.b(a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.b(a), self.b(b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Eq(a, b) => {
                    let (x, y) = (self.v(a), self.v(b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult(a, b) => {
                    let (x, y) = (self.v(a), self.v(b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt(a, b) => {
                    let (x, y) = (self.v(a), self.v(b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Ite(k, a, b) => {
                    let (k, x, y) = (self.b(k), self.b(a), self.b(b));
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let x = self.v_raw(n);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bools.insert(n.id, r);
        r
    }
    /// bit-vector translation
    fn v(&mut self, n: N) -> P {
        if let Some(&p) = self.cache.get(&n.id) {
            return p;
        }
        let r = if n.w == 1 && !matches!(n.op, Op::Extract(..)) {
            let k = self.b(n);
            unsafe { Z3_mk_ite(self.c, k, self.num(1, 1), self.num(0, 1)) }
        } else {
            self.v_raw(n)
        };
        self.cache.insert(n.id, r);
        r
    }
    fn v_raw(&mut self, n: N) -> P {
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const(k) => self.num(k, n.w),
                Op::Var { id, .. } => self.zvar(id),
                Op::Lut(v, t) => {
                    // segments with constant slope 0 or 1
                    let x = self.zvar(Self::vid(v));
                    let (lo, hi) = (v.lo as usize, v.hi as usize);
                    let m = maskw(n.w) as u64;
                    let mut segs: Vec<(usize, bool, u64)> = vec![]; // end, affine, k
                    let mut i = lo;
                    while i <= hi {
                        // constant run
                        let mut j = i;
                        while j + 1 <= hi && t[j + 1] == t[i] {
                            j += 1;
                        }
                        let mut q = i;
                        while q + 1 <= hi && t[q + 1] == (t[q].wrapping_add(1) & m) {
                            q += 1;
                        }
                        if q > j {
                            segs.push((q, true, t[i].wrapping_sub(i as u64) & m));
                            i = q + 1;
                        } else {
                            segs.push((j, false, t[i]));
                            i = j + 1;
                        }
                    }
                    let xw = if n.w > 8 {
                        Z3_mk_zero_ext(c, n.w as u32 - 8, x)
                    } else if n.w < 8 {
                        Z3_mk_extract(c, n.w as u32 - 1, 0, x)
                    } else {
                        x
                    };
                    let seg = |s: &Self, (_, aff, k): (usize, bool, u64)| {
                        if aff {
                            if k == 0 {
                                xw
                            } else {
                                Z3_mk_bvadd(c, xw, s.num(k as u128, n.w))
                            }
                        } else {
                            s.num(k as u128, n.w)
                        }
                    };
                    let mut r = seg(self, *segs.last().unwrap());
                    for s in segs.iter().rev().skip(1) {
                        let cond = Z3_mk_bvule(c, x, self.num(s.0 as u128, 8));
                        r = Z3_mk_ite(c, cond, seg(self, *s), r);
                    }
                    r
                }
                Op::Bin(o, a, b) => {
                    let (x, y) = (self.v(a), self.v(b));
                    match o {
                        BinOp::Add => Z3_mk_bvadd(c, x, y),
                        BinOp::Sub => Z3_mk_bvsub(c, x, y),
                        BinOp::Mul => Z3_mk_bvmul(c, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOp::URem => Z3_mk_bvurem(c, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOp::And => Z3_mk_bvand(c, x, y),
                        BinOp::Or => Z3_mk_bvor(c, x, y),
                        BinOp::Xor => Z3_mk_bvxor(c, x, y),
                        BinOp::Shl => Z3_mk_bvshl(c, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                        BinOp::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                Op::Ite(k, a, b) => {
                    let (k, x, y) = (self.b(k), self.v(a), self.v(b));
                    Z3_mk_ite(c, k, x, y)
                }
                Op::Concat(a, b) => {
                    let (x, y) = (self.v(a), self.v(b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract(a, l) => {
                    let x = self.v(a);
                    Z3_mk_extract(c, l as u32 + n.w as u32 - 1, l as u32, x)
                }
                Op::Zext(a) => {
                    let x = self.v(a);
                    Z3_mk_zero_ext(c, (n.w - a.w) as u32, x)
                }
                Op::Sext(a) => {
                    let x = self.v(a);
                    Z3_mk_sign_ext(c, (n.w - a.w) as u32, x)
                }
                _ => {
                    let k = self.b(n);
                    Z3_mk_ite(c, k, self.num(1, 1), self.num(0, 1))
                }
            }
        }
    }
    /// conj of nodes with domains for the variables in `vars`
    pub fn check(&mut self, conj: &[N], vars: &[(u8, TTab)]) -> Res {
        if self.cache.len() + self.bools.len() > 400_000 {
            unsafe {
                Z3_del_context(self.c);
            }
            self.c = Self::ctx();
            self.cache.clear();
            self.bools.clear();
            self.vars.clear();
        }
        let t0 = Instant::now();
        let c = self.c;
        let r = unsafe {
            let lg = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(c, s, p);
            for n in conj {
                let a = self.b(n);
                Z3_solver_assert(c, s, a);
            }
            for (id, d) in vars {
                let x = self.zvar(*id);
                let a = self.in_set(x, d);
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut v = vec![];
                    for (id, _) in vars {
                        let x = self.zvar(*id);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0;
                        if !Z3_model_eval(c, m, x, true, &mut o) || !Z3_get_numeral_uint(c, o, &mut u) {
                            panic!("model eval");
                        }
                        v.push((*id, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(v)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_params_dec_ref(c, p);
            Z3_solver_dec_ref(c, s);
            out
        };
        let dt = t0.elapsed();
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        self.queries += 1;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }
}
