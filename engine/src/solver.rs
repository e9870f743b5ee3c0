//! The SMT back end: libz3 through its C API, QF_BV queries over the symbolic bytes.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type Z = *mut c_void;

#[link(name = "z3")]
unsafe extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_mk_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, a: Z, compl: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: Z, a: Z) -> *const c_char;
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_set_error_handler(c: Z, h: Option<extern "C" fn(Z, c_int)>);
    fn Z3_get_error_msg(c: Z, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_const(c: Z, s: Z, sort: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, sort: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_sort_single(c: Z) -> Z;
    fn Z3_mk_fpa_sort_double(c: Z) -> Z;
    fn Z3_mk_fpa_to_fp_bv(c: Z, bv: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_float(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_signed(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_unsigned(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_ieee_bv(c: Z, t: Z) -> Z;
    fn Z3_mk_fpa_rne(c: Z) -> Z;
    fn Z3_mk_fpa_is_nan(c: Z, t: Z) -> Z;
    fn Z3_mk_fpa_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_lt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_leq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(c: Z, e: c_int) {
    // Any solver error makes the run inconclusive: the process ends with a status of its own.
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string() };
    eprintln!("z3 error {e}: {m}");
    std::process::exit(97);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub table: u64, // decided by the exhaustive truth table over one byte
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: Z,
    s: Z,
    sfp: Z,
    memo: HashMap<E, Z>,  // bit-vector terms
    bmemo: HashMap<E, Z>, // boolean terms
    cache: HashMap<Vec<u64>, Res>,
    pub stats: Stats,
    pub dump: Vec<(String, bool)>, // sampled queries in SMT-LIB 2 with the answer (sat?)
    pub dump_every: u64,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}")
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), timeout_ms);
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, p);
            let sfp = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, sfp);
            Z3_solver_set_params(c, sfp, p);
            Solver {
                c,
                s,
                sfp,
                memo: HashMap::new(),
                bmemo: HashMap::new(),
                cache: HashMap::new(),
                stats: Stats::default(),
                dump: vec![],
                dump_every: 0,
            }
        }
    }
    fn num(&self, v: u128, w: u32) -> Z {
        unsafe { Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), Z3_mk_bv_sort(self.c, w)) }
    }
    fn sym(&self, i: usize) -> Z {
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(&format!("b{i}")).as_ptr()), Z3_mk_bv_sort(self.c, 8)) }
    }
    fn has_fp(ctx: &Ctx, es: &[E]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = es.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = ctx.nodes[e as usize];
            if matches!(n.op, Op::FpTrunc | Op::FpExt | Op::SiToFp | Op::UiToFp | Op::FCmp) {
                return true;
            }
            for i in 0..Ctx::arity(n.op) {
                st.push(n.a[i]);
            }
        }
        false
    }
    /// `e` of width 1 as a boolean.
    pub fn b(&mut self, ctx: &Ctx, e: E) -> Z {
        if let Some(z) = self.bmemo.get(&e) {
            return *z;
        }
        let n = ctx.nodes[e as usize];
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And => {
                    let a = [self.b(ctx, n.a[0]), self.b(ctx, n.a[1])];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.b(ctx, n.a[0]), self.b(ctx, n.a[1])];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let x = self.b(ctx, n.a[0]);
                    let y = self.b(ctx, n.a[1]);
                    Z3_mk_not(c, Z3_mk_eq(c, x, y))
                }
                Op::Ite => {
                    let q = self.b(ctx, n.a[0]);
                    let x = self.b(ctx, n.a[1]);
                    let y = self.b(ctx, n.a[2]);
                    Z3_mk_ite(c, q, x, y)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.t(ctx, n.a[0]);
                    let y = self.t(ctx, n.a[1]);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::FCmp => {
                    let s = if ctx.w(n.a[0]) == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                    let x = self.t(ctx, n.a[0]);
                    let y = self.t(ctx, n.a[1]);
                    let x = Z3_mk_fpa_to_fp_bv(c, x, s);
                    let y = Z3_mk_fpa_to_fp_bv(c, y, s);
                    let un = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                    let uno = Z3_mk_or(c, 2, un.as_ptr());
                    let ord = Z3_mk_not(c, uno);
                    let name = FCMP[n.k as usize];
                    let base = match name {
                        "false" => Z3_mk_false(c),
                        "true" => Z3_mk_true(c),
                        "ord" => ord,
                        "uno" => uno,
                        _ => match &name[1..] {
                            "eq" => Z3_mk_fpa_eq(c, x, y),
                            "gt" => Z3_mk_fpa_lt(c, y, x),
                            "ge" => Z3_mk_fpa_leq(c, y, x),
                            "lt" => Z3_mk_fpa_lt(c, x, y),
                            "le" => Z3_mk_fpa_leq(c, x, y),
                            _ => Z3_mk_not(c, Z3_mk_fpa_eq(c, x, y)),
                        },
                    };
                    match name {
                        "false" | "true" | "ord" | "uno" => base,
                        _ if name.starts_with('u') => {
                            let a = [uno, base];
                            Z3_mk_or(c, 2, a.as_ptr())
                        }
                        _ => {
                            let a = [ord, base];
                            Z3_mk_and(c, 2, a.as_ptr())
                        }
                    }
                }
                _ => {
                    let x = self.t(ctx, e);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bmemo.insert(e, z);
        z
    }
    pub fn t(&mut self, ctx: &Ctx, e: E) -> Z {
        if let Some(z) = self.memo.get(&e) {
            return *z;
        }
        let n = ctx.nodes[e as usize];
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Sym => self.sym(n.k as usize),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FCmp => {
                    let q = self.b(ctx, e);
                    Z3_mk_ite(c, q, self.num(1, 1), self.num(0, 1))
                }
                Op::Ite => {
                    let q = self.b(ctx, n.a[0]);
                    let x = self.t(ctx, n.a[1]);
                    let y = self.t(ctx, n.a[2]);
                    Z3_mk_ite(c, q, x, y)
                }
                Op::Extract => {
                    let x = self.t(ctx, n.a[0]);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, x)
                }
                Op::ZExt => {
                    let x = self.t(ctx, n.a[0]);
                    Z3_mk_zero_ext(c, n.w - ctx.w(n.a[0]), x)
                }
                Op::SExt => {
                    let x = self.t(ctx, n.a[0]);
                    Z3_mk_sign_ext(c, n.w - ctx.w(n.a[0]), x)
                }
                Op::FpTrunc | Op::FpExt => {
                    let x = self.t(ctx, n.a[0]);
                    let (sf, st) = (Z3_mk_fpa_sort_single(c), Z3_mk_fpa_sort_double(c));
                    let (from, to) = if n.op == Op::FpTrunc { (st, sf) } else { (sf, st) };
                    let f = Z3_mk_fpa_to_fp_bv(c, x, from);
                    let r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), f, to));
                    // a NaN keeps sign and leading payload bits and becomes quiet
                    let nan = if n.op == Op::FpTrunc {
                        let sg = Z3_mk_extract(c, 63, 63, x);
                        let pl = Z3_mk_extract(c, 50, 29, x);
                        Z3_mk_concat(c, sg, Z3_mk_concat(c, self.num(0x1ff, 9), pl))
                    } else {
                        let sg = Z3_mk_extract(c, 31, 31, x);
                        let pl = Z3_mk_extract(c, 21, 0, x);
                        let h = Z3_mk_concat(c, sg, Z3_mk_concat(c, self.num(0xfff, 12), pl));
                        Z3_mk_concat(c, h, self.num(0, 29))
                    };
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, r)
                }
                Op::SiToFp | Op::UiToFp => {
                    let x = self.t(ctx, n.a[0]);
                    let s = if n.w == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                    let f = if n.op == Op::SiToFp {
                        Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, s)
                    } else {
                        Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, s)
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                _ => {
                    let x = self.t(ctx, n.a[0]);
                    let y = self.t(ctx, n.a[1]);
                    match n.op {
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.memo.insert(e, z);
        z
    }
    fn dom_term(&self, byte: usize, d: &[u64; 4]) -> Option<Z> {
        // ranges of allowed values
        let has = |v: usize| d[v / 64] >> (v % 64) & 1 == 1;
        let mut parts = vec![];
        let s = self.sym(byte);
        let mut v = 0;
        while v < 256 {
            if has(v) {
                let st = v;
                while v < 256 && has(v) {
                    v += 1;
                }
                if st == 0 && v == 256 {
                    return None;
                }
                unsafe {
                    let a = [Z3_mk_bvule(self.c, self.num(st as u128, 8), s), Z3_mk_bvule(self.c, s, self.num(v as u128 - 1, 8))];
                    parts.push(if v - st == 1 { Z3_mk_eq(self.c, s, self.num(st as u128, 8)) } else { Z3_mk_and(self.c, 2, a.as_ptr()) });
                }
            } else {
                v += 1;
            }
        }
        Some(unsafe { Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr()) })
    }
    /// Is the conjunction of `es` satisfiable with every byte in its domain?
    pub fn check(&mut self, ctx: &Ctx, es: &[E], doms: &[(usize, [u64; 4])]) -> Res {
        let mut key: Vec<u64> = es.iter().map(|e| *e as u64).collect();
        key.sort();
        key.dedup();
        for (b, d) in doms {
            key.push(*b as u64);
            key.extend_from_slice(d);
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let s = if Self::has_fp(ctx, es) { self.sfp } else { self.s };
        let r = unsafe {
            Z3_solver_push(self.c, s);
            for (b, d) in doms {
                if let Some(z) = self.dom_term(*b, d) {
                    Z3_solver_assert(self.c, s, z);
                }
            }
            for e in es {
                let z = self.b(ctx, *e);
                Z3_solver_assert(self.c, s, z);
            }
            let k = Z3_solver_check(self.c, s);
            self.stats.queries += 1;
            if self.dump_every > 0 && k != 0 && self.stats.queries % self.dump_every == 0 && self.dump.len() < 12 {
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                self.dump.push((t, k == 1));
            }
            let r = match k {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for (b, _) in doms {
                        let mut o: Z = std::ptr::null_mut();
                        let mut x = 0u64;
                        if !Z3_model_eval(self.c, m, self.sym(*b), true, &mut o) || !Z3_get_numeral_uint64(self.c, o, &mut x) {
                            eprintln!("z3: no value for byte {b}");
                            std::process::exit(97);
                        }
                        v.push((*b, x as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.stats.sat += 1;
                    Res::Sat(v)
                }
                -1 => {
                    self.stats.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.stats.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, s, 1);
            r
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        if r != Res::Unknown {
            self.cache.insert(key, r.clone());
        }
        r
    }
    /// Used by the self-test: value of `e` when the bytes are fixed, computed by z3.
    pub fn eval_z3(&mut self, ctx: &Ctx, e: E, bytes: &[u8]) -> u128 {
        unsafe {
            Z3_solver_push(self.c, self.sfp);
            for (i, v) in bytes.iter().enumerate() {
                let z = Z3_mk_eq(self.c, self.sym(i), self.num(*v as u128, 8));
                Z3_solver_assert(self.c, self.sfp, z);
            }
            assert_eq!(Z3_solver_check(self.c, self.sfp), 1);
            let m = Z3_solver_get_model(self.c, self.sfp);
            Z3_model_inc_ref(self.c, m);
            let t = self.t(ctx, e);
            let mut o: Z = std::ptr::null_mut();
            assert!(Z3_model_eval(self.c, m, t, true, &mut o));
            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().to_string();
            Z3_model_dec_ref(self.c, m);
            Z3_solver_pop(self.c, self.sfp, 1);
            s.parse().unwrap_or_else(|_| panic!("numeral {s}"))
        }
    }
    /// Are the two expressions equal for all values of the bytes?
    pub fn equal(&mut self, ctx: &Ctx, a: E, b: E) -> Option<bool> {
        unsafe {
            Z3_solver_push(self.c, self.s);
            let (x, y) = (self.t(ctx, a), self.t(ctx, b));
            let z = Z3_mk_not(self.c, Z3_mk_eq(self.c, x, y));
            Z3_solver_assert(self.c, self.s, z);
            let r = Z3_solver_check(self.c, self.s);
            Z3_solver_pop(self.c, self.s, 1);
            match r {
                -1 => Some(true),
                1 => Some(false),
                _ => None,
            }
        }
    }
}
