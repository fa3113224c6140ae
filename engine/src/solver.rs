//! Z3 through its C API.

use crate::expr::*;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, o: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
}

pub struct Solver {
    c: P,
    s: P,
    cache: Vec<P>, // bv AST by expr id
    vars: Vec<P>,
    bits: Vec<P>,
    doms: std::collections::HashMap<(u32, Dom), P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
}

#[derive(Debug)]
pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"rlimit\0".as_ptr() as _, b"20000000\0".as_ptr() as _);
            // plain (non reference counted) context: terms live as long as the process
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver { c, s, cache: vec![], vars: vec![], bits: vec![], doms: Default::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0 }
        }
    }
    fn bv(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                let s = Z3_mk_bv_sort(self.c, w);
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let hs = Z3_mk_bv_sort(self.c, w - 64);
                let ls = Z3_mk_bv_sort(self.c, 64);
                let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, hs);
                let l = Z3_mk_unsigned_int64(self.c, v as u64, ls);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn var(&mut self, v: u32) -> P {
        while self.vars.len() <= v as usize {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 8);
                let n = Z3_mk_int_symbol(self.c, self.vars.len() as c_int);
                self.vars.push(Z3_mk_const(self.c, n, s));
            }
        }
        self.vars[v as usize]
    }
    /// the bit `i` of variable `v`, as a boolean
    fn bit(&mut self, v: u32, i: u32) -> P {
        let k = (v * 8 + i) as usize;
        if self.bits.len() <= k {
            self.bits.resize(k + 64, std::ptr::null_mut());
        }
        if self.bits[k].is_null() {
            let var = self.var(v);
            let one = self.bv(1, 1);
            self.bits[k] = unsafe {
                let e = Z3_mk_extract(self.c, i, i, var);
                Z3_mk_eq(self.c, e, one)
            };
        }
        self.bits[k]
    }
    /// a 256-entry table over `v` as a shared decision diagram on its bits
    fn diagram(&mut self, v: u32, leaf: &mut dyn FnMut(&mut Self, usize) -> P) -> P {
        let mut cur: Vec<P> = (0..256).map(|i| leaf(self, i)).collect();
        for b in 0..8 {
            let mut memo: std::collections::HashMap<(usize, usize), P> = Default::default();
            let mut next = Vec::with_capacity(cur.len() / 2);
            for i in 0..cur.len() / 2 {
                let (lo, hi) = (cur[2 * i], cur[2 * i + 1]);
                next.push(if lo == hi {
                    lo
                } else if let Some(&p) = memo.get(&(lo as usize, hi as usize)) {
                    p
                } else {
                    let c = self.bit(v, b);
                    let p = unsafe { Z3_mk_ite(self.c, c, hi, lo) };
                    memo.insert((lo as usize, hi as usize), p);
                    p
                });
            }
            cur = next;
        }
        cur[0]
    }
    /// boolean AST "v in dom"
    fn in_dom(&mut self, v: u32, d: &Dom) -> P {
        if let Some(&p) = self.doms.get(&(v, *d)) {
            return p;
        }
        let (t, f) = unsafe { (Z3_mk_true(self.c), Z3_mk_false(self.c)) };
        let p = self.diagram(v, &mut |_, i| if dom_has(d, i) { t } else { f });
        self.doms.insert((v, *d), p);
        p
    }
    fn map_ast(&mut self, v: u32, t: &Tab, w: u32) -> P {
        // runs with slope 0 or 1
        let var = self.var(v);
        let mut runs: Vec<(usize, usize, u32, u64)> = vec![]; // (from,to,slope,base)
        let m = mask(w) as u64;
        let mut i = 0;
        while i < 256 {
            let b = t.get(i);
            let mut j0 = i;
            while j0 + 1 < 256 && t.get(j0 + 1) == b {
                j0 += 1
            }
            let mut j1 = i;
            while j1 + 1 < 256 && t.get(j1 + 1) == b.wrapping_add((j1 + 1 - i) as u64) & m {
                j1 += 1
            }
            if j1 > j0 {
                runs.push((i, j1, 1, b));
                i = j1 + 1;
            } else {
                runs.push((i, j0, 0, b));
                i = j0 + 1;
            }
        }
        if runs.len() > 4 {
            return self.diagram(v, &mut |s, i| s.bv(t.get(i) as u128, w));
        }
        unsafe {
            let mut r: P = std::ptr::null_mut();
            for (k, &(from, to, slope, base)) in runs.iter().enumerate().rev() {
                let e = if slope == 0 {
                    self.bv(base as u128, w)
                } else {
                    let x = if w > 8 {
                        Z3_mk_zero_ext(self.c, w - 8, var)
                    } else if w < 8 {
                        Z3_mk_extract(self.c, w - 1, 0, var)
                    } else {
                        var
                    };
                    let off = base.wrapping_sub(from as u64) & m;
                    if off == 0 {
                        x
                    } else {
                        let o = self.bv(off as u128, w);
                        Z3_mk_bvadd(self.c, x, o)
                    }
                };
                if k == runs.len() - 1 {
                    r = e;
                } else {
                    let b = self.bv(to as u128, 8);
                    let c = Z3_mk_bvule(self.c, var, b);
                    r = Z3_mk_ite(self.c, c, e, r);
                }
            }
            r
        }
    }
    fn b2v(&mut self, b: P) -> P {
        let (one, zero) = (self.bv(1, 1), self.bv(0, 1));
        unsafe { Z3_mk_ite(self.c, b, one, zero) }
    }
    fn v2b(&mut self, v: P) -> P {
        let one = self.bv(1, 1);
        unsafe { Z3_mk_eq(self.c, v, one) }
    }
    fn ast(&mut self, ex: &Exprs, id: Id) -> P {
        if (id as usize) < self.cache.len() && !self.cache[id as usize].is_null() {
            return self.cache[id as usize];
        }
        let n = ex.nodes[id as usize];
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.bv(ex.is_const(id).unwrap(), w),
                Op::Map => {
                    let t = ex.tabs[n.b as usize].clone();
                    if let Tab::B(d) = &*t {
                        let b = self.in_dom(n.a, d);
                        self.b2v(b)
                    } else {
                        self.map_ast(n.a, &t, w)
                    }
                }
                Op::Ite => {
                    let x = self.ast(ex, n.a);
                    let x = self.v2b(x);
                    let a = self.ast(ex, n.b);
                    let b = self.ast(ex, n.c);
                    Z3_mk_ite(c, x, a, b)
                }
                Op::Extract => {
                    let a = self.ast(ex, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                Op::ZExt => {
                    let a = self.ast(ex, n.a);
                    Z3_mk_zero_ext(c, w - ex.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.ast(ex, n.a);
                    Z3_mk_sign_ext(c, w - ex.w(n.a), a)
                }
                _ => {
                    let a = self.ast(ex, n.a);
                    let b = self.ast(ex, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Eq => {
                            let x = Z3_mk_eq(c, a, b);
                            self.b2v(x)
                        }
                        Op::Ult => {
                            let x = Z3_mk_bvult(c, a, b);
                            self.b2v(x)
                        }
                        Op::Slt => {
                            let x = Z3_mk_bvslt(c, a, b);
                            self.b2v(x)
                        }
                        _ => unreachable!(),
                    }
                }
            }
        };
        if self.cache.len() <= id as usize {
            self.cache.resize(id as usize + 1024, std::ptr::null_mut());
        }
        self.cache[id as usize] = r;
        r
    }
    /// Is the conjunction of `cons` (1-bit expressions) and the domains of `vars` satisfiable?
    pub fn check(&mut self, ex: &Exprs, cons: &[Id], vars: u128, dom: &[Dom]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_push(self.c, self.s);
            let mut m = vars;
            while m != 0 {
                let v = m.trailing_zeros();
                m &= m - 1;
                let d = dom[v as usize];
                if d != FULL {
                    let a = self.in_dom(v, &d);
                    Z3_solver_assert(self.c, self.s, a);
                }
            }
            for &k in cons {
                let a = self.ast(ex, k);
                let b = self.v2b(a);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = Z3_solver_check(self.c, self.s);
            let res = match r {
                1 => {
                    let md = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, md);
                    let mut out = vec![];
                    let mut m = vars;
                    while m != 0 {
                        let v = m.trailing_zeros();
                        m &= m - 1;
                        let va = self.var(v);
                        let mut o: P = std::ptr::null_mut();
                        let mut n = 0u64;
                        if Z3_model_eval(self.c, md, va, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut n) {
                            out.push((v, n as u8));
                        } else {
                            panic!("model eval failed");
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            if t0.elapsed().as_millis() > 20 && std::env::var("RSX_SLOW").is_ok() {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                eprintln!("SLOW {:?} {:?} vars={:x}\n{}", t0.elapsed(), res, vars, s);
            }
            Z3_solver_pop(self.c, self.s, 1);
            self.time += t0.elapsed().as_secs_f64();
            res
        }
    }
}
