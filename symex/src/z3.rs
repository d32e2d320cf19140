//! Minimal binding to libz3's C API and an incremental solver that follows the
//! executor's depth-first search (assertion stack = current path condition).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

type P = *mut std::ffi::c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        eprintln!("ENGINE-ERROR: z3 error: {}", m);
    }
    std::process::exit(70);
}

pub enum Sat {
    Sat(HashMap<u32, u128>),
    Unsat,
}

pub struct Solver {
    ctx: P,
    s: P,
    cache: HashMap<E, P>, // as bit-vectors
    bcache: HashMap<E, P>, // width-1 expressions as Bool
    sorts: HashMap<u32, P>,
    asserted: Vec<E>,
    pub queries: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub time: f64,
    pub max_time: f64,
    vars_of: HashMap<E, std::rc::Rc<Vec<(u32, E)>>>,
    pub dump: Vec<(String, bool)>,
    pub dump_max: usize,
    dump_every: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let _ = Z3_mk_solver_for_logic;
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let n = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, n.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                cache: HashMap::new(),
                bcache: HashMap::new(),
                sorts: HashMap::new(),
                asserted: vec![],
                queries: 0,
                n_sat: 0,
                n_unsat: 0,
                time: 0.0,
                max_time: 0.0,
                vars_of: HashMap::new(),
                dump: vec![],
                dump_max: 0,
                dump_every: 1,
            }
        }
    }
    pub fn version() -> String {
        unsafe {
            let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
            Z3_get_version(&mut a, &mut b, &mut c, &mut d);
            format!("{}.{}.{}", a, b, c)
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(ctx, w);
            Z3_inc_ref(ctx, s);
            s
        })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    /// width-1 expression as a Z3 Bool
    fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bcache.get(&e) {
            return p;
        }
        let n = ar.nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Eq if ar.w(n.a) == 1 => {
                    let a = self.boolean(ar, n.a);
                    let b = self.boolean(ar, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Xor if ar.get_const(n.b) == Some(1) => {
                    let a = self.boolean(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let b = self.boolean(ar, n.b);
                    let d = self.boolean(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.bv(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bcache.insert(e, r);
        r
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        let n = ar.nodes[e as usize];
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(ar.get_const(e).unwrap(), w),
                Op::Var => {
                    let nm = CString::new(format!("v{}", n.a)).unwrap();
                    let s = self.sort(w);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(ar, e);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let b = self.bv(ar, n.b);
                    let d = self.bv(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::ZExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                op => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.cache.insert(e, r);
        r
    }
    fn vars(&mut self, ar: &Arena, e: E) -> std::rc::Rc<Vec<(u32, E)>> {
        if let Some(v) = self.vars_of.get(&e) {
            return v.clone();
        }
        let n = ar.nodes[e as usize];
        let mut out: Vec<(u32, E)> = vec![];
        let kids: Vec<E> = match n.op {
            Op::Const => vec![],
            Op::Var => {
                out.push((n.a, e));
                vec![]
            }
            Op::ZExt | Op::SExt | Op::Extract => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        };
        for k in kids {
            for &x in self.vars(ar, k).iter() {
                if !out.contains(&x) {
                    out.push(x);
                }
            }
        }
        let r = std::rc::Rc::new(out);
        self.vars_of.insert(e, r.clone());
        r
    }
    /// is path /\ extra satisfiable?
    pub fn check(&mut self, ar: &Arena, path: &[E], extra: E) -> Sat {
        let t0 = Instant::now();
        unsafe {
            let mut common = 0;
            while common < path.len() && common < self.asserted.len() && path[common] == self.asserted[common] {
                common += 1;
            }
            if self.asserted.len() > common {
                Z3_solver_pop(self.ctx, self.s, (self.asserted.len() - common) as c_uint);
                self.asserted.truncate(common);
            }
            for &e in &path[common..] {
                let b = self.boolean(ar, e);
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, b);
                self.asserted.push(e);
            }
            let x = self.boolean(ar, extra);
            Z3_solver_push(self.ctx, self.s);
            Z3_solver_assert(self.ctx, self.s, x);
            let r = Z3_solver_check(self.ctx, self.s);
            self.queries += 1;
            if self.dump.len() < self.dump_max && self.queries % self.dump_every == 0 && r != 0 {
                let st = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().to_string();
                self.dump.push((st, r == 1));
                if self.dump.len() * 2 > self.dump_max {
                    self.dump_every *= 4;
                }
            }
            let res = if r == 1 {
                self.n_sat += 1;
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = HashMap::new();
                let mut all: Vec<E> = path.to_vec();
                all.push(extra);
                for e in all {
                    for &(v, ve) in self.vars(ar, e).iter() {
                        if out.contains_key(&v) {
                            continue;
                        }
                        let a = self.bv(ar, ve);
                        let mut val: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, m, a, true, &mut val) {
                            eprintln!("ENGINE-ERROR: model eval failed");
                            std::process::exit(70);
                        }
                        Z3_inc_ref(self.ctx, val);
                        let mut u = 0u64;
                        let num = if Z3_get_numeral_uint64(self.ctx, val, &mut u) {
                            u as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.ctx, val)).to_str().unwrap().parse().unwrap()
                        };
                        out.insert(v, num);
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Sat::Sat(out)
            } else if r == -1 {
                self.n_unsat += 1;
                Sat::Unsat
            } else {
                eprintln!("ENGINE-ERROR: solver returned unknown (timeout)");
                std::process::exit(71);
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            res
        }
    }
}
