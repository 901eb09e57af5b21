//! Minimal bindings to the Z3 C API: an incremental bit-vector solver over `term::T`.

use crate::term::{mask, Arena, Fx, Node, T};
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::{Duration, Instant};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}

extern "C" fn on_error(_c: P, _e: c_int) {}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: HashMap<T, P, Fx>,
    bl: HashMap<T, P, Fx>,
    stack: Vec<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub slowest: Duration,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            // Z3_mk_context keeps one reference to every AST until the context dies.
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Z3_params_dec_ref(ctx, p);
            Solver {
                ctx,
                solver,
                bv: Default::default(),
                bl: Default::default(),
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Duration::ZERO,
                slowest: Duration::ZERO,
            }
        }
    }

    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }

    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            if let Ok(x) = u64::try_from(v) {
                Z3_mk_unsigned_int64(self.ctx, x, s)
            } else {
                let c = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, c.as_ptr(), s)
            }
        }
    }

    fn to_bool(&mut self, ar: &Arena, t: T) -> P {
        if let Some(&p) = self.bl.get(&t) {
            return p;
        }
        let c = self.ctx;
        let r = unsafe {
            match ar.node(t) {
                Node::Const(v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Not(a) => {
                    let x = self.to_bool(ar, a);
                    Z3_mk_not(c, x)
                }
                Node::And(a, b) => {
                    let v = [self.to_bool(ar, a), self.to_bool(ar, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Or(a, b) => {
                    let v = [self.to_bool(ar, a), self.to_bool(ar, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Xor(a, b) => {
                    let (x, y) = (self.to_bool(ar, a), self.to_bool(ar, b));
                    Z3_mk_xor(c, x, y)
                }
                Node::Eq(a, b) => {
                    if ar.w(a) == 1 {
                        let (x, y) = (self.to_bool(ar, a), self.to_bool(ar, b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.to_bv(ar, a), self.to_bv(ar, b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Node::Ult(a, b) => {
                    let (x, y) = (self.to_bv(ar, a), self.to_bv(ar, b));
                    Z3_mk_bvult(c, x, y)
                }
                Node::Ite(a, x, y) => {
                    let (p, q, r) =
                        (self.to_bool(ar, a), self.to_bool(ar, x), self.to_bool(ar, y));
                    Z3_mk_ite(c, p, q, r)
                }
                _ => {
                    let x = self.to_bv(ar, t);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        self.bl.insert(t, r);
        r
    }

    fn to_bv(&mut self, ar: &Arena, t: T) -> P {
        if let Some(&p) = self.bv.get(&t) {
            return p;
        }
        let r = self.node_bv(ar, ar.node(t), ar.w(t), t);
        let r = self.keep(r);
        self.bv.insert(t, r);
        r
    }

    /// `t` is used only for comparisons
    fn node_bv(&mut self, ar: &Arena, node: Node, w: u16, t: T) -> P {
        let c = self.ctx;
        macro_rules! bin {
            ($f:ident,$a:expr,$b:expr) => {{
                let (x, y) = (self.to_bv(ar, $a), self.to_bv(ar, $b));
                $f(c, x, y)
            }};
        }
        unsafe {
            match node {
                Node::Const(v) => self.num(w, v),
                Node::Var(i) => {
                    let s = Z3_mk_bv_sort(c, w as c_uint);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s)
                }
                Node::Not(a) => {
                    let x = self.to_bv(ar, a);
                    Z3_mk_bvnot(c, x)
                }
                Node::And(a, b) => bin!(Z3_mk_bvand, a, b),
                Node::Or(a, b) => bin!(Z3_mk_bvor, a, b),
                Node::Xor(a, b) => bin!(Z3_mk_bvxor, a, b),
                Node::Add(a, b) => bin!(Z3_mk_bvadd, a, b),
                Node::Sub(a, b) => bin!(Z3_mk_bvsub, a, b),
                Node::Mul(a, b) => bin!(Z3_mk_bvmul, a, b),
                Node::UDiv(a, b) => bin!(Z3_mk_bvudiv, a, b),
                Node::URem(a, b) => bin!(Z3_mk_bvurem, a, b),
                Node::SDiv(a, b) => bin!(Z3_mk_bvsdiv, a, b),
                Node::SRem(a, b) => bin!(Z3_mk_bvsrem, a, b),
                Node::Shl(a, b) => bin!(Z3_mk_bvshl, a, b),
                Node::LShr(a, b) => bin!(Z3_mk_bvlshr, a, b),
                Node::AShr(a, b) => bin!(Z3_mk_bvashr, a, b),
                Node::Concat(a, b) => bin!(Z3_mk_concat, a, b),
                Node::Extract(a, lo) => {
                    let x = self.to_bv(ar, a);
                    Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x)
                }
                Node::SExt(a) => {
                    let x = self.to_bv(ar, a);
                    Z3_mk_sign_ext(c, (w - ar.w(a)) as c_uint, x)
                }
                Node::Eq(..) | Node::Ult(..) => {
                    let x = match (node, t) {
                        (Node::Eq(x, y), T::MAX) => {
                            let (x, y) = (self.to_bv(ar, x), self.to_bv(ar, y));
                            Z3_mk_eq(c, x, y)
                        }
                        (Node::Ult(x, y), T::MAX) => {
                            let (x, y) = (self.to_bv(ar, x), self.to_bv(ar, y));
                            Z3_mk_bvult(c, x, y)
                        }
                        _ => self.to_bool(ar, t),
                    };
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, x, o, z)
                }
                Node::Ite(a, x, y) => {
                    let p = self.to_bool(ar, a);
                    let (q, r) = (self.to_bv(ar, x), self.to_bv(ar, y));
                    Z3_mk_ite(c, p, q, r)
                }
            }
        }
    }

    /// Is `pc /\ extra` satisfiable? On Sat, a value for every variable of the arena.
    pub fn check(&mut self, ar: &Arena, pc: &[T], extra: T) -> (Sat, Option<Vec<u128>>) {
        let t0 = Instant::now();
        let mut common = 0;
        while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
            common += 1;
        }
        unsafe {
            let pops = self.stack.len() - common;
            if pops > 0 {
                Z3_solver_pop(self.ctx, self.solver, pops as c_uint);
                self.stack.truncate(common);
            }
            for &t in &pc[common..] {
                let a = self.to_bool(ar, t);
                Z3_solver_push(self.ctx, self.solver);
                Z3_solver_assert(self.ctx, self.solver, a);
                self.stack.push(t);
            }
            let e = self.to_bool(ar, extra);
            Z3_solver_push(self.ctx, self.solver);
            Z3_solver_assert(self.ctx, self.solver, e);
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = Vec::with_capacity(ar.vars.len());
                    for (i, &w) in ar.vars.iter().enumerate() {
                        let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
                        let v = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, i as c_int), s);
                        let mut o: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.ctx, m, v, true, &mut o);
                        assert!(ok, "model evaluation failed");
                        let mut x = 0u64;
                        let val = if w <= 64 && Z3_get_numeral_uint64(self.ctx, o, &mut x) {
                            x as u128
                        } else {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, o));
                            s.to_string_lossy().parse::<u128>().expect("numeral")
                        };
                        vals.push(val & mask(w));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    (Sat::Sat, Some(vals))
                }
                -1 => {
                    self.unsat += 1;
                    (Sat::Unsat, None)
                }
                _ => {
                    self.unknown += 1;
                    (Sat::Unknown, None)
                }
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            let ec = Z3_get_error_code(self.ctx);
            if ec != 0 {
                panic!("z3 error code {ec}");
            }
            self.queries += 1;
            let dt = t0.elapsed();
            self.time += dt;
            if dt > self.slowest {
                self.slowest = dt;
            }
            out
        }
    }

    /// Asks the solver to confirm that every listed simplification is an
    /// identity, a batch per query. `Err` gives the first batch it does not
    /// confirm.
    pub fn certify(&mut self, ar: &Arena, obs: &[(Node, u16, T)]) -> Result<u64, String> {
        let t0 = Instant::now();
        let mut n = 0;
        unsafe {
            if !self.stack.is_empty() {
                Z3_solver_pop(self.ctx, self.solver, self.stack.len() as c_uint);
                self.stack.clear();
            }
            for batch in obs.chunks(48) {
                let mut v = Vec::with_capacity(batch.len());
                for &(node, w, r) in batch {
                    let x = self.node_bv(ar, node, w, T::MAX);
                    let y = self.to_bv(ar, r);
                    v.push(Z3_mk_not(self.ctx, Z3_mk_eq(self.ctx, x, y)));
                }
                let or = Z3_mk_or(self.ctx, v.len() as c_uint, v.as_ptr());
                Z3_solver_push(self.ctx, self.solver);
                Z3_solver_assert(self.ctx, self.solver, or);
                let q0 = Instant::now();
                let r = Z3_solver_check(self.ctx, self.solver);
                Z3_solver_pop(self.ctx, self.solver, 1);
                self.slowest = self.slowest.max(q0.elapsed());
                self.queries += 1;
                match r {
                    -1 => self.unsat += 1,
                    _ => {
                        return Err(format!("simplification not confirmed ({r}): {:?}", batch));
                    }
                }
                n += batch.len() as u64;
            }
        }
        self.time += t0.elapsed();
        Ok(n)
    }

    #[allow(dead_code)]
    pub fn show(&mut self, ar: &Arena, t: T) -> String {
        unsafe {
            let p = self.to_bool(ar, t);
            std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, p)).to_string_lossy().into_owned()
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
}
