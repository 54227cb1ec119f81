//! Minimal hand-written binding to the Z3 C API plus the translation from our DAG.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::exit(3);
}

pub struct Z3 {
    ctx: P,
    fast: P,
    slow: P,
    memo_bv: FxMap<E, P>,
    memo_b: FxMap<E, P>,
    pub queries: u64,
    pub time: f64,
    pub max: f64,
    slow_ms: u32,
    pub slow_queries: u64,
    bvs: FxMap<u32, P>,
    bool_sort: P,
}

pub enum Ans {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(slow_ms: u32) -> Self {
        unsafe {
            let k = |s: &str| CString::new(s).unwrap();
            Z3_global_param_set(k("memory_max_size").as_ptr(), k("6000").as_ptr());
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, k("model").as_ptr(), k("true").as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let to = Z3_mk_string_symbol(ctx, k("timeout").as_ptr());
            let fast = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, fast);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, to, 1500);
            Z3_solver_set_params(ctx, fast, p);
            let slow = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, slow);
            Z3_params_set_uint(ctx, slow, to, slow_ms);
            let bool_sort = Z3_mk_bool_sort(ctx);
            Z3_inc_ref(ctx, bool_sort);
            Z3 {
                ctx,
                fast,
                slow,
                memo_bv: Default::default(),
                memo_b: Default::default(),
                queries: 0,
                time: 0.0,
                max: 0.0,
                slow_ms,
                slow_queries: 0,
                bvs: Default::default(),
                bool_sort,
            }
        }
    }
    fn bv(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.bvs.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(ctx, w);
            Z3_inc_ref(ctx, s);
            s
        })
    }
    /// Make sure every sub-expression is translated (iteratively, to keep the stack flat).
    fn prepare(&mut self, cx: &Ctx, e: E) {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            let done = if cx.w(x) == 1 { self.memo_b.contains_key(&x) } else { self.memo_bv.contains_key(&x) };
            if done {
                st.pop();
                continue;
            }
            let (k, c) = cx.kids(x);
            let mut miss = false;
            for &i in &k[..c] {
                let d = if cx.w(i) == 1 { self.memo_b.contains_key(&i) } else { self.memo_bv.contains_key(&i) };
                if !d {
                    st.push(i);
                    miss = true;
                }
            }
            if miss {
                continue;
            }
            self.build(cx, x);
            st.pop();
        }
    }
    fn get_bv(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(&p) = self.memo_bv.get(&e) {
            return p;
        }
        // a 1-bit expression used as a bit-vector
        assert_eq!(cx.w(e), 1);
        unsafe {
            let s = self.bv(1);
            let one = Z3_mk_unsigned_int64(self.ctx, 1, s);
            Z3_inc_ref(self.ctx, one);
            let zero = Z3_mk_unsigned_int64(self.ctx, 0, s);
            Z3_inc_ref(self.ctx, zero);
            let r = Z3_mk_ite(self.ctx, self.memo_b[&e], one, zero);
            Z3_inc_ref(self.ctx, r);
            self.memo_bv.insert(e, r);
            r
        }
    }
    fn build(&mut self, cx: &Ctx, e: E) {
        let n = cx.n(e);
        let c = self.ctx;
        unsafe {
            if n.w == 1 {
                let r = match n.op {
                    Op::Const => {
                        if cx.cv(e) == Some(1) {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), self.bool_sort),
                    Op::Not => Z3_mk_not(c, self.memo_b[&n.a]),
                    Op::And => Z3_mk_and(c, 2, [self.memo_b[&n.a], self.memo_b[&n.b]].as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, [self.memo_b[&n.a], self.memo_b[&n.b]].as_ptr()),
                    Op::Xor => Z3_mk_xor(c, self.memo_b[&n.a], self.memo_b[&n.b]),
                    Op::Eq => {
                        if cx.w(n.a) == 1 {
                            Z3_mk_eq(c, self.memo_b[&n.a], self.memo_b[&n.b])
                        } else {
                            Z3_mk_eq(c, self.memo_bv[&n.a], self.memo_bv[&n.b])
                        }
                    }
                    Op::Ult => {
                        let (a, b) = (self.get_bv(cx, n.a), self.get_bv(cx, n.b));
                        Z3_mk_bvult(c, a, b)
                    }
                    Op::Slt => {
                        let (a, b) = (self.get_bv(cx, n.a), self.get_bv(cx, n.b));
                        Z3_mk_bvslt(c, a, b)
                    }
                    Op::Ite => Z3_mk_ite(c, self.memo_b[&n.a], self.memo_b[&n.b], self.memo_b[&n.c]),
                    Op::Extract => {
                        let a = self.get_bv(cx, n.a);
                        let x = Z3_mk_extract(c, n.b, n.b, a);
                        Z3_inc_ref(c, x);
                        let s = self.bv(1);
                        let one = Z3_mk_unsigned_int64(c, 1, s);
                        Z3_inc_ref(c, one);
                        Z3_mk_eq(c, x, one)
                    }
                    o => panic!("1-bit {:?}", o),
                };
                Z3_inc_ref(c, r);
                self.memo_b.insert(e, r);
                return;
            }
            macro_rules! ab {
                ($f:ident) => {{
                    let (a, b) = (self.get_bv(cx, n.a), self.get_bv(cx, n.b));
                    $f(c, a, b)
                }};
            }
            let r = match n.op {
                Op::Const => {
                    let v = cx.cv(e).unwrap();
                    let s = self.bv(n.w as u32);
                    if v <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, v as u64, s)
                    } else {
                        let t = CString::new(format!("{}", v)).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = self.bv(n.w as u32);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), s)
                }
                Op::Not => {
                    let a = self.get_bv(cx, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Add => ab!(Z3_mk_bvadd),
                Op::Sub => ab!(Z3_mk_bvsub),
                Op::Mul => ab!(Z3_mk_bvmul),
                Op::UDiv => ab!(Z3_mk_bvudiv),
                Op::URem => ab!(Z3_mk_bvurem),
                Op::SDiv => ab!(Z3_mk_bvsdiv),
                Op::SRem => ab!(Z3_mk_bvsrem),
                Op::Shl => ab!(Z3_mk_bvshl),
                Op::LShr => ab!(Z3_mk_bvlshr),
                Op::AShr => ab!(Z3_mk_bvashr),
                Op::And => ab!(Z3_mk_bvand),
                Op::Or => ab!(Z3_mk_bvor),
                Op::Xor => ab!(Z3_mk_bvxor),
                Op::Concat => ab!(Z3_mk_concat),
                Op::Extract => {
                    let a = self.get_bv(cx, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::ZExt => {
                    let a = self.get_bv(cx, n.a);
                    Z3_mk_zero_ext(c, (n.w - cx.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.get_bv(cx, n.a);
                    Z3_mk_sign_ext(c, (n.w - cx.w(n.a)) as c_uint, a)
                }
                Op::Ite => {
                    let (a, b) = (self.get_bv(cx, n.b), self.get_bv(cx, n.c));
                    Z3_mk_ite(c, self.memo_b[&n.a], a, b)
                }
                o => panic!("bv {:?}", o),
            };
            Z3_inc_ref(c, r);
            self.memo_bv.insert(e, r);
        }
    }
    pub fn check(&mut self, cx: &mut Ctx, cs: &[E], limit_ms: u32) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        for &e in cs {
            self.prepare(cx, e);
        }
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.fast);
            for &e in cs {
                Z3_solver_assert(self.ctx, self.fast, self.memo_b[&e]);
            }
            let mut r = Z3_solver_check(self.ctx, self.fast);
            let mut solver = self.fast;
            let mut tmp = None;
            if r == 0 {
                self.slow_queries += 1;
                let l = CString::new("QF_BV").unwrap();
                solver = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
                Z3_solver_inc_ref(self.ctx, solver);
                tmp = Some(solver);
                let to = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.ctx, self.slow, Z3_mk_string_symbol(self.ctx, to.as_ptr()), self.slow_ms.min(limit_ms));
                Z3_solver_set_params(self.ctx, solver, self.slow);
                for &e in cs {
                    Z3_solver_assert(self.ctx, solver, self.memo_b[&e]);
                }
                r = Z3_solver_check(self.ctx, solver);
            }
            let a = match r {
                -1 => Ans::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.ctx, solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vars: Vec<u32> = vec![];
                    for &e in cs {
                        vars.extend(cx.vars_of(e).iter());
                    }
                    vars.sort_unstable();
                    vars.dedup();
                    let mut out = vec![];
                    for v in vars {
                        let w = cx.vars[v as usize].0;
                        let sort = if w == 1 { self.bool_sort } else { self.bv(w as u32) };
                        let t = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, v as c_int), sort);
                        Z3_inc_ref(self.ctx, t);
                        let mut val: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, m, t, true, &mut val) {
                            panic!("model eval");
                        }
                        Z3_inc_ref(self.ctx, val);
                        let x = if w == 1 {
                            (Z3_get_bool_value(self.ctx, val) == 1) as u128
                        } else {
                            let mut u = 0u64;
                            if Z3_get_numeral_uint64(self.ctx, val, &mut u) {
                                u as u128
                            } else {
                                CStr::from_ptr(Z3_get_numeral_string(self.ctx, val)).to_str().unwrap().parse().unwrap()
                            }
                        };
                        out.push((v, x));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Ans::Sat(out)
                }
                _ => Ans::Unknown,
            };
            if let Some(s) = tmp {
                Z3_solver_dec_ref(self.ctx, s);
            }
            a
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max {
            self.max = dt;
        }
        r
    }
}
