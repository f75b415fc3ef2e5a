//! Binding to z3's C API and the translation of terms.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_del_config(c: P);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_const(c: Ctx, s: P, ty: Sort) -> Ast;
    fn Z3_mk_bv_numeral(c: Ctx, n: c_uint, bits: *const bool) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_iff(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: P) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> P;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: P);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_eval(c: Ctx, m: P, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_get_numeral_binary_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e)));
    }
    std::process::exit(3);
}

pub enum Res {
    /// values of variables and of hash terms
    Sat(HashMap<u32, Limbs>, Vec<(Eid, Limbs)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    ctx: Ctx,
    cache: HashMap<Eid, Ast>,
    cacheb: HashMap<Eid, Ast>,
    pub queries: u64,
    pub time: f64,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    pub dumped: u64,
    pub seed: u32,
    built: u64,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        Smt {
            ctx: Self::mkctx(),
            cache: HashMap::new(),
            cacheb: HashMap::new(),
            queries: 0,
            time: 0.0,
            timeout_ms,
            dump: None,
            dumped: 0,
            seed: 1,
            built: 0,
        }
    }
    fn mkctx() -> Ctx {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            ctx
        }
    }
    fn sym(&self, s: &str) -> P {
        let c = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.ctx, c.as_ptr()) }
    }
    fn num(&self, l: &[u64], w: u32) -> Ast {
        let bits: Vec<bool> = (0..w).map(|i| big::bit(l, i)).collect();
        unsafe { Z3_mk_bv_numeral(self.ctx, w, bits.as_ptr()) }
    }
    fn bool_(&mut self, p: &Pool, e: Eid) -> Ast {
        debug_assert_eq!(p.w(e), 1);
        if let Some(a) = self.cacheb.get(&e) {
            return *a;
        }
        self.built += 1;
        let c = self.ctx;
        let r = unsafe {
            match p.n(e).clone() {
                Node::Const(l) => {
                    if l[0] == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Not(a) => {
                    let x = self.bool_(p, a);
                    Z3_mk_not(c, x)
                }
                Node::Eq(a, b) => {
                    if p.w(a) == 1 {
                        let (x, y) = (self.bool_(p, a), self.bool_(p, b));
                        Z3_mk_iff(c, x, y)
                    } else {
                        let (x, y) = (self.bv(p, a), self.bv(p, b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Node::Ult(a, b) => {
                    let (x, y) = (self.bv(p, a), self.bv(p, b));
                    Z3_mk_bvult(c, x, y)
                }
                Node::Slt(a, b) => {
                    let (x, y) = (self.bv(p, a), self.bv(p, b));
                    Z3_mk_bvslt(c, x, y)
                }
                Node::Bin(Bop::And, a, b) => {
                    let v = [self.bool_(p, a), self.bool_(p, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Bin(Bop::Or, a, b) => {
                    let v = [self.bool_(p, a), self.bool_(p, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Ite(i, a, b) => {
                    let (x, y, z) = (self.bool_(p, i), self.bool_(p, a), self.bool_(p, b));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bv(p, e);
                    let one = self.num(&[1], 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.cacheb.insert(e, r);
        r
    }
    fn bv(&mut self, p: &Pool, e: Eid) -> Ast {
        if let Some(a) = self.cache.get(&e) {
            return *a;
        }
        self.built += 1;
        let c = self.ctx;
        let w = p.w(e);
        let r = unsafe {
            match p.n(e).clone() {
                Node::Const(l) => self.num(&l, w),
                Node::Var(i) => {
                    let s = self.sym(&format!("v{}_{}", i, w));
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, w))
                }
                Node::Hash(..) => {
                    let s = self.sym(&format!("h{}", e));
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, w))
                }
                Node::Bin(op, a, b) => {
                    if w == 1 && matches!(op, Bop::And | Bop::Or) {
                        let x = self.bool_(p, e);
                        let (o, z) = (self.num(&[1], 1), self.num(&[0], 1));
                        Z3_mk_ite(c, x, o, z)
                    } else {
                        let (x, y) = (self.bv(p, a), self.bv(p, b));
                        match op {
                            Bop::Add => Z3_mk_bvadd(c, x, y),
                            Bop::Mul => Z3_mk_bvmul(c, x, y),
                            Bop::UDiv => Z3_mk_bvudiv(c, x, y),
                            Bop::URem => Z3_mk_bvurem(c, x, y),
                            Bop::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Bop::SRem => Z3_mk_bvsrem(c, x, y),
                            Bop::And => Z3_mk_bvand(c, x, y),
                            Bop::Or => Z3_mk_bvor(c, x, y),
                            Bop::Xor => Z3_mk_bvxor(c, x, y),
                            Bop::Shl => Z3_mk_bvshl(c, x, y),
                            Bop::LShr => Z3_mk_bvlshr(c, x, y),
                            Bop::AShr => Z3_mk_bvashr(c, x, y),
                        }
                    }
                }
                Node::Concat(v) => {
                    let mut r = self.bv(p, v[0]);
                    for x in v[1..].iter() {
                        let y = self.bv(p, *x);
                        r = Z3_mk_concat(c, y, r);
                    }
                    r
                }
                Node::Extract(a, lo) => {
                    let x = self.bv(p, a);
                    Z3_mk_extract(c, lo + w - 1, lo, x)
                }
                Node::SExt(a) => {
                    let x = self.bv(p, a);
                    Z3_mk_sign_ext(c, w - p.w(a), x)
                }
                Node::Ite(i, a, b) => {
                    let (x, y, z) = (self.bool_(p, i), self.bv(p, a), self.bv(p, b));
                    Z3_mk_ite(c, x, y, z)
                }
                Node::Not(_) | Node::Eq(..) | Node::Ult(..) | Node::Slt(..) => {
                    let x = self.bool_(p, e);
                    let (o, z) = (self.num(&[1], 1), self.num(&[0], 1));
                    Z3_mk_ite(c, x, o, z)
                }
            }
        };
        self.cache.insert(e, r);
        r
    }

    pub fn check(&mut self, p: &mut Pool, cs: &[Eid], want_model: bool) -> Res {
        let t0 = std::time::Instant::now();
        if self.built > 4_000_000 {
            unsafe { Z3_del_context(self.ctx) };
            self.ctx = Self::mkctx();
            self.cache.clear();
            self.cacheb.clear();
            self.built = 0;
        }
        self.queries += 1;
        // collect the hash terms, variables and divisions
        let mut seen = std::collections::HashSet::new();
        let mut stack: Vec<Eid> = cs.to_vec();
        let mut hashes: Vec<Eid> = vec![];
        let mut vars: Vec<Eid> = vec![];
        let mut consts: Vec<Eid> = vec![];
        let mut rems: Vec<Eid> = vec![];
        let mut extra: Vec<Eid> = vec![];
        while let Some(e) = stack.pop() {
            if !seen.insert(e) {
                continue;
            }
            match p.n(e) {
                Node::Hash(..) => hashes.push(e),
                Node::Var(_) => vars.push(e),
                Node::Const(l) if l.len() > 2 => consts.push(e),
                Node::Bin(Bop::URem, _, _) if p.w(e) > 64 => rems.push(e),
                _ => {}
            }
            p.children(e, &mut stack);
        }
        hashes.sort();
        // injectivity of the ideal hash
        for i in 0..hashes.len() {
            for j in 0..i {
                let (a, b) = (hashes[i], hashes[j]);
                let (Node::Hash(g1, x), Node::Hash(g2, y)) = (p.n(a).clone(), p.n(b).clone()) else { unreachable!() };
                if p.w(a) != p.w(b) {
                    continue;
                }
                let e = if g1 != g2 || p.w(x) != p.w(y) { 0 } else { p.eq(x, y) };
                // Pool::eq would turn a == b into e again, so state it at the solver level
                extra.push(a);
                extra.push(b);
                extra.push(e);
            }
            for k in consts.clone() {
                let a = hashes[i];
                if p.w(k) != p.w(a) {
                    continue;
                }
                if let Some((g2, y)) = p.known_hash.get(&k).copied() {
                    let Node::Hash(g1, x) = p.n(a).clone() else { unreachable!() };
                    let e = if g1 != g2 || p.w(x) != p.w(y) { 0 } else { p.eq(x, y) };
                    extra.push(a);
                    extra.push(k);
                    extra.push(e);
                }
            }
        }
        let _ = rems;
        unsafe {
            let c = self.ctx;
            let l = self.sym("QF_BV");
            let s = Z3_mk_solver_for_logic(c, l);
            Z3_solver_inc_ref(c, s);
            let pr = Z3_mk_params(c);
            Z3_params_inc_ref(c, pr);
            let k = self.sym("timeout");
            Z3_params_set_uint(c, pr, k, self.timeout_ms);
            let k = self.sym("random_seed");
            Z3_params_set_uint(c, pr, k, self.seed);
            Z3_solver_set_params(c, s, pr);
            for e in cs {
                let a = self.bool_(p, *e);
                Z3_solver_assert(c, s, a);
            }
            for t in extra.chunks(3) {
                let (a, b) = (self.bv(p, t[0]), self.bv(p, t[1]));
                let eq = Z3_mk_eq(c, a, b);
                let e = self.bool_(p, t[2]);
                let iff = Z3_mk_iff(c, eq, e);
                Z3_solver_assert(c, s, iff);
            }
            let r = Z3_solver_check(c, s);
            if let Some(d) = &self.dump {
                let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                let st = match r {
                    1 => "sat",
                    -1 => "unsat",
                    _ => "unknown",
                };
                let f = format!("{}/{}-{:06}.smt2", d, std::process::id(), self.dumped);
                self.dumped += 1;
                let _ = std::fs::write(f, format!("(set-logic QF_BV)\n; expect {}\n{}\n(check-sat)\n", st, txt));
            }
            let out = match r {
                -1 => Res::Unsat,
                1 => {
                    let mut m = HashMap::new();
                    let mut hs = vec![];
                    if want_model {
                        let md = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, md);
                        let mut get = |a: Ast, w: u32| -> Limbs {
                            let mut v: Ast = std::ptr::null_mut();
                            if !Z3_model_eval(c, md, a, true, &mut v) {
                                panic!("model eval");
                            }
                            let st = CStr::from_ptr(Z3_get_numeral_binary_string(c, v)).to_bytes();
                            let mut l = vec![0u64; nl(w)];
                            for (i, ch) in st.iter().rev().enumerate() {
                                if *ch == b'1' {
                                    l[i / 64] |= 1 << (i % 64);
                                }
                            }
                            l.into()
                        };
                        for v in &vars {
                            let Node::Var(i) = *p.n(*v) else { unreachable!() };
                            let a = self.cache.get(v).copied();
                            if let Some(a) = a {
                                m.insert(i, get(a, p.w(*v)));
                            }
                        }
                        for h in &hashes {
                            let a = self.cache.get(h).copied();
                            if let Some(a) = a {
                                hs.push((*h, get(a, p.w(*h))));
                            }
                        }
                        Z3_model_dec_ref(c, md);
                    }
                    Res::Sat(m, hs)
                }
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            self.time += t0.elapsed().as_secs_f64();
            out
        }
    }
}
