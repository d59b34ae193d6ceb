//! Minimal hand-written binding to libz3 and the translation of expressions.
use crate::expr::*;
use crate::ir::Bin;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sym = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Cfg = *mut c_void;
type Params = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_set_param_value(c: Cfg, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Cfg) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, comp: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_dec_ref(c: Ctx, p: Params);
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: Ctx, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub enum Ans {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: Ctx,
    solver: Solver,
    bv: FxMap<u32, Ast>,
    bo: FxMap<u32, Ast>,
    vars: Vec<Ast>,
    domc: FxMap<(u16, Set), Ast>,
    uses: u32,
    nums: FxMap<(u128, u32), Ast>,
    pub queries: u64,
    pub dump: bool,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    timeout_ms: u32,
    cur_ms: u32,
    /// no more solving past this time, nor past this many unanswered queries
    pub deadline: Instant,
    pub max_unknown: u64,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mut z = Z3 {
                ctx,
                solver: std::ptr::null_mut(),
                bv: Default::default(),
                bo: Default::default(),
                vars: vec![],
                domc: Default::default(),
                uses: 0,
                nums: Default::default(),
                queries: 0,
            dump: std::env::var("VP_DUMPZ3").is_ok(),
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                cur_ms: timeout_ms,
                deadline: Instant::now() + std::time::Duration::from_secs(1 << 30),
                max_unknown: u64::MAX,
            };
            let s8 = Z3_mk_bv_sort(ctx, 8);
            Z3_inc_ref(ctx, s8);
            for i in 0..128 {
                let sy = Z3_mk_int_symbol(ctx, i);
                let a = Z3_mk_const(ctx, sy, s8);
                Z3_inc_ref(ctx, a);
                z.vars.push(a);
            }
            z.fresh_solver();
            z
        }
    }
    unsafe fn fresh_solver(&mut self) {
        if !self.solver.is_null() {
            Z3_solver_dec_ref(self.ctx, self.solver);
        }
        let l = CString::new("QF_BV").unwrap();
        let sy = Z3_mk_string_symbol(self.ctx, l.as_ptr());
        self.solver = Z3_mk_solver_for_logic(self.ctx, sy);
        Z3_solver_inc_ref(self.ctx, self.solver);
        self.uses = 0;
        self.set_timeout(self.timeout_ms);
    }
    unsafe fn set_timeout(&mut self, ms: u32) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), ms);
        Z3_solver_set_params(self.ctx, self.solver, p);
        Z3_params_dec_ref(self.ctx, p);
        self.cur_ms = ms;
    }
    unsafe fn num(&mut self, c: u128, w: u32) -> Ast {
        if let Some(&a) = self.nums.get(&(c, w)) {
            return a;
        }
        let s = Z3_mk_bv_sort(self.ctx, w);
        self.keep(s);
        let a = if w <= 64 {
            Z3_mk_unsigned_int64(self.ctx, c as u64, s)
        } else {
            let t = CString::new(c.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, t.as_ptr(), s)
        };
        self.keep(a);
        self.nums.insert((c, w), a);
        a
    }
    unsafe fn keep(&mut self, a: Ast) -> Ast {
        Z3_inc_ref(self.ctx, a);
        a
    }
    unsafe fn tr_bool(&mut self, ar: &Arena, e: u32) -> Ast {
        if let Some(&a) = self.bo.get(&e) {
            return a;
        }
        let nd = ar.nodes[e as usize].clone();
        assert_eq!(nd.w, 1);
        let c = self.ctx;
        let r = match nd.n {
            N::Const(0) => Z3_mk_false(c),
            N::Const(_) => Z3_mk_true(c),
            N::Bin(Bin::And, a, b) => {
                let v = [self.tr_bool(ar, a), self.tr_bool(ar, b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            N::Bin(Bin::Or, a, b) => {
                let v = [self.tr_bool(ar, a), self.tr_bool(ar, b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            N::Bin(Bin::Xor, a, b) => {
                if b == Arena::T {
                    let x = self.tr_bool(ar, a);
                    Z3_mk_not(c, x)
                } else {
                    let x = self.tr_bool(ar, a);
                    let y = self.tr_bool(ar, b);
                    Z3_mk_xor(c, x, y)
                }
            }
            N::Cmp(k, a, b) => {
                let x = self.tr(ar, a);
                let y = self.tr(ar, b);
                match k {
                    CmpK::Eq => Z3_mk_eq(c, x, y),
                    CmpK::Ult => Z3_mk_bvult(c, x, y),
                    CmpK::Slt => Z3_mk_bvslt(c, x, y),
                }
            }
            N::Ite(k, a, b) => {
                let k = self.tr_bool(ar, k);
                let x = self.tr_bool(ar, a);
                let y = self.tr_bool(ar, b);
                Z3_mk_ite(c, k, x, y)
            }
            _ => {
                let x = self.tr_bv_raw(ar, e);
                self.keep(x);
                let one = self.num(1, 1);
                Z3_mk_eq(c, x, one)
            }
        };
        self.keep(r);
        self.bo.insert(e, r);
        r
    }
    unsafe fn tr(&mut self, ar: &Arena, e: u32) -> Ast {
        if let Some(&a) = self.bv.get(&e) {
            return a;
        }
        let nd = &ar.nodes[e as usize];
        let r = if nd.w == 1 && matches!(nd.n, N::Bin(Bin::And | Bin::Or | Bin::Xor, ..) | N::Cmp(..) | N::Ite(..)) {
            let b = self.tr_bool(ar, e);
            let one = self.num(1, 1);
            let zero = self.num(0, 1);
            Z3_mk_ite(self.ctx, b, one, zero)
        } else {
            self.tr_bv_raw(ar, e)
        };
        self.keep(r);
        self.bv.insert(e, r);
        r
    }
    unsafe fn tr_bv_raw(&mut self, ar: &Arena, e: u32) -> Ast {
        let nd = ar.nodes[e as usize].clone();
        let c = self.ctx;
        match nd.n {
            N::Const(k) => self.num(k, nd.w),
            N::Var(v) => self.vars[v as usize],
            N::Bin(op, a, b) => {
                let x = self.tr(ar, a);
                let y = self.tr(ar, b);
                match op {
                    Bin::Add => Z3_mk_bvadd(c, x, y),
                    Bin::Sub => Z3_mk_bvsub(c, x, y),
                    Bin::Mul => Z3_mk_bvmul(c, x, y),
                    Bin::UDiv => Z3_mk_bvudiv(c, x, y),
                    Bin::URem => Z3_mk_bvurem(c, x, y),
                    Bin::SDiv => Z3_mk_bvsdiv(c, x, y),
                    Bin::SRem => Z3_mk_bvsrem(c, x, y),
                    Bin::And => Z3_mk_bvand(c, x, y),
                    Bin::Or => Z3_mk_bvor(c, x, y),
                    Bin::Xor => Z3_mk_bvxor(c, x, y),
                    Bin::Shl => Z3_mk_bvshl(c, x, y),
                    Bin::LShr => Z3_mk_bvlshr(c, x, y),
                    Bin::AShr => Z3_mk_bvashr(c, x, y),
                }
            }
            N::Cmp(..) => unreachable!(),
            N::ZExt(a) => {
                let x = self.tr(ar, a);
                Z3_mk_zero_ext(c, nd.w - ar.w(a), x)
            }
            N::SExt(a) => {
                let x = self.tr(ar, a);
                Z3_mk_sign_ext(c, nd.w - ar.w(a), x)
            }
            N::Ext(a, lo) => {
                let x = self.tr(ar, a);
                Z3_mk_extract(c, lo + nd.w - 1, lo, x)
            }
            N::Cat(h, l) => {
                let x = self.tr(ar, h);
                let y = self.tr(ar, l);
                Z3_mk_concat(c, x, y)
            }
            N::Ite(k, a, b) => {
                let k = self.tr_bool(ar, k);
                let x = self.tr(ar, a);
                let y = self.tr(ar, b);
                Z3_mk_ite(c, k, x, y)
            }
            N::Tab(t, i) => {
                let idx = self.tr(ar, i);
                let inode = &ar.nodes[i as usize];
                let iw = inode.w;
                let n = ar.tables[t as usize].data.len() as u128;
                let nb = ((nd.w + 7) / 8) as u128;
                let mut ent: Vec<(u128, u128)> = vec![];
                let mut o = 0u128;
                while o + nb <= n {
                    if o & inode.kz == 0 && !o & inode.ko == 0 {
                        ent.push((o, ar.tab_read(t, o, nd.w)));
                    }
                    o += 1;
                }
                // run-length segments
                let mut seg: Vec<(u128, u128)> = vec![];
                for (o, v) in ent {
                    if seg.last().map_or(true, |l| l.1 != v) {
                        seg.push((o, v));
                    }
                }
                if seg.is_empty() {
                    return self.num(0, nd.w);
                }
                self.seg_tree(&seg, idx, iw, nd.w)
            }
        }
    }
    unsafe fn seg_tree(&mut self, seg: &[(u128, u128)], idx: Ast, iw: u32, w: u32) -> Ast {
        if seg.len() == 1 {
            let r = self.num(seg[0].1, w);
            return self.keep(r);
        }
        let mid = seg.len() / 2;
        let l = self.seg_tree(&seg[..mid], idx, iw, w);
        let r = self.seg_tree(&seg[mid..], idx, iw, w);
        let k = self.num(seg[mid].0, iw);
        self.keep(k);
        let c = Z3_mk_bvult(self.ctx, idx, k);
        self.keep(c);
        let r = Z3_mk_ite(self.ctx, c, l, r);
        self.keep(r)
    }
    unsafe fn dom(&mut self, v: u16, s: &Set) -> Ast {
        if let Some(&a) = self.domc.get(&(v, *s)) {
            return a;
        }
        let c = self.ctx;
        let mut parts: Vec<Ast> = vec![];
        let mut i = 0usize;
        while i < 256 {
            if set_has(s, i as u8) {
                let st = i;
                while i + 1 < 256 && set_has(s, (i + 1) as u8) {
                    i += 1;
                }
                let a = self.num(st as u128, 8);
                self.keep(a);
                let b = self.num(i as u128, 8);
                self.keep(b);
                let var = self.vars[v as usize];
                let p = if st == i {
                    Z3_mk_eq(c, var, a)
                } else {
                    let x = Z3_mk_bvule(c, a, var);
                    self.keep(x);
                    let y = Z3_mk_bvule(c, var, b);
                    self.keep(y);
                    let v = [x, y];
                    Z3_mk_and(c, 2, v.as_ptr())
                };
                self.keep(p);
                parts.push(p);
            }
            i += 1;
        }
        let r = if parts.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) };
        self.keep(r);
        self.domc.insert((v, *s), r);
        r
    }
    /// satisfiability of: domains of the listed vars, constraints, all conjoined
    pub fn check(&mut self, ar: &Arena, doms: &[(u16, Set)], cons: &[u32], base: &[u8]) -> Ans {
        let t0 = Instant::now();
        if t0 > self.deadline || self.unknown > self.max_unknown {
            self.unknown += 1;
            return Ans::Unknown;
        }
        let r = unsafe {
            let left = (self.deadline - t0).as_millis();
            if left < self.timeout_ms as u128 {
                self.set_timeout(left as u32 + 500);
            } else if self.cur_ms != self.timeout_ms {
                self.set_timeout(self.timeout_ms);
            }
            self.uses += 1;
            if self.uses > 2000 {
                self.fresh_solver();
            }
            Z3_solver_push(self.ctx, self.solver);
            for (v, s) in doms {
                if *s != FULL {
                    let a = self.dom(*v, s);
                    Z3_solver_assert(self.ctx, self.solver, a);
                }
            }
            for &e in cons {
                let a = self.tr_bool(ar, e);
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut model = base.to_vec();
                    for (v, _) in doms {
                        let mut a: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, self.vars[*v as usize], true, &mut a) {
                            Z3_inc_ref(self.ctx, a);
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(self.ctx, a, &mut u);
                            Z3_dec_ref(self.ctx, a);
                            if model.len() <= *v as usize {
                                model.resize(*v as usize + 1, 0);
                            }
                            model[*v as usize] = u as u8;
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Ans::Sat(model)
                }
                -1 => Ans::Unsat,
                _ => Ans::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        if self.dump && self.queries % 97 == 0 {
            eprintln!("Z3 {} {:?}", match r { Ans::Sat(_) => "sat", Ans::Unsat => "unsat", _ => "unk" }, cons.iter().map(|c| ar.show(*c)).collect::<Vec<_>>());
            for (v, s) in doms {
                let l: String = (0..=255u8).filter(|x| set_has(s, *x)).map(|x| format!("{:?} ", x as char)).collect();
                eprintln!("    v{} {}", v, &l[..l.len().min(300)]);
            }
        }
        match r {
            Ans::Sat(_) => self.sat += 1,
            Ans::Unsat => self.unsat += 1,
            Ans::Unknown => self.unknown += 1,
        }
        r
    }
}
