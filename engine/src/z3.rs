//! Minimal Z3 C-API binding and the translation of expressions to SMT bit-vectors.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type Ctx = *mut c_void;
pub type Ast = *mut c_void;
type Solver = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Ast;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Ast) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Ast) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, comp: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
}
extern "C" fn on_err(c: Ctx, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(4);
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    bv: Vec<Ast>,
    bl: Vec<Ast>,
    sorts: std::cell::RefCell<FxMap<u32, *mut c_void>>,
    nums: std::cell::RefCell<FxMap<(u32, u128), Ast>>,
    preds: FxMap<(u32, Set256), Ast>,
    hard_seen: FxMap<E, bool>,
    pub narrowed: u64,
    pub retried: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time_us: u64,
    pub max_us: u64,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let k = CString::new("rlimit").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let _ = Z3_global_param_set as usize;
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, bv: vec![], bl: vec![], sorts: Default::default(), nums: Default::default(), preds: Default::default(), hard_seen: Default::default(), narrowed: 0, retried: 0, queries: 0, sat: 0, unsat: 0, time_us: 0, max_us: 0 }
        }
    }
    fn sort(&self, w: u32) -> *mut c_void {
        let mut t = self.sorts.borrow_mut();
        *t.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            Z3_inc_ref(self.c, s as Ast);
            s as *mut c_void
        })
    }
    fn num(&self, w: u32, v: u128) -> Ast {
        let mut t = self.nums.borrow_mut();
        *t.entry((w, v)).or_insert_with(|| unsafe {
            let t = self.sort(w);
            let a = if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, t)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            };
            self.keep(a)
        })
    }
    fn keep(&self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    pub fn num_(&mut self, w: u32, v: u128) -> Ast {
        self.num(w, v & mask(w))
    }
    pub fn bool_(&mut self, b: bool) -> Ast {
        unsafe { self.keep(if b { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) }) }
    }
    pub fn ite_(&mut self, c: Ast, a: Ast, b: Ast) -> Ast {
        unsafe { self.keep(Z3_mk_ite(self.c, c, a, b)) }
    }
    pub fn extract_(&mut self, hi: u32, lo: u32, a: Ast) -> Ast {
        unsafe { self.keep(Z3_mk_extract(self.c, hi, lo, a)) }
    }
    pub fn sext_(&mut self, a: Ast, n: u32) -> Ast {
        unsafe { self.keep(Z3_mk_sign_ext(self.c, n, a)) }
    }
    /// zero-extend or truncate
    pub fn fit(&mut self, a: Ast, from: u32, to: u32) -> Ast {
        unsafe {
            if from == to {
                a
            } else if from < to {
                self.keep(Z3_mk_zero_ext(self.c, to - from, a))
            } else {
                self.keep(Z3_mk_extract(self.c, to - 1, 0, a))
            }
        }
    }
    pub fn logic_(&mut self, op: Op, a: Ast, b: Ast) -> Ast {
        let v = [a, b];
        unsafe {
            self.keep(match op {
                Op::And => Z3_mk_and(self.c, 2, v.as_ptr()),
                Op::Or => Z3_mk_or(self.c, 2, v.as_ptr()),
                _ => Z3_mk_xor(self.c, a, b),
            })
        }
    }
    pub fn bin_(&mut self, op: Op, a: Ast, b: Ast) -> Ast {
        let c = self.c;
        unsafe {
            self.keep(match op {
                Op::Add => Z3_mk_bvadd(c, a, b),
                Op::Sub => Z3_mk_bvsub(c, a, b),
                Op::Mul => Z3_mk_bvmul(c, a, b),
                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                Op::URem => Z3_mk_bvurem(c, a, b),
                Op::SRem => Z3_mk_bvsrem(c, a, b),
                Op::And => Z3_mk_bvand(c, a, b),
                Op::Or => Z3_mk_bvor(c, a, b),
                Op::Xor => Z3_mk_bvxor(c, a, b),
                Op::Shl => Z3_mk_bvshl(c, a, b),
                Op::LShr => Z3_mk_bvlshr(c, a, b),
                Op::AShr => Z3_mk_bvashr(c, a, b),
                Op::Eq => Z3_mk_eq(c, a, b),
                Op::Ult => Z3_mk_bvult(c, a, b),
                Op::Ule => Z3_mk_bvule(c, a, b),
                Op::Slt => Z3_mk_bvslt(c, a, b),
                Op::Sle => Z3_mk_bvsle(c, a, b),
                Op::Concat => Z3_mk_concat(c, a, b),
                _ => panic!("bin_"),
            })
        }
    }
    fn ensure(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bl.resize(n, std::ptr::null_mut());
        }
    }
    pub fn set_pred(&mut self, ar: &mut Arena, var: u32, s: &Set256) -> Ast {
        if let Some(a) = self.preds.get(&(var, *s)) {
            return *a;
        }
        let ve = ar.var(var);
        let v = self.to_bv(ar, ve);
        unsafe {
            let mut parts: Vec<Ast> = vec![];
            let mut i = 0usize;
            while i < 256 {
                if !set_has(s, i as u8) {
                    i += 1;
                    continue;
                }
                let lo = i;
                while i < 256 && set_has(s, i as u8) {
                    i += 1;
                }
                let hi = i - 1;
                let p = if lo == hi {
                    Z3_mk_eq(self.c, v, self.num(8, lo as u128))
                } else if lo == 0 && hi == 255 {
                    Z3_mk_true(self.c)
                } else if lo == 0 {
                    Z3_mk_bvule(self.c, v, self.num(8, hi as u128))
                } else if hi == 255 {
                    Z3_mk_bvule(self.c, self.num(8, lo as u128), v)
                } else {
                    let a = [
                        self.keep(Z3_mk_bvule(self.c, self.num(8, lo as u128), v)),
                        self.keep(Z3_mk_bvule(self.c, v, self.num(8, hi as u128))),
                    ];
                    Z3_mk_and(self.c, 2, a.as_ptr())
                };
                self.keep(p);
                parts.push(p);
            }
            let r = match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
            };
            self.keep(r);
            self.preds.insert((var, *s), r);
            r
        }
    }
    fn mk_tab(&mut self, ar: &mut Arena, n: &Node) -> Ast {
        let t = ar.tables[n.a as usize].clone();
        let mut ti = [0i128; 256];
        for v in 0..256 {
            ti[v] = t[v] as i128;
        }
        if let Some((c, k)) = crate::narrow::affine(&[u64::MAX; 4], &ti) {
            let s = CString::new(format!("v{}", n.b)).unwrap();
            let x = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.sort(8)) };
            self.keep(x);
            let x = self.fit(x, 8, n.w as u32);
            return self.affine_(x, n.w as u32, c, k);
        }
        let mut groups: std::collections::BTreeMap<u64, Set256> = Default::default();
        for v in 0..256usize {
            set_add(groups.entry(t[v]).or_insert([0; 4]), v as u8);
        }
        let mut gs: Vec<(u64, Set256)> = groups.into_iter().collect();
        gs.sort_by_key(|g| std::cmp::Reverse(set_count(&g.1)));
        let mut r = self.num(n.w as u32, gs[0].0 as u128);
        self.keep(r);
        for (val, s) in &gs[1..] {
            let p = self.set_pred(ar, n.b, s);
            r = unsafe { Z3_mk_ite(self.c, p, self.num(n.w as u32, *val as u128), r) };
            self.keep(r);
        }
        r
    }
    /// c * x + k at width w
    pub fn affine_(&mut self, x: Ast, w: u32, c: i128, k: i128) -> Ast {
        let m = 1i128 << w;
        let (c, k) = (c.rem_euclid(m), k.rem_euclid(m));
        let kk = self.num_(w, k as u128);
        if c == m - 1 {
            return self.bin_(Op::Sub, kk, x);
        }
        let y = if c == 1 {
            x
        } else {
            let cc = self.num_(w, c as u128);
            self.bin_(Op::Mul, x, cc)
        };
        if k == 0 {
            y
        } else {
            self.bin_(Op::Add, y, kk)
        }
    }
    fn ready(&self, e: E) -> bool {
        !self.bv[e as usize].is_null()
    }
    pub fn to_bv(&mut self, ar: &mut Arena, e: E) -> Ast {
        self.ensure(ar.nodes.len() + 16);
        if self.ready(e) {
            return self.bv[e as usize];
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            self.ensure(ar.nodes.len() + 16);
            if self.ready(x) {
                stack.pop();
                continue;
            }
            let n = ar.nodes[x as usize];
            let ch: Vec<E> = match n.op {
                Op::Const | Op::Var | Op::Tab => vec![],
                Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            let mut ok = true;
            for c in &ch {
                if !self.ready(*c) {
                    stack.push(*c);
                    ok = false;
                }
            }
            if !ok {
                continue;
            }
            let c = self.c;
            let w = n.w as u32;
            let g = |i: usize| self.bv[ch[i] as usize];
            let gb = |s: &Self, i: usize| s.bl[ch[i] as usize];
            unsafe {
                let mut boolean: Ast = std::ptr::null_mut();
                let ast = match n.op {
                    Op::Const => self.num(w, ar.consts[n.a as usize]),
                    Op::Var => {
                        let s = CString::new(format!("v{}", n.a)).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(8))
                    }
                    Op::Tab => self.mk_tab(ar, &n),
                    Op::Add => Z3_mk_bvadd(c, g(0), g(1)),
                    Op::Sub => Z3_mk_bvsub(c, g(0), g(1)),
                    Op::Mul => Z3_mk_bvmul(c, g(0), g(1)),
                    Op::UDiv => Z3_mk_bvudiv(c, g(0), g(1)),
                    Op::SDiv => Z3_mk_bvsdiv(c, g(0), g(1)),
                    Op::URem => Z3_mk_bvurem(c, g(0), g(1)),
                    Op::SRem => Z3_mk_bvsrem(c, g(0), g(1)),
                    Op::And if w == 1 => {
                        let a = [gb(self, 0), gb(self, 1)];
                        boolean = Z3_mk_and(c, 2, a.as_ptr());
                        boolean
                    }
                    Op::Or if w == 1 => {
                        let a = [gb(self, 0), gb(self, 1)];
                        boolean = Z3_mk_or(c, 2, a.as_ptr());
                        boolean
                    }
                    Op::Xor if w == 1 => {
                        boolean = if ar.as_const(n.b) == Some(1) {
                            Z3_mk_not(c, gb(self, 0))
                        } else {
                            Z3_mk_xor(c, gb(self, 0), gb(self, 1))
                        };
                        boolean
                    }
                    Op::And => Z3_mk_bvand(c, g(0), g(1)),
                    Op::Or => Z3_mk_bvor(c, g(0), g(1)),
                    Op::Xor => Z3_mk_bvxor(c, g(0), g(1)),
                    Op::Shl => Z3_mk_bvshl(c, g(0), g(1)),
                    Op::LShr => Z3_mk_bvlshr(c, g(0), g(1)),
                    Op::AShr => Z3_mk_bvashr(c, g(0), g(1)),
                    Op::Eq => {
                        boolean = Z3_mk_eq(c, g(0), g(1));
                        boolean
                    }
                    Op::Ult => {
                        boolean = Z3_mk_bvult(c, g(0), g(1));
                        boolean
                    }
                    Op::Ule => {
                        boolean = Z3_mk_bvule(c, g(0), g(1));
                        boolean
                    }
                    Op::Slt => {
                        boolean = Z3_mk_bvslt(c, g(0), g(1));
                        boolean
                    }
                    Op::Sle => {
                        boolean = Z3_mk_bvsle(c, g(0), g(1));
                        boolean
                    }
                    Op::Ite => Z3_mk_ite(c, gb(self, 0), g(1), g(2)),
                    Op::Concat => Z3_mk_concat(c, g(0), g(1)),
                    Op::Extract => Z3_mk_extract(c, n.b + w - 1, n.b, g(0)),
                    Op::ZExt => Z3_mk_zero_ext(c, w - ar.w(n.a), g(0)),
                    Op::SExt => Z3_mk_sign_ext(c, w - ar.w(n.a), g(0)),
                };
                self.keep(ast);
                let i = x as usize;
                if !boolean.is_null() {
                    self.bl[i] = boolean;
                    let b = Z3_mk_ite(c, boolean, self.num(1, 1), self.num(1, 0));
                    self.bv[i] = self.keep(b);
                } else {
                    self.bv[i] = ast;
                    if w == 1 {
                        let b = Z3_mk_eq(c, ast, self.num(1, 1));
                        self.bl[i] = self.keep(b);
                    }
                }
            }
            stack.pop();
        }
        self.bv[e as usize]
    }
    pub fn to_bool(&mut self, ar: &mut Arena, e: E) -> Ast {
        self.to_bv(ar, e);
        self.bl[e as usize]
    }
    fn translate(&mut self, ar: &mut Arena, cons: &[E], doms: &[(u32, Set256)], narrow: bool) -> Vec<Ast> {
        if narrow {
            let mut nw = crate::narrow::Narrow::new(self, ar, doms);
            let bs: Option<Vec<Ast>> = cons.iter().map(|e| nw.boolean(*e)).collect();
            if let Some(bs) = bs {
                self.narrowed += 1;
                return bs;
            }
        }
        cons.iter().map(|e| self.to_bool(ar, *e)).collect()
    }
    /// Satisfiability of the conjunction; on sat returns values of `vars`.
    pub fn check(&mut self, ar: &mut Arena, cons: &[E], doms: &[(u32, Set256)]) -> Result<Option<Vec<u8>>, String> {
        let t0 = std::time::Instant::now();
        unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                if set_count(d) < 256 {
                    let p = self.set_pred(ar, *v, d);
                    Z3_solver_assert(self.c, self.s, p);
                }
            }
            let mut hs = std::mem::take(&mut self.hard_seen);
            let hard = cons.iter().any(|e| crate::narrow::hard(ar, &mut hs, *e));
            self.hard_seen = hs;
            let mut bs = self.translate(ar, cons, doms, hard);
            for b in &bs {
                Z3_solver_assert(self.c, self.s, *b);
            }
            let mut s = self.s;
            let mut r = Z3_solver_check(self.c, s);
            if r == 0 {
                // undecided within the resource limit: once more, non-incrementally and with the
                // other translation
                self.retried += 1;
                let l = CString::new("QF_BV").unwrap();
                s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                Z3_solver_inc_ref(self.c, s);
                for (v, d) in doms {
                    if set_count(d) < 256 {
                        let p = self.set_pred(ar, *v, d);
                        Z3_solver_assert(self.c, s, p);
                    }
                }
                bs = self.translate(ar, cons, doms, !hard);
                for b in &bs {
                    Z3_solver_assert(self.c, s, *b);
                }
                r = Z3_solver_check(self.c, s);
            }
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![];
                for (v, _) in doms {
                    let ve = ar.var(*v);
                    let t = self.to_bv(ar, ve);
                    let mut o: Ast = std::ptr::null_mut();
                    let mut u = 0u64;
                    if !Z3_model_eval(self.c, m, t, true, &mut o) || !Z3_get_numeral_uint64(self.c, o, &mut u) {
                        return Err("z3 model".into());
                    }
                    vals.push(u as u8);
                }
                Z3_model_dec_ref(self.c, m);
                self.sat += 1;
                Ok(Some(vals))
            } else if r == -1 {
                self.unsat += 1;
                Ok(None)
            } else {
                if let Ok(f) = std::env::var("SYMEX_DUMP") {
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s));
                    let _ = std::fs::write(format!("{f}.{}", std::process::id()), t.to_bytes());
                }
                Err("z3 unknown/timeout".into())
            };
            if s != self.s {
                Z3_solver_dec_ref(self.c, s);
            }
            Z3_solver_pop(self.c, self.s, 1);
            self.queries += 1;
            let us = t0.elapsed().as_micros() as u64;
            self.time_us += us;
            self.max_us = self.max_us.max(us);
            out
        }
    }
}
