//! Minimal binding to libz3's C API and the query layer (slicing, cache).
use crate::expr::{self, FxMap, Op, Vars, E, X};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
}

pub type Model = Rc<Vec<(u32, u64)>>; // var -> value for the vars of the slice

pub struct Solver {
    c: P,
    s: P,
    one: P,
    memo: Vec<P>,
    cache: FxMap<Vec<E>, Option<Model>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub dump: Option<Vec<(String, bool)>>,
    pub dump_max: usize,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
            Solver {
                c,
                s,
                one,
                memo: vec![],
                cache: Default::default(),
                queries: 0,
                cache_hits: 0,
                time: 0.0,
                dump: None,
                dump_max: 0,
            }
        }
    }

    fn ast(&mut self, e: E) -> P {
        if let Some(&p) = self.memo.get(e as usize) {
            if !p.is_null() {
                return p;
            }
        }
        let (x, w) = expr::get(e);
        let c = self.c;
        let p = unsafe {
            match x {
                X::Const(v) => Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w as u32)),
                X::Var(i) => {
                    let n = CString::new(format!("v{}_{}", i, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w as u32))
                }
                X::Bin(op, a, b) => {
                    let (a, b) = (self.ast(a), self.ast(b));
                    let bz = |s: &Solver, p: P| {
                        Z3_mk_ite(c, p, s.one, Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)))
                    };
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Eq => bz(self, Z3_mk_eq(c, a, b)),
                        Op::Ult => bz(self, Z3_mk_bvult(c, a, b)),
                        Op::Ule => bz(self, Z3_mk_bvule(c, a, b)),
                        Op::Slt => bz(self, Z3_mk_bvslt(c, a, b)),
                        Op::Sle => bz(self, Z3_mk_bvsle(c, a, b)),
                    }
                }
                X::Not(a) => {
                    let a = self.ast(a);
                    Z3_mk_bvnot(c, a)
                }
                X::Ite(i, a, b) => {
                    let (i, a, b) = (self.ast(i), self.ast(a), self.ast(b));
                    Z3_mk_ite(c, Z3_mk_eq(c, i, self.one), a, b)
                }
                X::ZExt(a) => {
                    let aw = expr::width(a);
                    let a = self.ast(a);
                    Z3_mk_zero_ext(c, (w - aw) as u32, a)
                }
                X::SExt(a) => {
                    let aw = expr::width(a);
                    let a = self.ast(a);
                    Z3_mk_sign_ext(c, (w - aw) as u32, a)
                }
                X::Extract(h, l, a) => {
                    let a = self.ast(a);
                    Z3_mk_extract(c, h as u32, l as u32, a)
                }
            }
        };
        if self.memo.len() <= e as usize {
            self.memo.resize(e as usize + 1, std::ptr::null_mut());
        }
        self.memo[e as usize] = p;
        p
    }

    /// Satisfiability of `pc /\ q`, where `pc` alone is known satisfiable.
    /// Returns values for the variables of the relevant slice.
    pub fn check(&mut self, pc: &[E], q: E) -> Result<Option<Model>, String> {
        if let Some(c) = expr::as_const(q) {
            return Ok(if c == 1 { Some(Rc::new(vec![])) } else { None });
        }
        let mut vs: Vars = expr::vars(q);
        let mut sel: Vec<E> = vec![q];
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &p) in pc.iter().enumerate() {
                if !used[i] {
                    let pv = expr::vars(p);
                    if pv.meets(&vs) {
                        used[i] = true;
                        changed = true;
                        vs = vs.or(&pv);
                        sel.push(p);
                    }
                }
            }
            if !changed {
                break;
            }
        }
        sel.sort_unstable();
        sel.dedup();
        if let Some(r) = self.cache.get(&sel) {
            self.cache_hits += 1;
            return Ok(r.clone());
        }
        let t0 = Instant::now();
        self.queries += 1;
        let asts: Vec<P> = sel.iter().map(|&e| self.ast(e)).collect();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asts {
                let f = Z3_mk_eq(self.c, *a, self.one);
                Z3_solver_assert(self.c, self.s, f);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![];
                let mut rest = vs;
                while let Some(i) = rest.first() {
                    rest.0[i as usize / 64] &= !(1 << (i % 64));
                    let w = var_width(i);
                    let va = expr::var(i, w);
                    let a = self.ast(va);
                    let mut v: P = std::ptr::null_mut();
                    let mut n = 0u64;
                    if !Z3_model_eval(self.c, m, a, true, &mut v)
                        || !Z3_get_numeral_uint64(self.c, v, &mut n)
                    {
                        return Err("z3 model evaluation failed".into());
                    }
                    vals.push((i, n));
                }
                Z3_model_dec_ref(self.c, m);
                // the model must satisfy the query under our own evaluator
                let lookup = |i: u32| vals.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0);
                for &e in &sel {
                    if expr::eval(e, &lookup) != 1 {
                        return Err(format!("z3 model does not satisfy the encoded query ({})", if expr::tree(e) < 20_000 { smt(e) } else { "large".into() }));
                    }
                }
                Some(Rc::new(vals))
            } else if r == -1 {
                None
            } else {
                Z3_solver_pop(self.c, self.s, 1);
                return Err("z3 answered unknown".into());
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        self.time += t0.elapsed().as_secs_f64();
        if let Some(d) = &mut self.dump {
            if (d.len() < self.dump_max || self.queries % 97 == 0) && sel.iter().map(|&e| expr::tree(e)).fold(0u64, |a, b| a.saturating_add(b)) < 20_000 {
                let mut s = String::from("(set-logic QF_BV)\n");
                let mut rest = vs;
                while let Some(i) = rest.first() {
                    rest.0[i as usize / 64] &= !(1 << (i % 64));
                    let w = var_width(i);
                    s += &format!("(declare-const v{}_{} (_ BitVec {}))\n", i, w, w);
                }
                for &e in &sel {
                    s += &format!("(assert (= {} #b1))\n", smt(e));
                }
                s += "(check-sat)\n";
                if d.len() < self.dump_max {
                    d.push((s, r.is_some()));
                } else {
                    let k = (self.queries as usize / 97) % self.dump_max.max(1);
                    d[k] = (s, r.is_some());
                }
            }
        }
        self.cache.insert(sel, r.clone());
        Ok(r)
    }
}

thread_local! { pub static VARW: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]); }
pub fn var_width(i: u32) -> u8 {
    VARW.with(|v| v.borrow()[i as usize])
}

pub fn smt(e: E) -> String {
    let (x, w) = expr::get(e);
    let b = |op: &str, a: E, b: E| format!("({} {} {})", op, smt(a), smt(b));
    let p = |op: &str, a: E, b: E| format!("(ite ({} {} {}) #b1 #b0)", op, smt(a), smt(b));
    match x {
        X::Const(c) => {
            let mut s = String::from("#b");
            for i in (0..w).rev() {
                s.push(if c >> i & 1 == 1 { '1' } else { '0' });
            }
            s
        }
        X::Var(i) => format!("v{}_{}", i, w),
        X::Not(a) => format!("(bvnot {})", smt(a)),
        X::Ite(c, a, bb) => format!("(ite (= {} #b1) {} {})", smt(c), smt(a), smt(bb)),
        X::ZExt(a) => format!("((_ zero_extend {}) {})", w - expr::width(a), smt(a)),
        X::SExt(a) => format!("((_ sign_extend {}) {})", w - expr::width(a), smt(a)),
        X::Extract(h, l, a) => format!("((_ extract {} {}) {})", h, l, smt(a)),
        X::Bin(op, a, c) => match op {
            Op::Add => b("bvadd", a, c),
            Op::Sub => b("bvsub", a, c),
            Op::Mul => b("bvmul", a, c),
            Op::UDiv => b("bvudiv", a, c),
            Op::SDiv => b("bvsdiv", a, c),
            Op::URem => b("bvurem", a, c),
            Op::SRem => b("bvsrem", a, c),
            Op::And => b("bvand", a, c),
            Op::Or => b("bvor", a, c),
            Op::Xor => b("bvxor", a, c),
            Op::Shl => b("bvshl", a, c),
            Op::LShr => b("bvlshr", a, c),
            Op::AShr => b("bvashr", a, c),
            Op::Concat => b("concat", a, c),
            Op::Eq => p("=", a, c),
            Op::Ult => p("bvult", a, c),
            Op::Ule => p("bvule", a, c),
            Op::Slt => p("bvslt", a, c),
            Op::Sle => p("bvsle", a, c),
        },
    }
}
