//! Symbolic executor: depth-first path exploration with forking.
use crate::expr::{self, mask, FxMap, Op, Vars, E};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Model, Solver, VARW};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const SLOT: u32 = 20;
pub const HEAP: u64 = 0x1000_0000_0000;
pub const CONSTG: u64 = 0x2000_0000_0000;
pub const MUTG: u64 = 0x2800_0000_0000;
pub const FUNC: u64 = 0x3000_0000_0000;
pub const STACK: u64 = 0x7000_0000_0000;
const REGION: u64 = 0x0800_0000_0000;

/// operand with constants resolved
#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

pub enum J {
    Alloca { d: u32, size: u64, align: u64 },
    Load { d: u32, ty: Ty, n: u8, p: O, align: u64, noundef: bool, nonnull: bool, range: Option<(u64, u64)> },
    Store { ty: Ty, n: u8, v: O, p: O, align: u64 },
    Gep { d: u32, base: O, off: u64, terms: Vec<(O, u64, u32)>, inb: bool },
    Bin { d: u32, op: Op, w: u8, a: O, b: O, nuw: bool, nsw: bool },
    ICmp { d: u32, p: Pred, w: u8, a: O, b: O },
    Cast { d: u32, k: CastK, from: u8, to: u8, wide: u32, a: O, nuw: bool },
    Select { d: u32, c: O, a: O, b: O, w: u8 },
    Extract { d: u32, a: O, ix: Vec<usize> },
    Insert { d: u32, ty: Ty, a: O, v: O, ix: Vec<usize> },
    Freeze { d: u32, a: O },
    Call { d: Option<u32>, ret: Ty, callee: O, args: Vec<(O, bool, bool, u8)>, inv: Option<(u32, u32)> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { v: O, w: u8, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<O>),
    Unreachable,
    LandingPad { d: u32 },
    Resume,
}

pub struct CBlock {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<J>,
}
pub struct CFunc {
    pub id: usize,
    pub name: String,
    pub pretty: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<CBlock>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    Abort,
    UbAbort,
    Sym,
    Param,
    Assume,
    Check,
    Cover,
    Observe,
    Peek,
    Poke,
    Lock,
    Unlock,
    Live,
    Try,
    Concretize,
    Snapshot,
    Same,
    IsEngine,
    ObjSize,
    Stop,
    Memcmp,
    Alive,
    AllocFail,
}

pub enum FnKind {
    Def(usize, usize), // module, index
    Builtin(Bi),
    Llvm(String),
    Unknown,
}

pub struct Frame {
    pub f: &'static CFunc,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub stack_base: usize,
    pub ret: Option<u32>,
    pub inv: Option<(u32, u32)>,
    pub is_try: bool,
}
impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame {
            f: self.f,
            blk: self.blk,
            ip: self.ip,
            regs: self.regs.clone(),
            stack_base: self.stack_base,
            ret: self.ret,
            inv: self.inv,
            is_try: self.is_try,
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Rc<Obj>>,
    pub stack: Vec<Rc<Obj>>,
    pub muts: Vec<Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Vec<u64>,
    pub bound: Vars,
    pub syms: Vec<(u32, u32, u8)>, // (harness id, var, width)
    pub live: i64,
    pub obs: Vec<V>,
    pub snaps: Vec<Rc<(u64, Vec<By>, Rc<Obj>)>>,
    pub panic: Option<Rc<str>>,
    pub steps: u64,
}

pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub stack: Vec<String>,
    pub assign: Vec<(u32, u64)>,
    pub obs: Vec<u64>,
}
pub struct Sample {
    pub assign: Vec<(u32, u64)>,
    pub obs: Vec<u64>,
}

pub enum Stop {
    /// the path ended (normally or pruned)
    End,
    Violation(String, String),
    /// the tool cannot continue: not a verdict about the code
    Engine(String),
}
type X<T> = Result<T, Stop>;
fn ub<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Violation("ub".into(), s.into()))
}
fn eng<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Engine(s.into()))
}

pub struct Engine {
    pub modules: Vec<Module>,
    pub syms: HashMap<String, u64>,
    pub lsyms: Vec<HashMap<String, u64>>,
    pub fns: Vec<(String, FnKind)>,
    pub compiled: Vec<Option<&'static CFunc>>,
    pub cov: Vec<Vec<u64>>,
    pub consts: Vec<Rc<Obj>>,
    pub muts0: Vec<Rc<Obj>>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub nvars: u32,
    pub idvar: FxMap<u64, u32>,
    pub params: BTreeMap<u32, u64>,
    pub pins: BTreeMap<u32, u64>,
    pub covers: BTreeMap<u32, (u64, Vec<(u32, u64)>)>,
    pub checks: BTreeMap<u32, (u64, u64)>, // id -> (times decided, of which symbolic)
    pub violations: Vec<Violation>,
    pub engine_errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub instrs: u64,
    pub max_viol: usize,
    pub max_steps: u64,
    pub start: Instant,
    pub max_secs: f64,
    /// file that is made when a violation is found; exploration ends a little later
    pub stopfile: Option<String>,
    pub stopped: bool,
    pub tokens: Option<(i32, i32)>,
    pub outfile: String,
    pub children: Vec<i32>,
    pub is_child: bool,
    pub last_spawn: Instant,
    pub prof: bool,
    pub fork_prof: BTreeMap<String, u64>,
}

fn cst_val(v: &V) -> Option<u64> {
    if let V::C(c) = v {
        Some(*c)
    } else {
        None
    }
}

impl Engine {
    pub fn new(modules: Vec<Module>) -> Result<Engine, String> {
        let mut g = Engine {
            lsyms: vec![HashMap::new(); modules.len()],
            modules,
            syms: HashMap::new(),
            fns: vec![],
            compiled: vec![],
            cov: vec![],
            consts: vec![],
            muts0: vec![],
            solver: Solver::new(),
            work: vec![],
            nvars: 0,
            idvar: Default::default(),
            params: BTreeMap::new(),
            pins: BTreeMap::new(),
            covers: BTreeMap::new(),
            checks: BTreeMap::new(),
            violations: vec![],
            engine_errors: vec![],
            samples: vec![],
            max_samples: 20,
            paths: 0,
            pruned: 0,
            forks: 0,
            instrs: 0,
            max_viol: 5,
            max_steps: 20_000_000,
            start: Instant::now(),
            max_secs: 1e9,
            stopfile: None,
            stopped: false,
            tokens: None,
            outfile: String::new(),
            children: vec![],
            is_child: false,
            last_spawn: Instant::now(),
            prof: std::env::var("RSYM_PROF").is_ok(),
            fork_prof: BTreeMap::new(),
        };
        for mi in 0..g.modules.len() {
            for fi in 0..g.modules[mi].funcs.len() {
                let (n, local) = {
                    let f = &g.modules[mi].funcs[fi];
                    (f.name.clone(), f.local)
                };
                let id = g.fns.len();
                let addr = FUNC + id as u64 * 16;
                if local {
                    g.lsyms[mi].insert(n.clone(), addr);
                } else {
                    if g.syms.contains_key(&n) {
                        continue; // linkonce duplicate
                    }
                    g.syms.insert(n.clone(), addr);
                }
                let pretty = g.modules[mi].funcs[fi].pretty.clone();
                let _ = pretty;
                // panics and allocation end in the engine, not in the library
                let kind = match classify(&n) {
                    k @ FnKind::Builtin(_) if g.modules[mi].library => k,
                    _ => FnKind::Def(mi, fi),
                };
                g.fns.push((n, kind));
                g.compiled.push(None);
                g.cov.push(vec![]);
            }
        }
        // addresses of globals first, then contents
        let mut list = vec![];
        for mi in 0..g.modules.len() {
            for gi in 0..g.modules[mi].globals.len() {
                let s = &g.modules[mi].globals[gi];
                let (size, align, constant, local, name) = (s.ty.size(), s.align.max(1), s.constant, s.local, s.name.clone());
                if !local && g.syms.contains_key(&name) {
                    continue;
                }
                if size >= (1 << SLOT) - 8192 {
                    return Err(format!("global {} too large", name));
                }
                let base = if constant {
                    CONSTG + ((g.consts.len() as u64) << SLOT) + align
                } else {
                    MUTG + ((g.muts0.len() as u64) << SLOT) + align
                };
                let mut o = Obj::new(base, size, align, Kind::Global);
                o.ro = constant;
                if constant {
                    g.consts.push(Rc::new(o));
                    list.push((mi, gi, true, g.consts.len() - 1));
                } else {
                    g.muts0.push(Rc::new(o));
                    list.push((mi, gi, false, g.muts0.len() - 1));
                }
                if local {
                    g.lsyms[mi].insert(name, base);
                } else {
                    g.syms.insert(name, base);
                }
            }
        }
        for (mi, gi, c, k) in list {
            let (ty, init) = {
                let s = &g.modules[mi].globals[gi];
                (s.ty.clone(), s.init.clone())
            };
            let mut bytes = vec![By::U; ty.size() as usize];
            g.cst_bytes(mi, &ty, &init, &mut bytes, 0)?;
            let o = if c { &mut g.consts[k] } else { &mut g.muts0[k] };
            Rc::get_mut(o).unwrap().store_bytes(0, &bytes);
        }
        Ok(g)
    }

    fn sym_addr(&mut self, mi: usize, n: &str) -> u64 {
        if let Some(&a) = self.lsyms[mi].get(n) {
            return a;
        }
        if let Some(&a) = self.syms.get(n) {
            return a;
        }
        // external function
        let id = self.fns.len();
        let addr = FUNC + id as u64 * 16;
        self.fns.push((n.to_string(), classify(n)));
        self.compiled.push(None);
        self.cov.push(vec![]);
        self.syms.insert(n.to_string(), addr);
        addr
    }

    fn cst_scalar(&mut self, mi: usize, c: &Cst) -> Result<V, String> {
        Ok(match c {
            Cst::Int(v) => V::C(*v),
            Cst::Undef => V::U,
            Cst::Zero => V::C(0),
            Cst::Sym(s) => V::C(self.sym_addr(mi, s)),
            Cst::SymOff(b, o) => match self.cst_scalar(mi, b)? {
                V::C(a) => V::C(a.wrapping_add(*o as u64)),
                _ => return Err("symoff".into()),
            },
            Cst::Wide(b) => V::B(Rc::new(b.iter().map(|x| By::C(*x)).collect())),
            _ => return Err(format!("scalar constant {:?}", c)),
        })
    }

    fn cst_val(&mut self, mi: usize, ty: &Ty, c: &Cst) -> Result<V, String> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => match c {
                Cst::Undef => Ok(V::U),
                Cst::Zero => {
                    let n = ty.nelem();
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.cst_val(mi, &ty.elem(i), &Cst::Zero)?);
                    }
                    Ok(V::A(Rc::new(v)))
                }
                Cst::Agg(l) => {
                    let mut v = vec![];
                    for (t, c) in l {
                        v.push(self.cst_val(mi, t, c)?);
                    }
                    Ok(V::A(Rc::new(v)))
                }
                Cst::Bytes(b) => Ok(V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect()))),
                _ => Err(format!("aggregate constant {:?}", c)),
            },
            Ty::Int(w) if *w > 64 && matches!(c, Cst::Zero) => {
                Ok(V::B(Rc::new(vec![By::C(0); *w as usize / 8])))
            }
            _ => self.cst_scalar(mi, c),
        }
    }

    fn cst_bytes(&mut self, mi: usize, ty: &Ty, c: &Cst, out: &mut [By], at: usize) -> Result<(), String> {
        let n = ty.size() as usize;
        match c {
            Cst::Undef => {}
            Cst::Zero => {
                for i in 0..n {
                    out[at + i] = By::C(0)
                }
            }
            Cst::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    out[at + i] = By::C(*x)
                }
            }
            Cst::Agg(l) => {
                let offs = ty.offsets();
                for (k, (t, c)) in l.iter().enumerate() {
                    self.cst_bytes(mi, t, c, out, at + offs[k] as usize)?;
                }
            }
            _ => {
                let v = self.cst_scalar(mi, c)?;
                for (i, b) in to_bytes(&v, n).into_iter().enumerate() {
                    out[at + i] = b
                }
            }
        }
        Ok(())
    }

    fn o(&mut self, mi: usize, ty: &Ty, o: &Opd) -> Result<O, String> {
        Ok(match o {
            Opd::Reg(r) => O::R(*r),
            Opd::Const(c) => O::K(self.cst_val(mi, ty, c)?),
        })
    }

    fn compile(&mut self, id: usize) -> Result<&'static CFunc, String> {
        if let Some(f) = self.compiled[id] {
            return Ok(f);
        }
        let (mi, fi) = match self.fns[id].1 {
            FnKind::Def(m, f) => (m, f),
            _ => return Err("not a definition".into()),
        };
        let f = parse_func(&self.modules[mi].funcs[fi], &self.modules[mi])
            .map_err(|e| format!("{}: {}", self.fns[id].0, e))?;
        let mut blocks = vec![];
        let pt = Ty::Ptr;
        for b in &f.blocks {
            let mut phis = vec![];
            for (d, t, inc) in &b.phis {
                let mut v = vec![];
                for (l, o) in inc {
                    v.push((*l, self.o(mi, t, o)?));
                }
                phis.push((*d, v));
            }
            let mut ins = vec![];
            for i in &b.ins {
                ins.push(match i {
                    I::Alloca { d, size, align } => J::Alloca { d: *d, size: *size, align: *align },
                    I::Load { d, ty, p, align, noundef, nonnull, range } => J::Load {
                        d: *d,
                        ty: ty.clone(),
                        n: scalar_bytes(ty),
                        p: self.o(mi, &pt, p)?,
                        align: *align,
                        noundef: *noundef,
                        nonnull: *nonnull,
                        range: *range,
                    },
                    I::Store { ty, v, p, align } => J::Store {
                        ty: ty.clone(),
                        n: scalar_bytes(ty),
                        v: self.o(mi, ty, v)?,
                        p: self.o(mi, &pt, p)?,
                        align: *align,
                    },
                    I::Gep { d, base, off, terms, inb } => {
                        let mut t = vec![];
                        for (o, s, w) in terms {
                            t.push((self.o(mi, &Ty::Int(*w), o)?, *s, *w));
                        }
                        J::Gep { d: *d, base: self.o(mi, &pt, base)?, off: *off, terms: t, inb: *inb }
                    }
                    I::Bin { d, op, w, a, b, nuw, nsw, .. } => J::Bin {
                        d: *d,
                        op: *op,
                        w: *w as u8,
                        a: self.o(mi, &Ty::Int(*w), a)?,
                        b: self.o(mi, &Ty::Int(*w), b)?,
                        nuw: *nuw,
                        nsw: *nsw,
                    },
                    I::ICmp { d, p, w, a, b } => J::ICmp {
                        d: *d,
                        p: *p,
                        w: *w as u8,
                        a: self.o(mi, &Ty::Int(*w), a)?,
                        b: self.o(mi, &Ty::Int(*w), b)?,
                    },
                    I::Cast { d, k, from, to, a, nuw, .. } => {
                        if *to > 64 && *from > 64 {
                            return Err("wide cast".into());
                        }
                        J::Cast {
                            d: *d,
                            k: *k,
                            from: (*from).min(255) as u8,
                            to: (*to).min(255) as u8,
                            wide: (*from).max(*to),
                            a: self.o(mi, &Ty::Int(*from), a)?,
                            nuw: *nuw,
                        }
                    }
                    I::Select { d, ty, c, a, b } => J::Select {
                        d: *d,
                        c: self.o(mi, &Ty::Int(1), c)?,
                        a: self.o(mi, ty, a)?,
                        b: self.o(mi, ty, b)?,
                        w: if ty.bits() > 64 { 0 } else { ty.bits() as u8 },
                    },
                    I::Extract { d, a, ix } => J::Extract { d: *d, a: self.o(mi, &pt, a)?, ix: ix.clone() },
                    I::Insert { d, ty, a, v, ix } => {
                        let mut et = ty.clone();
                        for i in ix {
                            et = et.elem(*i);
                        }
                        J::Insert {
                            d: *d,
                            ty: ty.clone(),
                            a: self.o(mi, ty, a)?,
                            v: self.o(mi, &et, v)?,
                            ix: ix.clone(),
                        }
                    }
                    I::Freeze { d, ty, a } => J::Freeze { d: *d, a: self.o(mi, ty, a)? },
                    I::Call { d, ty, callee, args, inv, .. } => {
                        let mut av = vec![];
                        for a in args {
                            av.push((self.o(mi, &a.ty, &a.v)?, a.noundef, a.nonnull, a.ty.bits().min(64) as u8));
                        }
                        J::Call { d: *d, ret: ty.clone(), callee: self.o(mi, &pt, callee)?, args: av, inv: *inv }
                    }
                    I::Br(l) => J::Br(*l),
                    I::CondBr(c, a, b) => J::CondBr(self.o(mi, &Ty::Int(1), c)?, *a, *b),
                    I::Switch { w, v, def, cases } => J::Switch {
                        w: *w as u8,
                        v: self.o(mi, &Ty::Int(*w), v)?,
                        def: *def,
                        cases: cases.clone(),
                    },
                    I::Ret(None) => J::Ret(None),
                    I::Ret(Some((t, v))) => J::Ret(Some(self.o(mi, t, v)?)),
                    I::Unreachable => J::Unreachable,
                    I::LandingPad { d, .. } => J::LandingPad { d: *d },
                    I::Resume(_) => J::Resume,
                });
            }
            blocks.push(CBlock { phis, ins });
        }
        self.cov[id] = vec![0; blocks.len()];
        let c = Box::leak(Box::new(CFunc {
            id,
            name: f.name.clone(),
            pretty: f.pretty.clone(),
            params: f.params.iter().map(|p| p.0).collect(),
            nregs: f.nregs,
            blocks,
        }));
        self.compiled[id] = Some(c);
        Ok(c)
    }

    // ---------------------------------------------------------------- solver

    fn model_val(&self, st: &State, e: E) -> u64 {
        let m = &st.model;
        expr::eval(e, &|i| m.get(i as usize).copied().unwrap_or(0))
    }
    fn check(&mut self, st: &State, q: E) -> X<Option<Model>> {
        self.solver.check(&st.pc, q).map_err(Stop::Engine)
    }
    fn apply_model(st: &mut State, m: &Model) {
        for &(i, v) in m.iter() {
            let i = i as usize;
            if st.model.len() <= i {
                st.model.resize(i + 1, 0)
            }
            st.model[i] = v
        }
    }
    /// add a constraint that the current model satisfies
    fn assume(&mut self, st: &mut State, q: E) -> X<()> {
        if expr::as_const(q).is_some() {
            return Ok(());
        }
        // split conjunctions for better slicing
        if let (expr::X::Bin(Op::And, a, b), 1) = expr::get(q) {
            self.assume(st, a)?;
            return self.assume(st, b);
        }
        st.pc.push(q);
        let mut u = expr::vars(q);
        for i in 0..expr::VW {
            u.0[i] &= !st.bound.0[i]
        }
        if u.count() == 1 {
            let i = u.first().unwrap();
            let w = crate::z3::var_width(i);
            let v = expr::var(i, w);
            let val = st.model.get(i as usize).copied().unwrap_or(0);
            let ne = expr::not(expr::bin(Op::Eq, v, expr::cst(val, w)));
            if self.check(st, ne)?.is_none() {
                st.bound = st.bound.or(&Vars::one(i));
            }
        }
        Ok(())
    }
    fn is_bound(&self, st: &State, e: E) -> bool {
        expr::vars(e).subset(&st.bound)
    }
    fn simp(&self, st: &State, e: E) -> V {
        if self.is_bound(st, e) {
            V::C(self.model_val(st, e))
        } else {
            V::S(e)
        }
    }
    /// value of a 1-bit condition on this path; forks if both are possible
    fn decide(&mut self, st: &mut State, e: E) -> X<bool> {
        if let Some(c) = expr::as_const(e) {
            return Ok(c == 1);
        }
        let cur = self.model_val(st, e) == 1;
        if self.is_bound(st, e) {
            return Ok(cur);
        }
        let (t, f) = if cur { (e, expr::not(e)) } else { (expr::not(e), e) };
        if let Some(m) = self.check(st, f)? {
            let mut o = st.clone();
            Self::apply_model(&mut o, &m);
            self.assume(&mut o, f)?;
            self.forks += 1;
            if self.prof {
                let f: Vec<String> = st.frames.iter().rev().take(3).map(|f| if f.f.pretty.is_empty() { f.f.name.clone() } else { f.f.pretty.clone() }).collect();
                *self.fork_prof.entry(f.join(" < ")).or_insert(0) += 1;
            }
            self.work.push(o);
            self.assume(st, t)?;
        }
        Ok(cur)
    }
    /// a concrete value of `e` on this path; forks over the others
    fn concretize(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                let val = self.model_val(st, *e);
                if self.is_bound(st, *e) {
                    return Ok(val);
                }
                let eq = expr::bin(Op::Eq, *e, expr::cst(val, expr::width(*e)));
                self.decide(st, eq)?;
                Ok(val)
            }
            V::U | V::B(_) => ub("use of uninitialised or undefined value"),
            V::A(_) => eng("aggregate where a scalar is needed"),
        }
    }

    // ---------------------------------------------------------------- memory

    fn find<'a>(&'a self, st: &'a State, a: u64) -> Option<&'a Rc<Obj>> {
        if a >= STACK {
            st.stack.get(((a - STACK) >> SLOT) as usize)
        } else if a >= FUNC {
            None
        } else if a >= MUTG {
            st.muts.get(((a - MUTG) >> SLOT) as usize)
        } else if a >= CONSTG {
            self.consts.get(((a - CONSTG) >> SLOT) as usize)
        } else if a >= HEAP {
            st.heap.get(((a - HEAP) >> SLOT) as usize)
        } else {
            None
        }
    }
    fn find_mut<'a>(st: &'a mut State, a: u64) -> Option<&'a mut Rc<Obj>> {
        if a >= STACK {
            st.stack.get_mut(((a - STACK) >> SLOT) as usize)
        } else if a >= FUNC {
            None
        } else if a >= MUTG {
            st.muts.get_mut(((a - MUTG) >> SLOT) as usize)
        } else if a >= CONSTG {
            None
        } else if a >= HEAP {
            st.heap.get_mut(((a - HEAP) >> SLOT) as usize)
        } else {
            None
        }
    }
    fn acc_check(o: Option<&Rc<Obj>>, a: u64, n: u64, align: u64, what: &str) -> X<usize> {
        let o = match o {
            None => {
                return ub(if a < 4096 {
                    format!("{} through a null or dangling pointer (0x{:x})", what, a)
                } else {
                    format!("{} through a wild pointer (0x{:x})", what, a)
                })
            }
            Some(o) => o,
        };
        if !o.alive {
            return ub(format!("{} after free", what));
        }
        let off = a.wrapping_sub(o.base);
        if a < o.base || off + n > o.size() {
            return ub(format!("{} out of bounds: offset {} size {} in an object of {} bytes", what, off as i64, n, o.size()));
        }
        if align > 1 && a % align != 0 {
            return ub(format!("misaligned {}", what));
        }
        if !o.lock.is_empty() && o.lock.iter().any(|l| off < l.1 && l.0 < off + n) {
            return ub(format!("{} of memory to which a mutable reference is handed out", what));
        }
        Ok(off as usize)
    }
    fn rd<'a>(&'a self, st: &'a State, a: u64, n: u64, align: u64) -> X<(&'a Rc<Obj>, usize)> {
        let o = self.find(st, a);
        let off = Self::acc_check(o, a, n, align, "read")?;
        Ok((o.unwrap(), off))
    }
    fn wr<'a>(&self, st: &'a mut State, a: u64, n: u64, align: u64) -> X<(&'a mut Obj, usize)> {
        if a >= CONSTG && a < CONSTG + REGION {
            return ub("write to constant memory");
        }
        let o = Self::find_mut(st, a);
        let off = Self::acc_check(o.as_deref(), a, n, align, "write")?;
        let o = o.unwrap();
        Ok((Rc::make_mut(o), off))
    }
    fn load_ty(&self, st: &State, a: u64, ty: &Ty, align: u64) -> X<V> {
        match ty {
            Ty::Int(w) if *w <= 64 => {
                let n = ((*w + 7) / 8) as usize;
                let (o, off) = self.rd(st, a, n as u64, align)?;
                let v = o.load(off, n);
                Ok(match v {
                    V::C(c) => V::C(c & mask(*w as u8)),
                    V::S(e) => {
                        let ew = expr::width(e);
                        let e = if ew > *w as u8 { expr::extract(*w as u8 - 1, 0, e) } else { e };
                        self.simp(st, e)
                    }
                    v => v,
                })
            }
            Ty::Ptr => {
                let (o, off) = self.rd(st, a, 8, align)?;
                Ok(match o.load(off, 8) {
                    V::S(e) => self.simp(st, e),
                    v => v,
                })
            }
            Ty::Int(w) => {
                let n = (*w / 8) as usize;
                let (o, off) = self.rd(st, a, n as u64, align)?;
                let b: Vec<By> = (0..n).map(|i| o.byte(off + i)).collect();
                Ok(V::B(Rc::new(b)))
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let offs = ty.offsets();
                let mut v = vec![];
                for (i, o) in offs.iter().enumerate() {
                    v.push(self.load_ty(st, a + o, &ty.elem(i), 1)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => eng(format!("load of {:?}", ty)),
        }
    }
    fn store_ty(&self, st: &mut State, a: u64, ty: &Ty, v: &V, align: u64) -> X<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let n = ((ty.bits() + 7) / 8) as usize;
                let (o, off) = self.wr(st, a, n as u64, align)?;
                if let (V::C(c), true) = (v, n <= 8) {
                    o.store_c(off, n, *c);
                } else {
                    let b = to_bytes(v, n);
                    o.store_bytes(off, &b);
                }
                Ok(())
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let offs = ty.offsets();
                for (i, o) in offs.iter().enumerate() {
                    let e = match v {
                        V::A(l) => l[i].clone(),
                        _ => V::U,
                    };
                    self.store_ty(st, a + o, &ty.elem(i), &e, 1)?;
                }
                Ok(())
            }
            _ => eng(format!("store of {:?}", ty)),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> X<u64> {
        if size >= (1 << SLOT) - 8192 || align > 4096 || align == 0 {
            return eng(format!("allocation of {} bytes, align {}", size, align));
        }
        if size == 0 {
            return ub("zero-sized allocation request");
        }
        let base = HEAP + ((st.heap.len() as u64) << SLOT) + align;
        let mut o = Obj::new(base, size, align, Kind::Heap);
        if zero {
            for b in o.bytes.iter_mut() {
                *b = 0
            }
        }
        st.heap.push(Rc::new(o));
        st.live += 1;
        Ok(base)
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: u64, align: u64) -> X<()> {
        let o = match Self::find_mut(st, p) {
            Some(o) if o.kind == Kind::Heap => o,
            _ => return ub(format!("deallocation of something that was never allocated (0x{:x})", p)),
        };
        if !o.alive {
            return ub("double free");
        }
        if o.base != p {
            return ub("deallocation of an interior pointer");
        }
        if !o.lock.is_empty() {
            return ub("deallocation of memory to which a mutable reference is handed out");
        }
        if o.size() != size || o.align != align {
            return ub(format!("deallocation with the wrong layout: {}/{} instead of {}/{}", size, align, o.size(), o.align));
        }
        let n = Obj {
            alive: false,
            sym: Default::default(),
            bytes: vec![UNINIT; size as usize],
            ..(**o).clone()
        };
        *o = Rc::new(n);
        st.live -= 1;
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64, overlap_ok: bool) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        if !overlap_ok && d != s && d < s + n && s < d + n {
            return ub("overlapping copy_nonoverlapping");
        }
        let (o, off) = self.rd(st, s, n, 1)?;
        let n = n as usize;
        let part: Vec<u16> = o.bytes[off..off + n].to_vec();
        let mut syms: Vec<(usize, (E, u8))> = vec![];
        if !o.sym.is_empty() {
            for (i, b) in part.iter().enumerate() {
                if *b == SYM {
                    syms.push((i, o.sym[&((off + i) as u32)]));
                }
            }
        }
        let (t, toff) = self.wr(st, d, n as u64, 1)?;
        t.bytes[toff..toff + n].copy_from_slice(&part);
        for (i, s) in syms {
            t.sym.insert((toff + i) as u32, s);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- running

    fn get(st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    fn set(st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v
    }

    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.blk = to;
        fr.ip = 0;
        self.cov[fr.f.id][to as usize] += 1;
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                match inc.iter().find(|x| x.0 == from) {
                    Some((_, O::R(r))) => vals.push((*d, fr.regs[*r as usize].clone())),
                    Some((_, O::K(v))) => vals.push((*d, v.clone())),
                    None => return eng("phi without matching edge"),
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v
            }
        }
        Ok(())
    }

    fn push_frame(&mut self, st: &mut State, id: usize, args: Vec<V>, ret: Option<u32>, inv: Option<(u32, u32)>, is_try: bool) -> X<()> {
        let f = match self.compiled[id] {
            Some(f) => f,
            None => self.compile(id).map_err(Stop::Engine)?,
        };
        if st.frames.len() > 400 {
            return eng("call depth over 400");
        }
        if f.params.len() != args.len() {
            return eng(format!("arity of {}", f.name));
        }
        let mut regs = vec![V::U; f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a
        }
        self.cov[id][0] += 1;
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, stack_base: st.stack.len(), ret, inv, is_try });
        Ok(())
    }

    /// the current call in the top frame returned `v`
    fn call_done(&mut self, st: &mut State, d: Option<u32>, inv: Option<(u32, u32)>, v: V) -> X<()> {
        if let Some(d) = d {
            Self::set(st, d, v);
        }
        match inv {
            Some((n, _)) => self.jump(st, n),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    /// unwind from the call being executed in the top frame
    fn raise(&mut self, st: &mut State, inv: Option<(u32, u32)>) -> X<()> {
        let mut inv = inv;
        loop {
            if let Some((_, u)) = inv {
                return self.jump(st, u);
            }
            let fr = st.frames.pop().unwrap();
            st.stack.truncate(fr.stack_base);
            if st.frames.is_empty() {
                let m = st.panic.clone().unwrap_or_else(|| Rc::from("?"));
                return Err(Stop::Violation("panic".into(), m.to_string()));
            }
            if fr.is_try {
                st.panic = None;
                return self.call_done(st, fr.ret, fr.inv, V::C(1));
            }
            inv = fr.inv;
        }
    }

    fn loc_string(&self, st: &State, p: u64) -> String {
        let r = (|| -> X<String> {
            let f = cst_val(&self.load_ty(st, p, &Ty::Ptr, 1)?).unwrap_or(0);
            let n = cst_val(&self.load_ty(st, p + 8, &Ty::Int(64), 1)?).unwrap_or(0);
            let l = cst_val(&self.load_ty(st, p + 16, &Ty::Int(32), 1)?).unwrap_or(0);
            let mut s = String::new();
            for i in 0..n.min(200) {
                let c = cst_val(&self.load_ty(st, f + i, &Ty::Int(8), 1)?).unwrap_or(63) as u8;
                if c == 0 {
                    break;
                }
                s.push(c as char)
            }
            Ok(format!("{}:{}", s, l))
        })();
        r.unwrap_or_else(|_| "?".into())
    }

    fn assign_of(&self, st: &State, model: &[u64]) -> Vec<(u32, u64)> {
        let mut v: Vec<(u32, u64)> = st
            .syms
            .iter()
            .map(|s| (s.0, model.get(s.1 as usize).copied().unwrap_or(0)))
            .collect();
        for (k, x) in &self.pins {
            if !v.iter().any(|y| y.0 == *k) {
                v.push((*k, *x));
            }
        }
        v
    }
    fn obs_of(&self, st: &State, model: &[u64]) -> Vec<u64> {
        st.obs
            .iter()
            .map(|v| match v {
                V::C(c) => *c,
                V::S(e) => expr::eval(*e, &|i| model.get(i as usize).copied().unwrap_or(0)),
                _ => u64::MAX,
            })
            .collect()
    }
    fn record(&mut self, st: &State, kind: &str, detail: &str, model: &[u64]) {
        let mut stack = vec![];
        for f in st.frames.iter().rev().take(12) {
            stack.push(if f.f.pretty.is_empty() { f.f.name.clone() } else { f.f.pretty.clone() });
        }
        if let Some(f) = &self.stopfile {
            if self.violations.is_empty() && !std::path::Path::new(f).exists() {
                let _ = std::fs::write(f, "");
            }
        }
        let n = self.violations.iter().filter(|v| v.kind == kind && v.detail == detail).count();
        if n < self.max_viol && self.violations.len() < 200 {
            let (a, o) = (self.assign_of(st, model), self.obs_of(st, model));
            self.violations.push(Violation { kind: kind.into(), detail: detail.into(), stack, assign: a, obs: o });
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let addr = *self.syms.get(entry).ok_or(format!("no entry {}", entry))?;
        let id = ((addr - FUNC) / 16) as usize;
        let mut st = State {
            frames: vec![],
            heap: vec![],
            stack: vec![],
            muts: self.muts0.clone(),
            pc: vec![],
            model: vec![],
            bound: Vars::EMPTY,
            syms: vec![],
            live: 0,
            obs: vec![],
            snaps: vec![],
            panic: None,
            steps: 0,
        };
        if self.push_frame(&mut st, id, vec![], None, None, false).is_err() {
            return Err(format!("cannot enter {}: {:?}", entry, self.compile(id).err()));
        }
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.max_secs {
                self.engine_errors.push("time limit".into());
                break;
            }
            if self.must_stop() {
                break;
            }
            let r = self.run_state(&mut st);
            match r {
                Ok(()) => {}
                Err(Stop::End) => {}
                Err(Stop::Violation(k, d)) => {
                    let m = st.model.clone();
                    self.record(&st, &k, &d, &m);
                    self.paths += 1;
                }
                Err(Stop::Engine(e)) => {
                    let mut s = e;
                    for f in st.frames.iter().rev().take(6) {
                        s += "\n  in ";
                        s += if f.f.pretty.is_empty() { &f.f.name } else { &f.f.pretty };
                    }
                    if self.engine_errors.len() < 10 {
                        self.engine_errors.push(s);
                    }
                    self.paths += 1;
                }
            }
        }
        Ok(())
    }

    fn must_stop(&mut self) -> bool {
        if !self.stopped {
            if let Some(f) = &self.stopfile {
                if let Ok(m) = std::fs::metadata(f) {
                    self.stopped = m.modified().ok().and_then(|t| t.elapsed().ok()).map_or(false, |d| d.as_secs_f64() > 8.0);
                }
            }
        }
        self.stopped
    }

    fn end_path(&mut self, st: &State) {
        self.paths += 1;
        // deterministic thinning: keep a spread over the exploration
        let k = self.paths;
        if self.samples.len() < self.max_samples {
            let s = Sample { assign: self.assign_of(st, &st.model), obs: self.obs_of(st, &st.model) };
            self.samples.push(s);
        } else if self.max_samples > 0 {
            let h = k.wrapping_mul(0x9E3779B97F4A7C15) >> 33;
            if h % k < self.max_samples as u64 {
                let i = (h >> 7) as usize % self.max_samples;
                self.samples[i] = Sample { assign: self.assign_of(st, &st.model), obs: self.obs_of(st, &st.model) };
            }
        }
    }

    fn run_state(&mut self, st: &mut State) -> X<()> {
        let mut tick = 0u32;
        loop {
            self.instrs += 1;
            st.steps += 1;
            tick += 1;
            if tick & 0x3ff == 0 {
                if st.steps > self.max_steps {
                    return Err(Stop::Violation("nontermination".into(), format!("over {} steps on one path", self.max_steps)));
                }
                if self.start.elapsed().as_secs_f64() > self.max_secs {
                    return eng("time limit");
                }
                if tick & 0xfffff == 0 && self.must_stop() {
                    return Err(Stop::End);
                }
                if self.tokens.is_some() && self.work.len() >= 2 {
                    self.try_spawn(st)?;
                }
            }
            let (f, blk, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.f, fr.blk, fr.ip)
            };
            let ins = &f.blocks[blk as usize].ins[ip as usize];
            self.step(st, ins)?;
        }
    }

    fn val_bin(&mut self, st: &mut State, op: Op, w: u8, a: V, b: V, nuw: bool, nsw: bool) -> X<V> {
        if let (V::C(x), V::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            if nuw || nsw {
                let over = match op {
                    Op::Add => {
                        (nuw && x as u128 + y as u128 > mask(w) as u128)
                            || (nsw && {
                                let s = expr::sext64(x, w) as i128 + expr::sext64(y, w) as i128;
                                s != expr::sext64(s as u64 & mask(w), w) as i128
                            })
                    }
                    Op::Sub => {
                        (nuw && x < y)
                            || (nsw && {
                                let s = expr::sext64(x, w) as i128 - expr::sext64(y, w) as i128;
                                s != expr::sext64(s as u64 & mask(w), w) as i128
                            })
                    }
                    Op::Mul => {
                        (nuw && x as u128 * y as u128 > mask(w) as u128)
                            || (nsw && {
                                let s = expr::sext64(x, w) as i128 * expr::sext64(y, w) as i128;
                                s != expr::sext64(s as u64 & mask(w), w) as i128
                            })
                    }
                    Op::Shl => nuw && y < 64 && ((x << y) & mask(w)) >> y != x,
                    _ => false,
                };
                if over {
                    return Ok(V::U);
                }
            }
            return match expr::fold(op, x, y, w) {
                Some(v) => Ok(V::C(v)),
                None => ub("division by zero"),
            };
        }
        match (&a, &b) {
            (V::U, _) | (_, V::U) => return Ok(V::U),
            (V::B(bs), V::C(k)) => {
                // byte-wise shifts and masks of partially initialised integers
                let n = bs.len();
                match op {
                    Op::LShr if k % 8 == 0 && (*k as usize) < n * 8 => {
                        let mut v: Vec<By> = bs[(*k / 8) as usize..].to_vec();
                        v.resize(n, By::C(0));
                        return Ok(from_bytes(&v));
                    }
                    Op::Shl if k % 8 == 0 && (*k as usize) < n * 8 => {
                        let mut v = vec![By::C(0); (*k / 8) as usize];
                        v.extend_from_slice(&bs[..n - (*k / 8) as usize]);
                        return Ok(from_bytes(&v));
                    }
                    Op::And => {
                        let mut v = vec![];
                        let mut ok = true;
                        for i in 0..n {
                            match (k >> (8 * i)) as u8 {
                                0 => v.push(By::C(0)),
                                255 => v.push(bs[i]),
                                _ => ok = false,
                            }
                        }
                        if ok {
                            return Ok(from_bytes(&v));
                        }
                    }
                    _ => {}
                }
                return Ok(V::U);
            }
            (V::B(x), V::B(y)) if op == Op::Or && x.len() == y.len() => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(match (p, q) {
                        (By::C(0), q) => *q,
                        (p, By::C(0)) => *p,
                        _ => By::U,
                    });
                }
                return Ok(from_bytes(&v));
            }
            (V::B(_), _) | (_, V::B(_)) => {
                if op == Op::Or {
                    let n = (w as usize + 7) / 8;
                    let (x, y) = (to_bytes(&a, n), to_bytes(&b, n));
                    let mut v = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        v.push(match (p, q) {
                            (By::C(0), q) => *q,
                            (p, By::C(0)) => *p,
                            _ => By::U,
                        });
                    }
                    return Ok(from_bytes(&v));
                }
                return Ok(V::U);
            }
            (V::A(_), _) | (_, V::A(_)) => return eng("arithmetic on aggregate"),
            _ => {}
        }
        let ea = to_e(&a, w);
        let eb = to_e(&b, w);
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            let z = expr::bin(Op::Eq, eb, expr::cst(0, w));
            if self.decide(st, z)? {
                return ub("division by zero");
            }
        }
        if (nuw || nsw) && w < 64 || nuw && matches!(op, Op::Add | Op::Sub) {
            // wrapping would be undefined behaviour: ask the solver
            let over = if nuw {
                match op {
                    Op::Add => Some(expr::bin(Op::Ult, expr::bin(Op::Add, ea, eb), ea)),
                    Op::Sub => Some(expr::bin(Op::Ult, ea, eb)),
                    _ => None,
                }
            } else {
                None
            };
            if let Some(o) = over {
                if self.decide(st, o)? {
                    return Ok(V::U);
                }
            }
        }
        let e = expr::bin(op, ea, eb);
        Ok(norm(e))
    }

    fn val_icmp(&mut self, p: Pred, w: u8, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (expr::sext64(x, w), expr::sext64(y, w));
            return Ok(V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u64));
        }
        match (a, b) {
            (V::U | V::B(_), _) | (_, V::U | V::B(_)) => return Ok(V::U),
            (V::A(_), _) | (_, V::A(_)) => return eng("icmp on aggregate"),
            _ => {}
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        let e = match p {
            Pred::Eq => expr::bin(Op::Eq, x, y),
            Pred::Ne => expr::not(expr::bin(Op::Eq, x, y)),
            Pred::Ult => expr::bin(Op::Ult, x, y),
            Pred::Ule => expr::bin(Op::Ule, x, y),
            Pred::Ugt => expr::bin(Op::Ult, y, x),
            Pred::Uge => expr::bin(Op::Ule, y, x),
            Pred::Slt => expr::bin(Op::Slt, x, y),
            Pred::Sle => expr::bin(Op::Sle, x, y),
            Pred::Sgt => expr::bin(Op::Slt, y, x),
            Pred::Sge => expr::bin(Op::Sle, y, x),
        };
        Ok(norm(e))
    }

    fn cond(&mut self, st: &mut State, v: &V) -> X<bool> {
        match v {
            V::C(c) => Ok(*c & 1 == 1),
            V::S(e) => self.decide(st, *e),
            _ => ub("branch on an uninitialised or undefined value"),
        }
    }

    #[inline]
    fn next(st: &mut State) {
        st.frames.last_mut().unwrap().ip += 1
    }

    fn step(&mut self, st: &mut State, ins: &'static J) -> X<()> {
        match ins {
            J::Load { d, ty, n, p, align, noundef, nonnull, range } => {
                let pv = Self::get(st, p);
                let a = match pv {
                    V::C(a) => a,
                    ref v => self.concretize(st, v)?,
                };
                let v = if *n > 0 {
                    let (o, off) = self.rd(st, a, *n as u64, *align)?;
                    match o.load(off, *n as usize) {
                        V::S(e) => self.simp(st, e),
                        v => v,
                    }
                } else {
                    self.load_ty(st, a, ty, *align)?
                };
                if *noundef && matches!(v, V::U | V::B(_)) && ty.bits() <= 64 {
                    return ub("read of uninitialised memory as an initialised value");
                }
                if let V::C(c) = v {
                    if *nonnull && c == 0 {
                        return ub("null where a non-null pointer is required");
                    }
                    if let Some((lo, hi)) = *range {
                        let ok = if lo < hi { c >= lo && c < hi } else { c >= lo || c < hi };
                        if !ok {
                            return ub(format!("invalid value {} for its type", c));
                        }
                    }
                }
                Self::set(st, *d, v);
                Self::next(st);
            }
            J::Store { ty, n, v, p, align } => {
                let pv = Self::get(st, p);
                let a = match pv {
                    V::C(a) => a,
                    ref v => self.concretize(st, v)?,
                };
                let val = Self::get(st, v);
                if let (V::C(c), true) = (&val, *n > 0) {
                    let (o, off) = self.wr(st, a, *n as u64, *align)?;
                    o.store_c(off, *n as usize, *c);
                } else {
                    self.store_ty(st, a, ty, &val, *align)?;
                }
                Self::next(st);
            }
            J::Gep { d, base, off, terms, inb } => {
                let b = Self::get(st, base);
                let mut off = *off;
                let mut symt: Vec<E> = vec![];
                for (o, scale, w) in terms {
                    match Self::get(st, o) {
                        V::C(k) => off = off.wrapping_add((expr::sext64(k, *w as u8) as u64).wrapping_mul(*scale)),
                        V::S(e) => {
                            let e = expr::sext(e, 64);
                            symt.push(expr::bin(Op::Mul, e, expr::cst(*scale, 64)));
                        }
                        V::U | V::B(_) => return ub("pointer arithmetic with an undefined offset"),
                        V::A(_) => return eng("gep"),
                    }
                }
                let r = match (&b, symt.is_empty()) {
                    (V::C(a), true) => {
                        let r = a.wrapping_add(off);
                        if *inb && off != 0 {
                            match self.find(st, *a) {
                                Some(o) => {
                                    let e = o.base + o.size();
                                    if *a < o.base || *a > e || r < o.base || r > e {
                                        return ub(format!(
                                            "pointer arithmetic leaves its object: offset {} in {} bytes",
                                            r.wrapping_sub(o.base) as i64,
                                            o.size()
                                        ));
                                    }
                                }
                                None => return ub(format!("pointer arithmetic on a dangling pointer (0x{:x})", a)),
                            }
                        }
                        V::C(r)
                    }
                    (V::U | V::B(_), _) => return ub("pointer arithmetic on an undefined pointer"),
                    (V::A(_), _) => return eng("gep base"),
                    _ => {
                        let mut e = to_e(&b, 64);
                        for t in symt {
                            e = expr::bin(Op::Add, e, t);
                        }
                        e = expr::bin(Op::Add, e, expr::cst(off, 64));
                        norm(e)
                    }
                };
                Self::set(st, *d, r);
                Self::next(st);
            }
            J::Bin { d, op, w, a, b, nuw, nsw } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = self.val_bin(st, *op, *w, x, y, *nuw, *nsw)?;
                Self::set(st, *d, v);
                Self::next(st);
            }
            J::ICmp { d, p, w, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = self.val_icmp(*p, *w, &x, &y)?;
                Self::set(st, *d, v);
                Self::next(st);
            }
            J::Cast { d, k, from, to, wide, a, nuw } => {
                let x = Self::get(st, a);
                let v = match x {
                    V::U => V::U,
                    V::C(c) if *wide <= 64 => match k {
                        CastK::Trunc => {
                            if *nuw && c & mask(*to) != c {
                                V::U
                            } else {
                                V::C(c & mask(*to))
                            }
                        }
                        CastK::SExt => V::C(expr::sext64(c, *from) as u64 & mask(*to)),
                        _ => V::C(c & mask((*to).min(64))),
                    },
                    V::S(e) if *wide <= 64 => match k {
                        CastK::Trunc if to < from => norm(expr::extract(*to - 1, 0, e)),
                        CastK::SExt => norm(expr::sext(e, *to)),
                        CastK::ZExt => norm(expr::zext(e, *to)),
                        CastK::IntToPtr | CastK::PtrToInt if *to > *from => norm(expr::zext(e, *to)),
                        CastK::IntToPtr | CastK::PtrToInt if *to < *from => norm(expr::extract(*to - 1, 0, e)),
                        _ => V::S(e),
                    },
                    V::B(b) if *k == CastK::Trunc && *to % 8 == 0 => from_bytes(&b[..*to as usize / 8]),
                    V::B(b) if *k == CastK::ZExt => {
                        let mut v = (*b).clone();
                        v.resize(*wide as usize / 8, By::C(0));
                        from_bytes(&v)
                    }
                    V::B(b) if *k == CastK::Trunc && *to < 8 => match b[0] {
                        By::C(c) => V::C(c as u64 & mask(*to)),
                        _ => V::U,
                    },
                    V::C(_) | V::S(_) if *k == CastK::ZExt => V::B(Rc::new(to_bytes(&x, *wide as usize / 8))),
                    V::B(_) => V::U,
                    _ => return eng("cast"),
                };
                Self::set(st, *d, v);
                Self::next(st);
            }
            J::Select { d, c, a, b, w } => {
                let cv = Self::get(st, c);
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = match cv {
                    V::C(c) => {
                        if c & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    V::S(e) => match (&x, &y) {
                        // indices and addresses branch, as in the code with an
                        // `if`: nested conditions inside them do not stay small
                        (V::C(_) | V::S(_), V::C(_) | V::S(_)) if *w > 0 && *w <= 8 => {
                            norm(expr::ite(e, to_e(&x, *w), to_e(&y, *w)))
                        }
                        _ => {
                            if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        }
                    },
                    _ => V::U,
                };
                Self::set(st, *d, v);
                Self::next(st);
            }
            J::Br(l) => self.jump(st, *l)?,
            J::CondBr(c, a, b) => {
                let v = Self::get(st, c);
                let t = self.cond(st, &v)?;
                self.jump(st, if t { *a } else { *b })?;
            }
            J::Switch { v, w, def, cases } => {
                let x = Self::get(st, v);
                let k = match &x {
                    V::C(c) => *c,
                    V::S(e) => {
                        // fork by target, not by value
                        let val = self.model_val(st, *e);
                        let c = if cases.iter().any(|c| c.0 == val) {
                            expr::bin(Op::Eq, *e, expr::cst(val, *w))
                        } else {
                            let mut c = expr::cst(1, 1);
                            for (k, _) in cases {
                                let ne = expr::not(expr::bin(Op::Eq, *e, expr::cst(*k, *w)));
                                c = expr::bin(Op::And, c, ne);
                            }
                            c
                        };
                        self.decide(st, c)?;
                        val
                    }
                    _ => return ub("switch on an uninitialised or undefined value"),
                };
                let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                self.jump(st, t)?;
            }
            J::Alloca { d, size, align } => {
                if *size >= (1 << SLOT) - 8192 {
                    return eng("huge stack object");
                }
                let base = STACK + ((st.stack.len() as u64) << SLOT) + *align;
                st.stack.push(Rc::new(Obj::new(base, *size, *align, Kind::Stack)));
                Self::set(st, *d, V::C(base));
                Self::next(st);
            }
            J::Extract { d, a, ix } => {
                let mut v = Self::get(st, a);
                for i in ix {
                    v = match v {
                        V::A(l) => l[*i].clone(),
                        V::U => V::U,
                        _ => return eng("extractvalue"),
                    }
                }
                Self::set(st, *d, v);
                Self::next(st);
            }
            J::Insert { d, ty, a, v, ix } => {
                let mut agg = Self::get(st, a);
                let val = Self::get(st, v);
                insert(&mut agg, ty, ix, val)?;
                Self::set(st, *d, agg);
                Self::next(st);
            }
            J::Freeze { d, a } => {
                let v = match Self::get(st, a) {
                    V::U => V::C(0),
                    v => v,
                };
                Self::set(st, *d, v);
                Self::next(st);
            }
            J::Ret(o) => {
                let v = match o {
                    Some(o) => Self::get(st, o),
                    None => V::U,
                };
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_base);
                if st.frames.is_empty() {
                    self.end_path(st);
                    return Err(Stop::End);
                }
                let v = if fr.is_try { V::C(0) } else { v };
                self.call_done(st, fr.ret, fr.inv, v)?;
            }
            J::Unreachable => return ub("code marked unreachable was executed"),
            J::LandingPad { d } => {
                Self::set(st, *d, V::A(Rc::new(vec![V::C(0x1234), V::C(0)])));
                Self::next(st);
            }
            J::Resume => self.raise_resume(st)?,
            J::Call { d, ret, callee, args, inv } => self.call(st, *d, ret, callee, args, *inv)?,
        }
        Ok(())
    }

    fn raise_resume(&mut self, st: &mut State) -> X<()> {
        // unwinding continues in the caller
        self.raise(st, None)
    }

    fn call(
        &mut self,
        st: &mut State,
        d: Option<u32>,
        ret: &Ty,
        callee: &O,
        args: &'static [(O, bool, bool, u8)],
        inv: Option<(u32, u32)>,
    ) -> X<()> {
        let cv = Self::get(st, callee);
        let addr = self.concretize(st, &cv)?;
        if addr < FUNC || addr >= STACK || (addr - FUNC) / 16 >= self.fns.len() as u64 {
            return ub("call through a wild function pointer");
        }
        let id = ((addr - FUNC) / 16) as usize;
        let mut a: Vec<V> = Vec::with_capacity(args.len());
        for (o, nu, nn, _) in args {
            let v = Self::get(st, o);
            if *nu && matches!(v, V::U | V::B(_)) {
                if let V::U = v {
                    return ub("undefined value passed where an initialised one is required");
                }
            }
            if *nn && matches!(v, V::C(0)) {
                return ub("null passed where a non-null pointer is required");
            }
            a.push(v);
        }
        if let FnKind::Def(..) = self.fns[id].1 {
            return self.push_frame(st, id, a, d, inv, false);
        }
        if let FnKind::Llvm(n) = &self.fns[id].1 {
            let n = n.clone();
            let v = self.llvm(st, &n, &a, args, ret)?;
            return self.call_done(st, d, inv, v);
        }
        let b = match &self.fns[id].1 {
            FnKind::Builtin(b) => *b,
            _ => return eng(format!("call of unknown function {}", self.fns[id].0)),
        };
        let mut r = V::U;
        macro_rules! c {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.concretize(st, &v)?
            }};
        }
        match b {
            Bi::Nop => {}
            Bi::AllocFail => return eng("allocation failure reported"),
            Bi::Alloc | Bi::AllocZeroed => {
                let (s, al) = (c!(0), c!(1));
                r = V::C(self.alloc(st, s, al, b == Bi::AllocZeroed)?);
            }
            Bi::Dealloc => {
                let (p, s, al) = (c!(0), c!(1), c!(2));
                self.dealloc(st, p, s, al)?;
            }
            Bi::Realloc => {
                let (p, s, al, ns) = (c!(0), c!(1), c!(2), c!(3));
                let q = self.alloc(st, ns, al, false)?;
                self.copy(st, q, p, s.min(ns), false)?;
                self.dealloc(st, p, s, al)?;
                r = V::C(q);
            }
            Bi::Panic => {
                let loc = match a.last() {
                    Some(V::C(p)) => self.loc_string(st, *p),
                    _ => "?".into(),
                };
                let n = short_name(&self.fns[id].0);
                st.panic = Some(Rc::from(format!("{} at {}", n, loc)));
                return self.raise(st, inv);
            }
            Bi::Abort => {
                let n = short_name(&self.fns[id].0);
                return Err(Stop::Violation("abort".into(), n));
            }
            Bi::UbAbort => {
                let n = short_name(&self.fns[id].0);
                return ub(format!("unsafe precondition violated ({})", n));
            }
            Bi::IsEngine => r = V::C(1),
            Bi::Stop => {
                self.end_path(st);
                return Err(Stop::End);
            }
            Bi::Param => {
                let i = c!(0) as u32;
                r = V::C(self.params.get(&i).copied().unwrap_or(0));
            }
            Bi::Sym => {
                let (id, lo, hi) = (c!(0) as u32, c!(1), c!(2));
                if let Some(&p) = self.pins.get(&id) {
                    if p < lo || p > hi {
                        self.pruned += 1;
                        return Err(Stop::End);
                    }
                    r = V::C(p);
                } else {
                    let w: u8 = if hi < 256 {
                        8
                    } else if hi < 65536 {
                        16
                    } else {
                        64
                    };
                    let key = (id as u64) << 8 | w as u64;
                    let var = match self.idvar.get(&key) {
                        Some(&v) => v,
                        None => {
                            let v = self.nvars;
                            self.nvars += 1;
                            VARW.with(|x| x.borrow_mut().push(w));
                            self.idvar.insert(key, v);
                            v
                        }
                    };
                    let ve = expr::var(var, w);
                    if !st.syms.iter().any(|s| s.0 == id) {
                        st.syms.push((id, var, w));
                        if st.model.len() <= var as usize {
                            st.model.resize(var as usize + 1, 0)
                        }
                        st.model[var as usize] = lo;
                        if lo > hi {
                            self.pruned += 1;
                            return Err(Stop::End);
                        }
                        let c1 = expr::bin(Op::Ule, expr::cst(lo, w), ve);
                        let c2 = expr::bin(Op::Ule, ve, expr::cst(hi, w));
                        if expr::as_const(c1).is_none() {
                            st.pc.push(c1);
                        }
                        self.assume(st, c2)?;
                    }
                    r = self.simp(st, expr::zext(ve, 64));
                }
            }
            Bi::Assume => match a[0].clone() {
                V::C(c) => {
                    if c & 1 == 0 {
                        self.pruned += 1;
                        return Err(Stop::End);
                    }
                }
                V::S(e) => {
                    let e = to1(e);
                    if self.model_val(st, e) != 1 {
                        match self.check(st, e)? {
                            None => {
                                self.pruned += 1;
                                return Err(Stop::End);
                            }
                            Some(m) => Self::apply_model(st, &m),
                        }
                    }
                    self.assume(st, e)?;
                }
                _ => return ub("assume on undefined value"),
            },
            Bi::Check => {
                let id = c!(1) as u32;
                let ent = self.checks.entry(id).or_insert((0, 0));
                ent.0 += 1;
                match a[0].clone() {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Violation("check".into(), format!("{}", id)));
                        }
                    }
                    V::S(e) => {
                        ent.1 += 1;
                        let e = to1(e);
                        let n = expr::not(e);
                        if let Some(m) = self.check(st, n)? {
                            let mut o = st.clone();
                            Self::apply_model(&mut o, &m);
                            let mm = o.model.clone();
                            self.record(&o, "check", &format!("{}", id), &mm);
                            match self.check(st, e)? {
                                None => {
                                    self.paths += 1;
                                    return Err(Stop::End);
                                }
                                Some(m) => {
                                    if self.model_val(st, e) != 1 {
                                        Self::apply_model(st, &m)
                                    }
                                    self.assume(st, e)?;
                                }
                            }
                        }
                    }
                    _ => return ub("check on undefined value"),
                }
            }
            Bi::Cover => {
                let id = c!(0) as u32;
                let n = self.covers.get(&id).map(|c| c.0).unwrap_or(0);
                if n == 0 {
                    let asg = self.assign_of(st, &st.model);
                    self.covers.insert(id, (1, asg));
                } else {
                    self.covers.get_mut(&id).unwrap().0 += 1;
                }
            }
            Bi::Observe => st.obs.push(a[0].clone()),
            Bi::Peek => {
                // one byte; 256 if uninitialised, 257 if symbolic, 258 if not addressable
                let p = c!(0);
                let v = match self.rd(st, p, 1, 1) {
                    Ok((o, off)) => match o.byte(off) {
                        By::C(c) => c as u64,
                        By::U => 256,
                        By::S(..) => 257,
                    },
                    Err(_) => 258,
                };
                r = V::C(v);
            }
            Bi::Poke => {
                let (p, n) = (c!(0), c!(1));
                let v = a[2].clone();
                let b = to_bytes(&v, n as usize);
                let (o, off) = self.wr(st, p, n, 1)?;
                o.store_bytes(off, &b);
            }
            Bi::Lock => {
                // v_lock(ptr, n): whether none of these bytes was locked; now they are
                let (p, n) = (c!(0), c!(1));
                let mut free = true;
                if n > 0 {
                    let o = Self::find_mut(st, p);
                    match Self::acc_check(o.as_deref(), p, n, 1, "reference") {
                        Ok(off) => Rc::make_mut(o.unwrap()).lock.push((off as u64, off as u64 + n)),
                        Err(e) if o.map_or(true, |o| o.lock.is_empty()) => return Err(e),
                        Err(_) => free = false,
                    }
                }
                r = V::C(free as u64);
            }
            Bi::Unlock => {
                for l in [&mut st.heap, &mut st.stack, &mut st.muts] {
                    for o in l.iter_mut() {
                        if !o.lock.is_empty() {
                            Rc::make_mut(o).lock.clear()
                        }
                    }
                }
            }
            Bi::Live => r = V::C(st.live as u64),
            Bi::Alive => {
                let p = c!(0);
                let ok = match self.find(st, p) {
                    Some(o) => o.alive && p >= o.base && p < o.base + o.size(),
                    None => false,
                };
                r = V::C(ok as u64);
            }
            Bi::ObjSize => {
                let p = c!(0);
                r = V::C(match self.find(st, p) {
                    Some(o) if o.alive && p >= o.base && p <= o.base + o.size() => o.base + o.size() - p,
                    _ => 0,
                });
            }
            Bi::Try => {
                let f = c!(0);
                let id = ((f.wrapping_sub(FUNC)) / 16) as usize;
                if id >= self.fns.len() || !matches!(self.fns[id].1, FnKind::Def(..)) {
                    return eng("v_try of a non-function");
                }
                let arg = a[1].clone();
                return self.push_frame(st, id, vec![arg], d, inv, true);
            }
            Bi::Concretize => r = V::C(c!(0)),
            Bi::Snapshot => {
                let (p, n) = (c!(0), c!(1));
                let (o, off) = self.rd(st, p, n, 1)?;
                let b: Vec<By> = (0..n as usize).map(|i| o.byte(off + i)).collect();
                let o = o.clone();
                r = V::C(st.snaps.len() as u64);
                st.snaps.push(Rc::new((p, b, o)));
            }
            Bi::Same => {
                // v_same(id, ptr, skip_lo, skip_hi)
                let (id, p, lo, hi) = (c!(0), c!(1), c!(2), c!(3));
                let sn = match st.snaps.get(id as usize) {
                    Some(s) => s.clone(),
                    None => return eng("v_same: no such snapshot"),
                };
                let same = match self.rd(st, p, sn.1.len() as u64, 1) {
                    Err(_) => false,
                    Ok((o, _)) if Rc::ptr_eq(o, &sn.2) && p == sn.0 => true,
                    Ok((o, off)) => (0..sn.1.len())
                        .filter(|i| (*i as u64) < lo || *i as u64 >= hi)
                        .all(|i| o.byte(off + i) == sn.1[i]),
                };
                r = V::C(same as u64);
            }
            Bi::Memcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let mut res: i32 = 0;
                for i in 0..n {
                    let x = self.load_ty(st, p + i, &Ty::Int(8), 1)?;
                    let y = self.load_ty(st, q + i, &Ty::Int(8), 1)?;
                    let (x, y) = (self.concretize(st, &x)?, self.concretize(st, &y)?);
                    if x != y {
                        res = if x < y { -1 } else { 1 };
                        break;
                    }
                }
                r = V::C(res as u32 as u64);
            }
        }
        self.call_done(st, d, inv, r)
    }

    fn llvm(&mut self, st: &mut State, n: &str, a: &[V], args: &[(O, bool, bool, u8)], ret: &Ty) -> X<V> {
        let is = |p: &str| n.starts_with(p);
        if is("lifetime") {
            if let Some(V::C(p)) = a.last() {
                let p = *p;
                if let Some(o) = Self::find_mut(st, p) {
                    if o.kind == Kind::Stack && o.base == p {
                        let o = Rc::make_mut(o);
                        for b in o.bytes.iter_mut() {
                            *b = UNINIT
                        }
                        if !o.sym.is_empty() {
                            o.sym.clear();
                        }
                    }
                }
            }
            return Ok(V::U);
        }
        if is("expect") {
            return Ok(a[0].clone());
        }
        if is("memcpy") || is("memmove") {
            let (d, s, l) = (self.concretize(st, &a[0])?, self.concretize(st, &a[1])?, self.concretize(st, &a[2])?);
            self.copy(st, d, s, l, is("memmove"))?;
            return Ok(V::U);
        }
        if is("memset") {
            let (d, l) = (self.concretize(st, &a[0])?, self.concretize(st, &a[2])?);
            if l > 0 {
                let b = match &a[1] {
                    V::C(c) => By::C(*c as u8),
                    V::S(e) => By::S(*e, 0),
                    _ => By::U,
                };
                let (o, off) = self.wr(st, d, l, 1)?;
                for i in 0..l as usize {
                    o.set_byte(off + i, b)
                }
            }
            return Ok(V::U);
        }
        if is("assume") {
            match &a[0] {
                V::C(c) => {
                    if c & 1 == 0 {
                        return ub("a condition promised to the compiler is false");
                    }
                }
                V::S(e) => {
                    if !self.decide(st, *e)? {
                        return ub("a condition promised to the compiler is false");
                    }
                }
                _ => return ub("assume on undefined value"),
            }
            return Ok(V::U);
        }
        if is("is.constant") {
            return Ok(V::C(0));
        }
        if is("trap") || is("debugtrap") {
            return Err(Stop::Violation("abort".into(), "trap".into()));
        }
        if is("experimental.noalias") || is("prefetch") || is("sideeffect") || is("donothing") {
            return Ok(V::U);
        }
        let w = args.first().map(|x| x.3).unwrap_or(64);
        if a.iter().any(|v| matches!(v, V::U | V::B(_))) {
            return Ok(V::U);
        }
        if is("ucmp") || is("scmp") {
            let rw = ret.bits() as u8;
            let (lt, eq) = if is("ucmp") {
                (self.val_icmp(Pred::Ult, w, &a[0], &a[1])?, self.val_icmp(Pred::Eq, w, &a[0], &a[1])?)
            } else {
                (self.val_icmp(Pred::Slt, w, &a[0], &a[1])?, self.val_icmp(Pred::Eq, w, &a[0], &a[1])?)
            };
            let e = expr::ite(
                to_e(&lt, 1),
                expr::cst(u64::MAX, rw),
                expr::ite(to_e(&eq, 1), expr::cst(0, rw), expr::cst(1, rw)),
            );
            return Ok(norm(e));
        }
        for (nm, p) in [("umin", Pred::Ult), ("umax", Pred::Ugt), ("smin", Pred::Slt), ("smax", Pred::Sgt)] {
            if is(nm) {
                let c = self.val_icmp(p, w, &a[0], &a[1])?;
                let t = self.cond(st, &c)?;
                return Ok(a[if t { 0 } else { 1 }].clone());
            }
        }
        if n.contains(".with.overflow") || is("uadd.sat") || is("usub.sat") {
            let sat = n.contains(".sat");
            let signed = n.starts_with('s');
            let op = if n[1..].starts_with("add") {
                Op::Add
            } else if n[1..].starts_with("sub") {
                Op::Sub
            } else {
                Op::Mul
            };
            let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
            let r = expr::bin(op, x, y);
            let ov = match (op, signed) {
                (Op::Add, false) => expr::bin(Op::Ult, r, x),
                (Op::Sub, false) => expr::bin(Op::Ult, x, y),
                (Op::Add, true) if w > 1 => {
                    let t = expr::bin(Op::And, expr::bin(Op::Xor, x, r), expr::bin(Op::Xor, y, r));
                    expr::bin(Op::Slt, t, expr::cst(0, w))
                }
                (Op::Sub, true) if w > 1 => {
                    let t = expr::bin(Op::And, expr::bin(Op::Xor, x, y), expr::bin(Op::Xor, x, r));
                    expr::bin(Op::Slt, t, expr::cst(0, w))
                }
                (Op::Mul, false) if expr::as_const(y).is_some() && expr::as_const(x).is_none() => {
                    let c = expr::as_const(y).unwrap();
                    if c == 0 {
                        expr::cst(0, 1)
                    } else {
                        expr::bin(Op::Ult, expr::cst(mask(w) / c, w), x)
                    }
                }
                _ => {
                    // concrete only, or through a wider multiplication
                    let (xc, yc) = (expr::as_const(x), expr::as_const(y));
                    match (xc, yc) {
                        (Some(p), Some(q)) => {
                            let o = if signed {
                                let (p, q) = (expr::sext64(p, w) as i128, expr::sext64(q, w) as i128);
                                let s = match op {
                                    Op::Add => p + q,
                                    Op::Sub => p - q,
                                    _ => p * q,
                                };
                                s != expr::sext64(s as u64 & mask(w), w) as i128
                            } else {
                                p as u128 * q as u128 > mask(w) as u128
                            };
                            expr::cst(o as u64, 1)
                        }
                        _ => {
                            // fall back to case-splitting on the operands
                            let xv = self.concretize(st, &norm(x))?;
                            let yv = self.concretize(st, &norm(y))?;
                            let o = if signed {
                                let (p, q) = (expr::sext64(xv, w) as i128, expr::sext64(yv, w) as i128);
                                let s = match op {
                                    Op::Add => p + q,
                                    Op::Sub => p - q,
                                    _ => p * q,
                                };
                                s != expr::sext64(s as u64 & mask(w), w) as i128
                            } else {
                                xv as u128 * yv as u128 > mask(w) as u128
                            };
                            expr::cst(o as u64, 1)
                        }
                    }
                }
            };
            if sat {
                let lim = if op == Op::Add { expr::cst(u64::MAX, w) } else { expr::cst(0, w) };
                return Ok(norm(expr::ite(ov, lim, r)));
            }
            return Ok(V::A(Rc::new(vec![norm(r), norm(ov)])));
        }
        // the rest on concrete operands
        let mut c = vec![];
        for v in a {
            c.push(self.concretize(st, v)?)
        }
        let x = c.first().copied().unwrap_or(0);
        let r = if is("ctpop") {
            x.count_ones() as u64
        } else if is("ctlz") {
            (x.leading_zeros() as u64) - (64 - w as u64)
        } else if is("cttz") {
            (x.trailing_zeros() as u64).min(w as u64)
        } else if is("bswap") {
            x.swap_bytes() >> (64 - w as u64)
        } else if is("bitreverse") {
            x.reverse_bits() >> (64 - w as u64)
        } else if is("abs") {
            (expr::sext64(x, w).wrapping_abs() as u64) & mask(w)
        } else if is("fshl") {
            let k = c[2] % w as u64;
            if k == 0 {
                x
            } else {
                ((x << k) | (c[1] >> (w as u64 - k))) & mask(w)
            }
        } else if is("fshr") {
            let k = c[2] % w as u64;
            if k == 0 {
                c[1]
            } else {
                ((x << (w as u64 - k)) | (c[1] >> k)) & mask(w)
            }
        } else if is("ptrmask") {
            x & c[1]
        } else {
            return eng(format!("llvm intrinsic {}", n));
        };
        Ok(V::C(r))
    }

    // ------------------------------------------------- splitting over processes

    /// hand half of the pending states to a new process if a slot is free
    fn try_spawn(&mut self, _st: &State) -> X<()> {
        if self.last_spawn.elapsed().as_secs_f64() < 0.02 {
            return Ok(());
        }
        self.last_spawn = Instant::now();
        let (r, _) = self.tokens.unwrap();
        let mut b = [0u8; 1];
        let n = unsafe { sys::read(r, b.as_mut_ptr(), 1) };
        if n != 1 {
            return Ok(());
        }
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            self.put_token();
            return Ok(());
        }
        let half = (self.work.len() + 1) / 2;
        if pid == 0 {
            // child: the oldest half, which holds the largest subtrees
            self.work.truncate(half);
            self.is_child = true;
            self.children.clear();
            // a flat name: nested ones would exceed the length limit
            let base = match self.outfile.find(".json") {
                Some(k) => self.outfile[..k + 5].to_string(),
                None => self.outfile.clone(),
            };
            let ns = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0);
            self.outfile = format!("{}.{}.{}", base, unsafe { sys::getpid() }, ns);
            self.paths = 0;
            self.pruned = 0;
            self.forks = 0;
            self.instrs = 0;
            self.samples.clear();
            self.violations.clear();
            self.engine_errors.clear();
            self.covers.clear();
            self.checks.clear();
            for c in self.cov.iter_mut() {
                for x in c.iter_mut() {
                    *x = 0
                }
            }
            self.solver.queries = 0;
            self.solver.cache_hits = 0;
            self.solver.time = 0.0;
            if let Some(d) = &mut self.solver.dump {
                d.clear()
            }
            return Err(Stop::End);
        }
        self.work.drain(..half);
        self.children.push(pid);
        Ok(())
    }
    pub fn put_token(&self) {
        if let Some((_, w)) = self.tokens {
            let b = [b'+'];
            unsafe { sys::write(w, b.as_ptr(), 1) };
        }
    }
}

pub mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
        pub fn getpid() -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
        pub fn _exit(c: i32) -> !;
    }
}

fn scalar_bytes(ty: &Ty) -> u8 {
    match ty {
        Ty::Ptr => 8,
        Ty::Int(w) if *w % 8 == 0 && *w <= 64 => (*w / 8) as u8,
        _ => 0,
    }
}

fn insert(agg: &mut V, ty: &Ty, ix: &[usize], val: V) -> X<()> {
    if let V::U = agg {
        *agg = V::A(Rc::new(vec![V::U; ty.nelem()]));
    }
    match agg {
        V::A(l) => {
            let l = Rc::make_mut(l);
            if ix.len() == 1 {
                l[ix[0]] = val;
                Ok(())
            } else {
                insert(&mut l[ix[0]], &ty.elem(ix[0]), &ix[1..], val)
            }
        }
        _ => eng("insertvalue"),
    }
}

pub fn to_e(v: &V, w: u8) -> E {
    match v {
        V::C(c) => expr::cst(*c, w),
        V::S(e) => {
            debug_assert_eq!(expr::width(*e), w);
            *e
        }
        _ => panic!("to_e"),
    }
}
fn to1(e: E) -> E {
    let w = expr::width(e);
    if w == 1 {
        e
    } else {
        expr::extract(0, 0, e)
    }
}
pub fn norm(e: E) -> V {
    match expr::as_const(e) {
        Some(c) => V::C(c),
        None => V::S(e),
    }
}

/// last readable component of a mangled name
pub fn short_name(n: &str) -> String {
    // v0 mangling: length-prefixed identifiers
    let b = n.as_bytes();
    let mut parts: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            if let Ok(k) = n[st..i].parse::<usize>() {
                let mut s = i;
                if b.get(s) == Some(&b'_') {
                    s += 1
                }
                if k > 1 && s + k <= b.len() && b[s].is_ascii_alphabetic() {
                    parts.push(n[s..s + k].to_string());
                    i = s + k;
                    continue;
                }
            }
        } else {
            i += 1
        }
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        let k = parts.len().saturating_sub(2);
        parts[k..].join("::")
    }
}

fn classify(n: &str) -> FnKind {
    use Bi::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        return FnKind::Llvm(r.to_string());
    }
    let exact = [
        ("v_sym", Sym),
        ("v_param", Param),
        ("v_assume", Assume),
        ("v_check", Check),
        ("v_cover", Cover),
        ("v_observe", Observe),
        ("v_peek", Peek),
        ("v_poke", Poke),
        ("v_lock", Lock),
        ("v_unlock", Unlock),
        ("v_live", Live),
        ("v_try", Try),
        ("v_concretize", Concretize),
        ("v_snapshot", Snapshot),
        ("v_same", Same),
        ("v_is_engine", IsEngine),
        ("v_objsize", ObjSize),
        ("v_alive", Alive),
        ("v_stop", Stop),
        ("memcmp", Memcmp),
        ("bcmp", Memcmp),
        ("abort", Abort),
    ];
    for (k, b) in exact {
        if n == k {
            return FnKind::Builtin(b);
        }
    }
    let has = |s: &str| n.contains(s);
    let b = if has("7___rustc12___rust_alloc") {
        Alloc
    } else if has("7___rustc19___rust_alloc_zeroed") {
        AllocZeroed
    } else if has("7___rustc14___rust_dealloc") {
        Dealloc
    } else if has("7___rustc14___rust_realloc") {
        Realloc
    } else if has("no_alloc_shim_is_unstable") {
        Nop
    } else if has("handle_alloc_error") {
        AllocFail
    } else if has("panic_cannot_unwind") || has("panic_in_cleanup") || has("process5abort") {
        Abort
    } else if has("panic_nounwind") || has("panic_misaligned") || has("panic_null_") || has("panic_invalid_enum") {
        UbAbort
    } else if has("9panicking") || has("unwrap_failed") || has("expect_failed") || has("_fail") || has("capacity_overflow") || has("panic_") {
        Panic
    } else if has("rust_eh_personality") {
        Nop
    } else {
        return FnKind::Unknown;
    };
    FnKind::Builtin(b)
}
