//! Hash-consed bit-vector expressions with light simplification.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum X {
    Const(u64),
    Var(u32),
    Bin(Op, E, E),
    Not(E), // 1-bit negation
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(u8, u8, E), // hi, lo
}

pub const VW: usize = 6; // 384 variables
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Vars(pub [u64; VW]);
impl Vars {
    pub const EMPTY: Vars = Vars([0; VW]);
    pub fn one(i: u32) -> Vars {
        let mut v = Vars([0; VW]);
        assert!((i as usize) < 64 * VW, "too many symbolic variables");
        v.0[i as usize / 64] |= 1 << (i % 64);
        v
    }
    pub fn or(&self, o: &Vars) -> Vars {
        let mut r = *self;
        for i in 0..VW {
            r.0[i] |= o.0[i]
        }
        r
    }
    pub fn meets(&self, o: &Vars) -> bool {
        (0..VW).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn subset(&self, o: &Vars) -> bool {
        (0..VW).all(|i| self.0[i] & !o.0[i] == 0)
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn first(&self) -> Option<u32> {
        for i in 0..VW {
            if self.0[i] != 0 {
                return Some(i as u32 * 64 + self.0[i].trailing_zeros());
            }
        }
        None
    }
}

pub struct Arena {
    /// node, width, variables, size when written out as a tree
    pub nodes: Vec<(X, u8, Vars, u64)>,
    map: FxMap<(X, u8), E>,
    pub var_names: Vec<String>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena { nodes: vec![], map: Default::default(), var_names: vec![] });
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn get(e: E) -> (X, u8) {
    AR.with(|a| {
        let a = a.borrow();
        let n = &a.nodes[e as usize];
        (n.0, n.1)
    })
}
pub fn width(e: E) -> u8 {
    get(e).1
}
pub fn vars(e: E) -> Vars {
    AR.with(|a| a.borrow().nodes[e as usize].2)
}
pub fn tree(e: E) -> u64 {
    AR.with(|a| a.borrow().nodes[e as usize].3)
}
pub fn as_const(e: E) -> Option<u64> {
    match get(e).0 {
        X::Const(c) => Some(c),
        _ => None,
    }
}

fn intern(x: X, w: u8) -> E {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&e) = a.map.get(&(x, w)) {
            return e;
        }
        let vs = match x {
            X::Const(_) => Vars::EMPTY,
            X::Var(i) => Vars::one(i),
            X::Bin(_, p, q) => a.nodes[p as usize].2.or(&a.nodes[q as usize].2),
            X::Not(p) | X::ZExt(p) | X::SExt(p) | X::Extract(_, _, p) => a.nodes[p as usize].2,
            X::Ite(c, p, q) => a.nodes[c as usize]
                .2
                .or(&a.nodes[p as usize].2)
                .or(&a.nodes[q as usize].2),
        };
        let t = |p: E| a.nodes[p as usize].3;
        let size = match x {
            X::Const(_) | X::Var(_) => 1,
            X::Bin(_, p, q) => t(p).saturating_add(t(q)).saturating_add(1),
            X::Not(p) | X::ZExt(p) | X::SExt(p) | X::Extract(_, _, p) => t(p).saturating_add(1),
            X::Ite(c, p, q) => t(c).saturating_add(t(p)).saturating_add(t(q)).saturating_add(1),
        };
        let e = a.nodes.len() as E;
        a.nodes.push((x, w, vs, size));
        a.map.insert((x, w), e);
        e
    })
}

pub fn cst(v: u64, w: u8) -> E {
    intern(X::Const(v & mask(w)), w)
}
/// The `i`-th variable; a given index always has the same width within a run.
pub fn var(i: u32, w: u8) -> E {
    intern(X::Var(i), w)
}

pub fn fold(op: Op, a: u64, b: u64, w: u8) -> Option<u64> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            let (x, y) = (sext64(a, w), sext64(b, w));
            if y == 0 {
                return None;
            }
            (x.wrapping_div(y) as u64) & m
        }
        Op::SRem => {
            let (x, y) = (sext64(a, w), sext64(b, w));
            if y == 0 {
                return None;
            }
            (x.wrapping_rem(y) as u64) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext64(a, w);
            let k = if b >= w as u64 { w as u64 - 1 } else { b };
            ((s >> k) as u64) & m
        }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sext64(a, w) < sext64(b, w)) as u64,
        Op::Sle => (sext64(a, w) <= sext64(b, w)) as u64,
        Op::Concat => unreachable!(),
    })
}

pub fn not(a: E) -> E {
    match get(a).0 {
        X::Const(c) => cst(c ^ 1, 1),
        X::Not(b) => b,
        X::Bin(Op::Ult, p, q) => intern(X::Bin(Op::Ule, q, p), 1),
        X::Bin(Op::Ule, p, q) => intern(X::Bin(Op::Ult, q, p), 1),
        _ => intern(X::Not(a), 1),
    }
}

pub fn zext(a: E, w: u8) -> E {
    let (x, aw) = get(a);
    if aw == w {
        return a;
    }
    match x {
        X::Const(c) => cst(c, w),
        X::ZExt(b) => zext(b, w),
        X::Ite(c, p, q) if as_const(p).is_some() && as_const(q).is_some() => {
            ite(c, zext(p, w), zext(q, w))
        }
        _ => intern(X::ZExt(a), w),
    }
}
pub fn sext(a: E, w: u8) -> E {
    let (x, aw) = get(a);
    if aw == w {
        return a;
    }
    match x {
        X::Const(c) => cst(sext64(c, aw) as u64, w),
        X::Ite(c, p, q) if as_const(p).is_some() && as_const(q).is_some() => {
            ite(c, sext(p, w), sext(q, w))
        }
        _ => intern(X::SExt(a), w),
    }
}
pub fn extract(hi: u8, lo: u8, a: E) -> E {
    let (x, aw) = get(a);
    let w = hi - lo + 1;
    if lo == 0 && w == aw {
        return a;
    }
    match x {
        X::Const(c) => cst(c >> lo, w),
        X::Extract(_, l2, b) => extract(hi + l2, lo + l2, b),
        X::ZExt(b) => {
            let bw = width(b);
            if lo >= bw {
                cst(0, w)
            } else if hi < bw {
                extract(hi, lo, b)
            } else if lo == 0 {
                zext(b, w)
            } else {
                zext(extract(bw - 1, lo, b), w)
            }
        }
        X::SExt(b) if hi < width(b) => extract(hi, lo, b),
        X::Bin(Op::Concat, p, q) => {
            let qw = width(q);
            if hi < qw {
                extract(hi, lo, q)
            } else if lo >= qw {
                extract(hi - qw, lo - qw, p)
            } else {
                concat(extract(hi - qw, 0, p), extract(qw - 1, lo, q))
            }
        }
        X::Bin(op @ (Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor), p, q)
            if lo == 0 && (matches!(get(p).0, X::ZExt(_) | X::Const(_)) || matches!(get(q).0, X::ZExt(_) | X::Const(_))) =>
        {
            bin(op, extract(hi, 0, p), extract(hi, 0, q))
        }
        X::Ite(c, p, q) => ite(c, extract(hi, lo, p), extract(hi, lo, q)),
        _ => intern(X::Extract(hi, lo, a), w),
    }
}
/// a is the high part
pub fn concat(a: E, b: E) -> E {
    let (xa, wa) = get(a);
    let (xb, wb) = get(b);
    match (xa, xb) {
        (X::Const(p), X::Const(q)) => return cst(p << wb | q, wa + wb),
        (X::Const(0), _) => return zext(b, wa + wb),
        (X::Extract(h1, l1, e1), X::Extract(h2, l2, e2)) if e1 == e2 && l1 == h2 + 1 => {
            return extract(h1, l2, e1)
        }
        _ => {}
    }
    intern(X::Bin(Op::Concat, a, b), wa + wb)
}
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    match get(c).0 {
        X::Const(1) => return a,
        X::Const(_) => return b,
        X::Not(d) => return ite(d, b, a),
        _ => {}
    }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    intern(X::Ite(c, a, b), w)
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (xa, w) = get(a);
    let (xb, wb) = get(b);
    debug_assert!(w == wb || op == Op::Concat, "{:?} {} {}", op, w, wb);
    let rw = match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
        Op::Concat => return concat(a, b),
        _ => w,
    };
    if let (X::Const(p), X::Const(q)) = (xa, xb) {
        if let Some(v) = fold(op, p, q, w) {
            return cst(v, rw);
        }
    }
    let ca = if let X::Const(c) = xa { Some(c) } else { None };
    let cb = if let X::Const(c) = xb { Some(c) } else { None };
    match op {
        Op::Add => {
            if ca == Some(0) {
                return b;
            }
            if cb == Some(0) {
                return a;
            }
            if ca.is_some() {
                return bin(op, b, a);
            }
            if let (Some(c), X::Bin(Op::Add, p, q)) = (cb, xa) {
                if let Some(c2) = as_const(q) {
                    return bin(Op::Add, p, cst(c.wrapping_add(c2), w));
                }
            }
            if let (Some(c), X::Bin(Op::Sub, p, q)) = (cb, xa) {
                if let Some(c2) = as_const(p) {
                    return bin(Op::Sub, cst(c.wrapping_add(c2), w), q);
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return cst(0, w);
            }
            if let Some(c) = cb {
                return bin(Op::Add, a, cst(c.wrapping_neg(), w));
            }
        }
        Op::Mul => {
            if ca.is_some() && cb.is_none() {
                return bin(op, b, a);
            }
            match cb {
                Some(0) => return b,
                Some(1) => return a,
                _ => {}
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if ca == Some(0) || cb == Some(mask(w)) {
                return a;
            }
            if cb == Some(0) || ca == Some(mask(w)) {
                return b;
            }
            if w == 1 && (xa == X::Not(b) || xb == X::Not(a)) {
                return cst(0, 1);
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if ca == Some(0) || cb == Some(mask(w)) {
                return b;
            }
            if cb == Some(0) || ca == Some(mask(w)) {
                return a;
            }
            if w == 1 && (xa == X::Not(b) || xb == X::Not(a)) {
                return cst(1, 1);
            }
        }
        Op::Xor => {
            if a == b {
                return cst(0, w);
            }
            if ca == Some(0) {
                return b;
            }
            if cb == Some(0) {
                return a;
            }
            if w == 1 {
                if ca == Some(1) {
                    return not(b);
                }
                if cb == Some(1) {
                    return not(a);
                }
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k < w as u64 {
                    let k = k as u8;
                    if op == Op::LShr {
                        return zext(extract(w - 1, k, a), w);
                    }
                    if op == Op::Shl {
                        return concat(extract(w - 1 - k, 0, a), cst(0, k));
                    }
                }
            }
        }
        Op::Eq => {
            if a == b {
                return cst(1, 1);
            }
            if ca.is_some() && cb.is_none() {
                return bin(op, b, a);
            }
            if w == 1 {
                if cb == Some(1) {
                    return a;
                }
                if cb == Some(0) {
                    return not(a);
                }
            }
            if let Some(c) = cb {
                match xa {
                    X::ZExt(p) => {
                        let pw = width(p);
                        if c > mask(pw) {
                            return cst(0, 1);
                        }
                        return bin(Op::Eq, p, cst(c, pw));
                    }
                    X::SExt(p) => {
                        let pw = width(p);
                        if sext64(c & mask(pw), pw) as u64 & mask(w) != c {
                            return cst(0, 1);
                        }
                        return bin(Op::Eq, p, cst(c, pw));
                    }
                    X::Bin(Op::Add, p, q) => {
                        if let Some(c2) = as_const(q) {
                            return bin(Op::Eq, p, cst(c.wrapping_sub(c2), w));
                        }
                    }
                    X::Bin(Op::Sub, p, q) => {
                        if let Some(c2) = as_const(p) {
                            return bin(Op::Eq, q, cst(c2.wrapping_sub(c), w));
                        }
                    }
                    X::Bin(Op::Concat, p, q) => {
                        let qw = width(q);
                        return bin(
                            Op::And,
                            bin(Op::Eq, p, cst(c >> qw, width(p))),
                            bin(Op::Eq, q, cst(c, qw)),
                        );
                    }
                    X::Ite(cc, p, q) => {
                        if let (Some(p), Some(q)) = (as_const(p), as_const(q)) {
                            return match (p == c, q == c) {
                                (true, true) => cst(1, 1),
                                (true, false) => cc,
                                (false, true) => not(cc),
                                _ => cst(0, 1),
                            };
                        }
                        if as_const(p).is_some() || as_const(q).is_some() {
                            return ite(cc, bin(Op::Eq, p, b), bin(Op::Eq, q, b));
                        }
                    }
                    _ => {}
                }
            } else if let (X::ZExt(p), X::ZExt(q)) = (xa, xb) {
                if width(p) == width(q) {
                    return bin(Op::Eq, p, q);
                }
            }
        }
        Op::Ult | Op::Ule => {
            if a == b {
                return cst((op == Op::Ule) as u64, 1);
            }
            if op == Op::Ult && (cb == Some(0) || ca == Some(mask(w))) {
                return cst(0, 1);
            }
            if op == Op::Ule && (ca == Some(0) || cb == Some(mask(w))) {
                return cst(1, 1);
            }
            if let (X::ZExt(p), X::ZExt(q)) = (xa, xb) {
                if width(p) == width(q) {
                    return bin(op, p, q);
                }
            }
            if let (X::ZExt(p), Some(c)) = (xa, cb) {
                let pw = width(p);
                if c > mask(pw) {
                    return cst(1, 1);
                }
                return bin(op, p, cst(c, pw));
            }
            if let (Some(c), X::ZExt(q)) = (ca, xb) {
                let qw = width(q);
                if c > mask(qw) {
                    return cst(0, 1);
                }
                return bin(op, cst(c, qw), q);
            }
        }
        Op::Slt | Op::Sle => {
            if a == b {
                return cst((op == Op::Sle) as u64, 1);
            }
            // both non-negative: unsigned comparison
            let nonneg = |x: X| match x {
                X::ZExt(_) => true,
                X::Const(c) => sext64(c, w) >= 0,
                _ => false,
            };
            if nonneg(xa) && nonneg(xb) {
                return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
        }
        _ => {}
    }
    intern(X::Bin(op, a, b), rw)
}

pub fn eval(e: E, model: &dyn Fn(u32) -> u64) -> u64 {
    let mut memo: FxMap<E, u64> = Default::default();
    eval_m(e, model, &mut memo)
}
fn eval_m(e: E, model: &dyn Fn(u32) -> u64, memo: &mut FxMap<E, u64>) -> u64 {
    let (x, w) = get(e);
    match x {
        X::Const(c) => return c,
        X::Var(i) => return model(i) & mask(w),
        _ => {}
    }
    if let Some(&v) = memo.get(&e) {
        return v;
    }
    let v = match x {
        X::Bin(Op::Concat, a, b) => {
            let (va, vb) = (eval_m(a, model, memo), eval_m(b, model, memo));
            va << width(b) | vb
        }
        X::Bin(op, a, b) => {
            let (va, vb) = (eval_m(a, model, memo), eval_m(b, model, memo));
            let wa = width(a);
            // SMT-LIB total semantics for division by zero
            fold(op, va, vb, wa).unwrap_or(match op {
                Op::UDiv => mask(wa),
                Op::URem | Op::SRem => va,
                _ => {
                    if sext64(va, wa) < 0 {
                        1
                    } else {
                        mask(wa)
                    }
                }
            })
        }
        X::Not(a) => eval_m(a, model, memo) ^ 1,
        X::Ite(c, a, b) => {
            if eval_m(c, model, memo) == 1 {
                eval_m(a, model, memo)
            } else {
                eval_m(b, model, memo)
            }
        }
        X::ZExt(a) => eval_m(a, model, memo),
        X::SExt(a) => sext64(eval_m(a, model, memo), width(a)) as u64 & mask(w),
        X::Extract(_, lo, a) => (eval_m(a, model, memo) >> lo) & mask(w),
        X::Const(_) | X::Var(_) => unreachable!(),
    };
    memo.insert(e, v);
    v
}
