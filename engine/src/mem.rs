//! Values and memory objects.
use crate::expr::{self, FxMap, E};
use std::rc::Rc;

/// one byte of memory: 0..=0xff concrete, UNINIT, or SYM (see `Obj::sym`)
pub const UNINIT: u16 = 0x100;
pub const SYM: u16 = 0x200;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum By {
    U,
    C(u8),
    S(E, u8),
}

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    U,
    A(Rc<Vec<V>>),
    B(Rc<Vec<By>>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub align: u64,
    pub kind: Kind,
    pub alive: bool,
    pub ro: bool,
    pub bytes: Vec<u16>,
    pub sym: FxMap<u32, (E, u8)>,
    /// byte ranges nobody may touch for now
    pub lock: Vec<(u64, u64)>,
}

impl Obj {
    pub fn new(base: u64, size: u64, align: u64, kind: Kind) -> Obj {
        Obj {
            base,
            align,
            kind,
            alive: true,
            ro: false,
            bytes: vec![UNINIT; size as usize],
            sym: Default::default(),
            lock: vec![],
        }
    }
    pub fn size(&self) -> u64 {
        self.bytes.len() as u64
    }
    pub fn byte(&self, off: usize) -> By {
        match self.bytes[off] {
            UNINIT => By::U,
            SYM => {
                let (e, k) = self.sym[&(off as u32)];
                By::S(e, k)
            }
            c => By::C(c as u8),
        }
    }
    pub fn set_byte(&mut self, off: usize, b: By) {
        match b {
            By::U => self.bytes[off] = UNINIT,
            By::C(c) => self.bytes[off] = c as u16,
            By::S(e, k) => {
                self.bytes[off] = SYM;
                self.sym.insert(off as u32, (e, k));
            }
        }
    }
    /// load an integer of n <= 8 bytes
    pub fn load(&self, off: usize, n: usize) -> V {
        let s = &self.bytes[off..off + n];
        let mut v = 0u64;
        let mut bad = 0u16;
        for (i, &b) in s.iter().enumerate() {
            bad |= b;
            v |= (b as u64 & 0xff) << (8 * i);
        }
        if bad & (UNINIT | SYM) == 0 {
            return V::C(v);
        }
        if bad & SYM == 0 && s.iter().all(|&b| b == UNINIT) {
            return V::U;
        }
        let bs: Vec<By> = (0..n).map(|i| self.byte(off + i)).collect();
        from_bytes(&bs)
    }
    pub fn store_c(&mut self, off: usize, n: usize, v: u64) {
        for i in 0..n {
            self.bytes[off + i] = (v >> (8 * i)) as u8 as u16;
        }
    }
    pub fn store_bytes(&mut self, off: usize, b: &[By]) {
        for (i, x) in b.iter().enumerate() {
            self.set_byte(off + i, *x)
        }
    }
}

/// integer value of at most 8 initialised bytes, or a byte vector
pub fn from_bytes(bs: &[By]) -> V {
    if bs.iter().all(|b| *b == By::U) {
        return V::U;
    }
    if bs.len() > 8 || bs.iter().any(|b| *b == By::U) {
        return V::B(Rc::new(bs.to_vec()));
    }
    if bs.iter().all(|b| matches!(b, By::C(_))) {
        let mut v = 0u64;
        for (i, b) in bs.iter().enumerate() {
            if let By::C(c) = b {
                v |= (*c as u64) << (8 * i)
            }
        }
        return V::C(v);
    }
    let mut e: Option<E> = None;
    for b in bs {
        let p = match *b {
            By::C(c) => expr::cst(c as u64, 8),
            By::S(x, k) => {
                let w = expr::width(x);
                let lo = k * 8;
                let hi = (lo + 7).min(w - 1);
                expr::zext(expr::extract(hi, lo, x), 8)
            }
            By::U => unreachable!(),
        };
        e = Some(match e {
            None => p,
            Some(x) => expr::concat(p, x),
        });
    }
    let e = e.unwrap();
    match expr::as_const(e) {
        Some(c) => V::C(c),
        None => V::S(e),
    }
}

pub fn to_bytes(v: &V, n: usize) -> Vec<By> {
    match v {
        V::C(c) => (0..n).map(|i| By::C(if i < 8 { (c >> (8 * i)) as u8 } else { 0 })).collect(),
        V::U => vec![By::U; n],
        V::S(e) => {
            let w = expr::width(*e);
            (0..n)
                .map(|i| {
                    if (i * 8) as u8 >= w {
                        By::C(0)
                    } else {
                        let lo = (i * 8) as u8;
                        let hi = (lo + 7).min(w - 1);
                        match expr::as_const(expr::extract(hi, lo, *e)) {
                            Some(c) => By::C(c as u8),
                            None => By::S(*e, i as u8),
                        }
                    }
                })
                .collect()
        }
        V::B(b) => {
            let mut b = (**b).clone();
            b.resize(n, By::C(0));
            b
        }
        V::A(_) => panic!("to_bytes of aggregate"),
    }
}
