//! Parser for the textual LLVM IR that rustc emits (the subset rustc uses).
//! Function bodies are decoded on first execution, so an unsupported
//! construct only matters if a path reaches it.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other(String),
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w <= 8 {
                    1
                } else if *w <= 16 {
                    2
                } else if *w <= 32 {
                    4
                } else if *w <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size (store size rounded to alignment)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, _) => {
                let o = self.offsets();
                match f.last() {
                    None => 0,
                    Some(l) => {
                        let e = o[f.len() - 1] + l.size();
                        let a = self.align();
                        (e + a - 1) / a * a
                    }
                }
            }
            _ => 0,
        }
    }
    pub fn offsets(&self) -> Vec<u64> {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut v = vec![];
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    v.push(o);
                    o += t.size();
                }
                v
            }
            Ty::Arr(n, t) => (0..*n).map(|i| i * t.size()).collect(),
            _ => vec![],
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u64),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Sym(String),
    SymOff(Box<Cst>, i64),
    Wide(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Const(Cst),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub ty: Ty,
    pub v: Opd,
    pub noundef: bool,
    pub nonnull: bool,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, align: u64 },
    Load { d: u32, ty: Ty, p: Opd, align: u64, noundef: bool, nonnull: bool, range: Option<(u64, u64)> },
    Store { ty: Ty, v: Opd, p: Opd, align: u64 },
    Gep { d: u32, base: Opd, off: u64, terms: Vec<(Opd, u64, u32)>, inb: bool },
    Bin { d: u32, op: crate::expr::Op, w: u32, a: Opd, b: Opd, nuw: bool, nsw: bool, exact: bool },
    ICmp { d: u32, p: Pred, w: u32, a: Opd, b: Opd },
    Cast { d: u32, k: CastK, from: u32, to: u32, a: Opd, nuw: bool, nneg: bool },
    Select { d: u32, ty: Ty, c: Opd, a: Opd, b: Opd },
    Extract { d: u32, a: Opd, ix: Vec<usize> },
    Insert { d: u32, ty: Ty, a: Opd, v: Opd, ix: Vec<usize> },
    Freeze { d: u32, ty: Ty, a: Opd },
    Call { d: Option<u32>, ty: Ty, callee: Opd, name: Option<Rc<str>>, args: Vec<Arg>, inv: Option<(u32, u32)> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    LandingPad { d: u32, cleanup: bool, catch: bool, filter: bool },
    Resume(Opd),
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub ins: Vec<I>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub module: usize,
}

pub struct FuncSrc {
    pub name: String,
    pub pretty: String,
    pub header: String,
    pub body: Vec<String>,
    pub module: usize,
    pub local: bool,
}

pub struct GlobalSrc {
    pub name: String,
    pub ty: Ty,
    pub init: Cst,
    pub constant: bool,
    pub align: u64,
    pub module: usize,
    pub local: bool,
}

#[derive(Default)]
pub struct Module {
    pub name: String,
    /// part of the standard library
    pub library: bool,
    pub funcs: Vec<FuncSrc>,
    pub globals: Vec<GlobalSrc>,
    pub decls: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<String, (i128, i128)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    L(String),
    G(String),
    N(i128),
    W(String),
    S(Vec<u8>),
    M(String),
    P(char),
    A(String),
    Dots,
}

pub type R<X> = Result<X, String>;

pub fn lex(s: &str) -> R<Vec<T>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let strlit = |i: &mut usize| -> R<Vec<u8>> {
        // at opening quote
        *i += 1;
        let mut v = vec![];
        while *i < b.len() && b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    let h = std::str::from_utf8(&b[*i + 1..*i + 3]).map_err(|e| e.to_string())?;
                    v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        Ok(v)
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let n = if i < b.len() && b[i] == b'"' {
                    String::from_utf8_lossy(&strlit(&mut i)?).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { T::L(n) } else { T::G(n) });
            }
            b'!' | b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1
                }
                let n = s[st..i].to_string();
                out.push(if c == b'!' { T::M(n) } else { T::A(n) });
            }
            b'"' => out.push(T::S(strlit(&mut i)?)),
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                out.push(T::S(strlit(&mut i)?))
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                // floats or hex: keep as a word
                if i < b.len() && (b[i] == b'.' || b[i] == b'x') {
                    while i < b.len() && (isid(b[i]) || b[i] == b'+') {
                        i += 1
                    }
                    out.push(T::W(s[st..i].to_string()));
                } else {
                    out.push(T::N(s[st..i].parse::<i128>().map_err(|e| format!("{}: {}", &s[st..i], e))?));
                }
            }
            b'.' if s[i..].starts_with("...") => {
                i += 3;
                out.push(T::Dots)
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1
                }
                out.push(T::W(s[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1
            }
        }
    }
    Ok(out)
}

pub struct Ps<'a> {
    pub t: Vec<T>,
    pub i: usize,
    pub types: &'a HashMap<String, Ty>,
    pub regs: HashMap<String, u32>,
    pub labels: HashMap<String, u32>,
}

impl<'a> Ps<'a> {
    pub fn new(t: Vec<T>, types: &'a HashMap<String, Ty>) -> Ps<'a> {
        Ps { t, i: 0, types, regs: HashMap::new(), labels: HashMap::new() }
    }
    pub fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {:?} in {:?}", c, self.peek(), &self.t))
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::N(n) => Ok(n),
            t => Err(format!("expected number, got {:?}", t)),
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other(w),
            },
            T::P('[') => {
                let n = self.num()? as u64;
                if !self.eatw("x") {
                    return Err("array type".into());
                }
                let e = self.ty()?;
                self.p(']')?;
                Ty::Arr(n, Rc::new(e))
            }
            T::P('{') => {
                let f = self.tylist('}')?;
                Ty::Struct(Rc::new(f), false)
            }
            T::P('<') => {
                if self.eatp('{') {
                    let f = self.tylist('}')?;
                    self.p('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    // vector: unsupported, keep the text
                    let mut d = 1;
                    while d > 0 {
                        match self.next()? {
                            T::P('<') => d += 1,
                            T::P('>') => d -= 1,
                            _ => {}
                        }
                    }
                    Ty::Other("vector".into())
                }
            }
            T::L(n) => self.types.get(&n).cloned().ok_or(format!("unknown type %{}", n))?,
            t => return Err(format!("type expected, got {:?}", t)),
        };
        Ok(t)
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eatp(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eatp(end) {
                return Ok(f);
            }
            self.p(',')?;
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    /// skip parameter / return attributes; reports (noundef, nonnull)
    pub fn attrs(&mut self) -> R<(bool, bool)> {
        let (mut nu, mut nn) = (false, false);
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let w = w.clone();
                    match w.as_str() {
                        "noundef" => nu = true,
                        "nonnull" => nn = true,
                        "align" => {
                            self.i += 1;
                            if self.isp('(') {
                                self.skip_parens()?;
                            } else {
                                self.num()?;
                            }
                            continue;
                        }
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                        | "inttoptr" | "ptrtoint" | "metadata" | "blockaddress" | "ptr" | "void" | "trunc" | "sub"
                        | "add" => return Ok((nu, nn)),
                        _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => return Ok((nu, nn)),
                        "float" | "double" | "half" | "fp128" => return Ok((nu, nn)),
                        _ => {}
                    }
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens()?;
                    }
                }
                Some(T::A(_)) => self.i += 1,
                _ => return Ok((nu, nn)),
            }
        }
    }
    pub fn cst(&mut self, ty: &Ty) -> R<Cst> {
        Ok(match self.next()? {
            T::N(n) => match ty {
                Ty::Int(w) if *w > 64 => Cst::Wide((n as u128).to_le_bytes()[..(*w as usize / 8)].to_vec()),
                Ty::Int(w) => Cst::Int((n as u64) & crate::expr::mask(*w as u8)),
                _ => return Err(format!("integer constant of type {:?}", ty)),
            },
            T::W(w) => match w.as_str() {
                "true" => Cst::Int(1),
                "false" | "null" => {
                    Cst::Int(0)
                }
                "undef" | "poison" => Cst::Undef,
                "zeroinitializer" => Cst::Zero,
                "getelementptr" => {
                    while matches!(self.peek(), Some(T::W(_))) {
                        self.i += 1;
                        if self.isp('(') && self.t.get(self.i - 1) == Some(&T::W("inrange".into())) {
                            self.skip_parens()?;
                        }
                    }
                    self.p('(')?;
                    let ety = self.ty()?;
                    self.p(',')?;
                    let bt = self.ty()?;
                    let base = self.cst(&bt)?;
                    let mut off: i64 = 0;
                    let mut cur = ety.clone();
                    let mut first = true;
                    while self.eatp(',') {
                        let it = self.ty()?;
                        let v = match self.cst(&it)? {
                            Cst::Int(v) => crate::expr::sext64(v, it.bits() as u8),
                            c => return Err(format!("gep const index {:?}", c)),
                        };
                        if first {
                            off += v * ety.size() as i64;
                            first = false;
                        } else {
                            off += match &cur {
                                Ty::Struct(..) => cur.offsets()[v as usize] as i64,
                                _ => v * cur.elem(0).size() as i64,
                            };
                            cur = cur.elem(v as usize);
                        }
                    }
                    self.p(')')?;
                    Cst::SymOff(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" => {
                    self.p('(')?;
                    let t = self.ty()?;
                    let v = self.cst(&t)?;
                    if !self.eatw("to") {
                        return Err("cast constant".into());
                    }
                    self.ty()?;
                    self.p(')')?;
                    v
                }
                _ => return Err(format!("constant word {}", w)),
            },
            T::G(g) => Cst::Sym(g),
            T::S(b) => Cst::Bytes(b),
            T::P('{') => self.agg('}')?,
            T::P('[') => self.agg(']')?,
            T::P('<') => {
                self.p('{')?;
                let a = self.agg('}')?;
                self.p('>')?;
                a
            }
            t => return Err(format!("constant expected, got {:?}", t)),
        })
    }
    fn agg(&mut self, end: char) -> R<Cst> {
        let mut v = vec![];
        if self.eatp(end) {
            return Ok(Cst::Agg(v));
        }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eatp(end) {
                return Ok(Cst::Agg(v));
            }
            self.p(',')?;
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> R<u32> {
        self.labels.get(n).copied().ok_or(format!("unknown label {}", n))
    }
    pub fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Some(T::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::Const(self.cst(ty)?))
    }
    fn tyopd(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        let v = self.opd(&t)?;
        Ok((t, v))
    }
    fn lab(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return Err("label expected".into());
        }
        match self.next()? {
            T::L(n) => self.label(&n),
            t => Err(format!("label, got {:?}", t)),
        }
    }
    fn align_opt(&mut self) -> R<u64> {
        // ", align N"
        if self.isp(',') && self.t.get(self.i + 1) == Some(&T::W("align".into())) {
            self.i += 2;
            return Ok(self.num()? as u64);
        }
        Ok(1)
    }
    fn flags(&mut self) -> (bool, bool, bool, bool) {
        let (mut nuw, mut nsw, mut exact, mut nneg) = (false, false, false, false);
        loop {
            if self.eatw("nuw") {
                nuw = true
            } else if self.eatw("nsw") {
                nsw = true
            } else if self.eatw("exact") {
                exact = true
            } else if self.eatw("nneg") {
                nneg = true
            } else if self.eatw("disjoint") || self.eatw("samesign") {
            } else {
                return (nuw, nsw, exact, nneg);
            }
        }
    }
}

/// Split a module's text into functions, globals, types and range metadata.
pub fn parse_module(text: &str, idx: usize, name: &str) -> R<Module> {
    let library = name.ends_with("/core.ll") || name.ends_with("/alloc.ll");
    let mut m = Module { name: name.to_string(), library, ..Default::default() };
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut last_comment = String::new();
    // types first; definitions may refer to later ones
    let mut pending: Vec<&str> = lines.iter().copied().filter(|l| l.starts_with('%') && l.contains(" = type ")).collect();
    loop {
        let before = pending.len();
        let mut rest = vec![];
        for l in pending {
            let (n, t) = l.split_once(" = type ").unwrap();
            let toks = lex(t)?;
            let types = m.types.clone();
            let mut p = Ps::new(toks, &types);
            match p.ty() {
                Ok(ty) => {
                    let n = n.trim_start_matches('%').trim_matches('"').to_string();
                    m.types.insert(n, ty);
                }
                Err(_) => rest.push(l),
            }
        }
        pending = rest;
        if pending.is_empty() || pending.len() == before {
            break;
        }
    }
    for l in &lines {
        if l.starts_with('!') {
            // range metadata: !5 = !{i8 0, i8 2}
            if let Some((n, r)) = l.split_once(" = !{i") {
                let r = r.trim_end_matches('}');
                let parts: Vec<&str> = r.split(", i").collect();
                if parts.len() == 2 {
                    let v: Vec<Option<i128>> =
                        parts.iter().map(|p| p.split_once(' ').and_then(|x| x.1.parse().ok())).collect();
                    if let (Some(a), Some(b)) = (v[0], v[1]) {
                        m.meta.insert(n.to_string(), (a, b));
                    }
                }
            }
        }
    }
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("; ") {
            if !l.starts_with("; Function Attrs") {
                last_comment = l[2..].to_string();
            }
        } else if l.starts_with("define ") {
            let header = l.to_string();
            let mut body: Vec<String> = vec![];
            i += 1;
            while lines[i] != "}" {
                let s = lines[i];
                let st = s.trim_start();
                if st.is_empty() || st.starts_with(';') {
                    if let Some(c) = st.strip_prefix("; call ").or(st.strip_prefix("; invoke ")) {
                        let _ = c;
                    }
                } else if s.starts_with("    ") || s.starts_with("  ]") {
                    let last = body.last_mut().ok_or("continuation")?;
                    last.push(' ');
                    last.push_str(st);
                } else {
                    body.push(s.to_string());
                }
                i += 1;
            }
            let toks = lex(&header)?;
            let name = toks
                .iter()
                .find_map(|t| if let T::G(g) = t { Some(g.clone()) } else { None })
                .ok_or("function name")?;
            let local = toks.iter().any(|t| matches!(t, T::W(w) if w=="internal"||w=="private"));
            m.funcs.push(FuncSrc { name, pretty: std::mem::take(&mut last_comment), header, body, module: idx, local });
        } else if l.starts_with("declare ") {
            let toks = lex(l)?;
            if let Some(T::G(g)) = toks.iter().find(|t| matches!(t, T::G(_))) {
                m.decls.push(g.clone());
            }
        } else if l.starts_with('@') {
            let toks = lex(l)?;
            let types = std::mem::take(&mut m.types);
            let mut p = Ps::new(toks, &types);
            let name = match p.next()? {
                T::G(g) => g,
                _ => unreachable!(),
            };
            p.p('=')?;
            let mut local = false;
            let mut external = false;
            let mut ok = true;
            let constant;
            loop {
                match p.next()? {
                    T::W(w) => match w.as_str() {
                        "private" | "internal" => local = true,
                        "external" => external = true,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => {
                            constant = false;
                            break;
                        }
                        "alias" | "ifunc" => {
                            constant = true;
                            ok = false;
                            break;
                        }
                        "thread_local" => {
                            if p.isp('(') {
                                p.skip_parens()?
                            }
                        }
                        _ => {}
                    },
                    T::P('(') => {
                        p.i -= 1;
                        p.skip_parens()?
                    }
                    _ => {}
                }
            }
            if ok && !external {
                let ty = p.ty()?;
                let init = p.cst(&ty)?;
                let mut align = 1;
                while let Some(t) = p.peek() {
                    if t == &T::W("align".into()) {
                        p.i += 1;
                        align = p.num()? as u64;
                    } else {
                        p.i += 1
                    }
                }
                m.globals.push(GlobalSrc { name, ty, init, constant, align, module: idx, local });
            }
            m.types = types;
        }
        i += 1;
    }
    Ok(m)
}

pub fn parse_func(f: &FuncSrc, m: &Module) -> R<Func> {
    let mut ps = Ps::new(lex(&f.header)?, &m.types);
    // header: define [linkage etc] retattrs type @name ( params )
    ps.i += 1;
    ps.attrs()?; // linkage words, calling convention and return attributes are all "words"
    let ret = ps.ty()?;
    ps.next()?; // name
    ps.p('(')?;
    let mut params = vec![];
    let mut unnamed = 0u32;
    let mut numbered = 0u32;
    if !ps.eatp(')') {
        loop {
            if ps.peek() == Some(&T::Dots) {
                return Err("variadic".into());
            }
            let t = ps.ty()?;
            ps.attrs()?;
            let r = if let Some(T::L(n)) = ps.peek() {
                let n = n.clone();
                ps.i += 1;
                if n == numbered.to_string() {
                    numbered += 1
                }
                ps.reg(&n)
            } else {
                let n = format!("{}", unnamed);
                unnamed += 1;
                ps.reg(&n)
            };
            params.push((r, t));
            if ps.eatp(')') {
                break;
            }
            ps.p(',')?;
        }
    }
    // labels
    let mut n = 0;
    let mut blocks: Vec<Block> = vec![];
    for (k, l) in f.body.iter().enumerate() {
        if !l.starts_with(' ') {
            let lab = l.split(':').next().unwrap().trim_matches('"').to_string();
            ps.labels.insert(lab, n);
            n += 1;
        } else if k == 0 {
            // an unnamed entry block has the number after the unnamed arguments
            ps.labels.insert(format!("{}", numbered + unnamed), n);
            n += 1;
            blocks.push(Block { phis: vec![], ins: vec![] });
        }
    }
    for l in &f.body {
        if !l.starts_with(' ') {
            blocks.push(Block { phis: vec![], ins: vec![] });
            continue;
        }
        ps.t = lex(l)?;
        ps.i = 0;
        let b = blocks.last_mut().unwrap();
        parse_ins(&mut ps, b, m).map_err(|e| format!("{} in: {}", e, l))?;
    }
    Ok(Func {
        name: f.name.clone(),
        pretty: f.pretty.clone(),
        params,
        ret,
        nregs: ps.regs.len(),
        blocks,
        module: f.module,
    })
}

fn parse_ins(p: &mut Ps, b: &mut Block, m: &Module) -> R<()> {
    use crate::expr::Op;
    let mut d: Option<u32> = None;
    if let Some(T::L(n)) = p.peek() {
        let n = n.clone();
        p.i += 1;
        d = Some(p.reg(&n));
        p.p('=')?;
    }
    let mut w = match p.next()? {
        T::W(w) => w,
        t => return Err(format!("opcode expected, got {:?}", t)),
    };
    while w == "tail" || w == "notail" || w == "musttail" {
        w = match p.next()? {
            T::W(w) => w,
            t => return Err(format!("opcode expected, got {:?}", t)),
        };
    }
    let ins = match w.as_str() {
        "alloca" => {
            let t = p.ty()?;
            let mut n = 1;
            if p.isp(',') && !matches!(p.t.get(p.i + 1), Some(T::W(w)) if w == "align") {
                p.i += 1;
                let (_, v) = p.tyopd()?;
                match v {
                    Opd::Const(Cst::Int(k)) => n = k,
                    _ => return Err("dynamic alloca".into()),
                }
            }
            let al = p.align_opt()?;
            I::Alloca { d: d.unwrap(), size: t.size() * n, align: al }
        }
        "load" => {
            if p.isw("atomic") {
                return Err("atomic load".into());
            }
            p.eatw("volatile");
            let ty = p.ty()?;
            p.p(',')?;
            let (_, v) = p.tyopd()?;
            let align = p.align_opt()?;
            let (mut noundef, mut nonnull) = (false, false);
            let mut range = None;
            while let Some(t) = p.peek().cloned() {
                p.i += 1;
                if let T::M(k) = t {
                    match k.as_str() {
                        "!noundef" => noundef = true,
                        "!nonnull" => nonnull = true,
                        "!range" => {
                            if let Some(T::M(id)) = p.peek() {
                                if let Some(&(a, b)) = m.meta.get(id) {
                                    let mk = crate::expr::mask(ty.bits() as u8);
                                    range = Some((a as u64 & mk, b as u64 & mk));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            I::Load { d: d.unwrap(), ty, p: v, align, noundef, nonnull, range }
        }
        "store" => {
            if p.isw("atomic") {
                return Err("atomic store".into());
            }
            p.eatw("volatile");
            let (ty, v) = p.tyopd()?;
            p.p(',')?;
            let (_, q) = p.tyopd()?;
            let align = p.align_opt()?;
            I::Store { ty, v, p: q, align }
        }
        "getelementptr" => {
            let mut inb = false;
            loop {
                if p.eatw("inbounds") {
                    inb = true
                } else if p.eatw("nuw") || p.eatw("nusw") {
                } else {
                    break;
                }
            }
            let ety = p.ty()?;
            p.p(',')?;
            let (_, base) = p.tyopd()?;
            let mut off = 0u64;
            let mut terms = vec![];
            let mut cur = ety.clone();
            let mut first = true;
            while p.eatp(',') {
                let (it, v) = p.tyopd()?;
                let esz = if first { ety.size() } else { 0 };
                if first {
                    match v {
                        Opd::Const(Cst::Int(k)) => {
                            off = off.wrapping_add(
                                (crate::expr::sext64(k, it.bits() as u8) as u64).wrapping_mul(esz),
                            )
                        }
                        _ => terms.push((v, esz, it.bits())),
                    }
                    first = false;
                } else {
                    match (&cur, &v) {
                        (Ty::Struct(..), Opd::Const(Cst::Int(k))) => {
                            off = off.wrapping_add(cur.offsets()[*k as usize]);
                            cur = cur.elem(*k as usize);
                        }
                        (Ty::Arr(_, e), Opd::Const(Cst::Int(k))) => {
                            off = off.wrapping_add(
                                (crate::expr::sext64(*k, it.bits() as u8) as u64).wrapping_mul(e.size()),
                            );
                            cur = (**e).clone();
                        }
                        (Ty::Arr(_, e), _) => {
                            terms.push((v, e.size(), it.bits()));
                            cur = (**e).clone();
                        }
                        _ => return Err("gep".into()),
                    }
                }
            }
            I::Gep { d: d.unwrap(), base, off, terms, inb }
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            let (nuw, nsw, exact, _) = p.flags();
            let (t, a) = p.tyopd()?;
            p.p(',')?;
            let c = p.opd(&t)?;
            if t.bits() == 0 || t.bits() > 64 {
                return Err(format!("arithmetic at {:?}", t));
            }
            let op = match w.as_str() {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                _ => Op::AShr,
            };
            I::Bin { d: d.unwrap(), op, w: t.bits(), a, b: c, nuw, nsw, exact }
        }
        "icmp" => {
            p.flags();
            let pr = match p.next()? {
                T::W(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(w),
                },
                t => return Err(format!("{:?}", t)),
            };
            let (t, a) = p.tyopd()?;
            p.p(',')?;
            let c = p.opd(&t)?;
            if t.bits() == 0 || t.bits() > 64 {
                return Err(format!("icmp at {:?}", t));
            }
            I::ICmp { d: d.unwrap(), p: pr, w: t.bits(), a, b: c }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" => {
            let (nuw, _, _, nneg) = p.flags();
            let (t, a) = p.tyopd()?;
            if !p.eatw("to") {
                return Err("cast".into());
            }
            let u = p.ty()?;
            if t.bits() == 0 || u.bits() == 0 {
                return Err("cast types".into());
            }
            let k = match w.as_str() {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "ptrtoint" => CastK::PtrToInt,
                "inttoptr" => CastK::IntToPtr,
                _ => CastK::BitCast,
            };
            I::Cast { d: d.unwrap(), k, from: t.bits(), to: u.bits(), a, nuw, nneg }
        }
        "select" => {
            let (_, c) = p.tyopd()?;
            p.p(',')?;
            let (ty, a) = p.tyopd()?;
            p.p(',')?;
            let (_, e) = p.tyopd()?;
            I::Select { d: d.unwrap(), ty, c, a, b: e }
        }
        "freeze" => {
            let (ty, a) = p.tyopd()?;
            I::Freeze { d: d.unwrap(), ty, a }
        }
        "extractvalue" => {
            let (_, a) = p.tyopd()?;
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.peek(), Some(T::M(_))) {
                    break;
                }
                ix.push(p.num()? as usize)
            }
            I::Extract { d: d.unwrap(), a, ix }
        }
        "insertvalue" => {
            let (ty, a) = p.tyopd()?;
            p.p(',')?;
            let (_, v) = p.tyopd()?;
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.peek(), Some(T::M(_))) {
                    break;
                }
                ix.push(p.num()? as usize)
            }
            I::Insert { d: d.unwrap(), ty, a, v, ix }
        }
        "phi" => {
            let ty = p.ty()?;
            let mut inc = vec![];
            loop {
                p.p('[')?;
                let v = p.opd(&ty)?;
                p.p(',')?;
                let l = match p.next()? {
                    T::L(n) => p.label(&n)?,
                    t => return Err(format!("{:?}", t)),
                };
                p.p(']')?;
                inc.push((l, v));
                if !p.eatp(',') || matches!(p.peek(), Some(T::M(_))) {
                    break;
                }
            }
            b.phis.push((d.unwrap(), ty, inc));
            return Ok(());
        }
        "call" | "invoke" => {
            // fast-math flags / cc / ret attrs are words
            p.attrs()?;
            let ty = p.ty()?;
            // function type given explicitly for varargs
            if p.isp('(') {
                p.skip_parens()?;
            }
            let (callee, name) = match p.next()? {
                T::G(g) => (Opd::Const(Cst::Sym(g.clone())), Some(Rc::from(g.as_str()))),
                T::L(n) => (Opd::Reg(p.reg(&n)), None),
                T::W(w) if w == "asm" => (Opd::Const(Cst::Undef), Some(Rc::from("asm"))),
                T::W(w) => return Err(format!("callee {}", w)),
                t => return Err(format!("callee {:?}", t)),
            };
            if name.as_deref() == Some("asm") {
                return Err("inline asm".into());
            }
            p.p('(')?;
            let mut args = vec![];
            if !p.eatp(')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Other("metadata".into()) {
                        while !p.isp(',') && !p.isp(')') {
                            p.i += 1;
                            if p.isp('(') {
                                p.skip_parens()?
                            }
                        }
                    } else {
                        let (nu, nn) = p.attrs()?;
                        let v = p.opd(&t)?;
                        args.push(Arg { ty: t, v, noundef: nu, nonnull: nn });
                    }
                    if p.eatp(')') {
                        break;
                    }
                    p.p(',')?;
                }
            }
            let mut inv = None;
            if w == "invoke" {
                while !p.isw("to") {
                    p.i += 1;
                    if p.i >= p.t.len() {
                        return Err("invoke".into());
                    }
                }
                p.i += 1;
                let n = p.lab()?;
                if !p.eatw("unwind") {
                    return Err("unwind".into());
                }
                let u = p.lab()?;
                inv = Some((n, u));
            }
            I::Call { d, ty, callee, name, args, inv }
        }
        "br" => {
            if p.isw("label") {
                I::Br(p.lab()?)
            } else {
                let (_, c) = p.tyopd()?;
                p.p(',')?;
                let a = p.lab()?;
                p.p(',')?;
                let e = p.lab()?;
                I::CondBr(c, a, e)
            }
        }
        "switch" => {
            let (t, v) = p.tyopd()?;
            p.p(',')?;
            let def = p.lab()?;
            p.p('[')?;
            let mut cases = vec![];
            while !p.eatp(']') {
                let (t, c) = p.tyopd()?;
                let _ = t;
                p.p(',')?;
                let l = p.lab()?;
                match c {
                    Opd::Const(Cst::Int(k)) => cases.push((k, l)),
                    Opd::Const(Cst::Wide(_)) => return Err("wide switch".into()),
                    _ => return Err("switch case".into()),
                }
            }
            I::Switch { w: t.bits(), v, def, cases }
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                I::Ret(None)
            } else {
                let v = p.opd(&t)?;
                I::Ret(Some((t, v)))
            }
        }
        "unreachable" => I::Unreachable,
        "landingpad" => {
            p.ty()?;
            let (mut cleanup, mut catch, mut filter) = (false, false, false);
            while let Some(t) = p.peek().cloned() {
                p.i += 1;
                if let T::W(w) = t {
                    match w.as_str() {
                        "cleanup" => cleanup = true,
                        "catch" => catch = true,
                        "filter" => filter = true,
                        _ => {}
                    }
                }
            }
            I::LandingPad { d: d.unwrap(), cleanup, catch, filter }
        }
        "resume" => {
            let (_, v) = p.tyopd()?;
            I::Resume(v)
        }
        _ => return Err(format!("unsupported instruction {}", w)),
    };
    b.ins.push(ins);
    Ok(())
}
