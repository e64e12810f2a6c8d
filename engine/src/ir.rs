//! Reader for the textual LLVM IR that rustc emits (one fully linked module).

use std::collections::HashMap;
use std::rc::Rc;

use crate::expr::V;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Other,
}

fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => u64::from((w + 7) / 8),
            Ty::Vector(n, t) if t.bits() < 8 => (n * u64::from(t.bits()) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Float(_) => up(self.store_size(), self.align()),
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f {
                    if !packed { o = up(o, t.align()); al = al.max(t.align()) }
                    o += t.size();
                }
                if *packed { o } else { up(o, al) }
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => if t.bits() < 8 { (n * u64::from(t.bits()) + 7) / 8 } else { n * t.size() },
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) | Ty::Float(w) => u64::from((w + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(Ty::align).max().unwrap_or(1) },
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().max(1),
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { o = up(o, t.align()) }
                    if j == i { return (o, t.clone()) }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn fields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd { Reg(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Same }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opnd), AsmNop }

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { d: u32, size: u64, n: Opnd },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)> },
    Bin { d: u32, op: BinOp, ty: Ty, a: Opnd, b: Opnd },
    Icmp { d: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: Opnd },
    Bitcast { d: u32, from: Ty, to: Ty, a: Opnd },
    Select { d: u32, cty: Ty, ty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Call { d: Option<u32>, f: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, next: Option<u32> },
    ExtractValue { d: u32, a: Opnd, path: Vec<usize> },
    InsertValue { d: u32, ty: Ty, a: Opnd, v: Opnd, path: Vec<usize> },
    ExtractElem { d: u32, n: u64, a: Opnd, i: Opnd },
    InsertElem { d: u32, n: u64, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, n: u64, a: Opnd, b: Opnd, m: Opnd },
    Move { d: u32, a: Opnd },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    /// Stands before each atomic access: other threads may act here.
    Race,
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { ty: Ty, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi { pub d: u32, pub inc: Vec<(u32, Opnd)> }

#[derive(Clone, Debug, Default)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }

#[derive(Clone, Debug)]
pub struct Func { pub name: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub decl: bool }

pub struct Global { pub name: String, pub size: u64, pub data: Vec<u8>, pub constant: bool }

pub struct Module {
    pub funcs: Vec<Rc<Func>>,
    pub fn_ids: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub types: HashMap<String, Ty>,
}

pub const REGION_GLOBAL: u64 = 1;
pub const REGION_HEAP: u64 = 2;
pub const REGION_STACK: u64 = 3;
pub const REGION_FN: u64 = 4;
pub const OFF_BITS: u32 = 24;
pub fn addr(region: u64, id: u64) -> u64 { region << 56 | id << OFF_BITS }

struct Names { globals: HashMap<String, u64>, types: HashMap<String, Ty> }

struct P<'a> {
    s: &'a [u8],
    i: usize,
    names: &'a Names,
    regs: &'a mut HashMap<String, u32>,
    blocks: &'a mut HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() { self.i += 1 }
    }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // Word tokens must end at a word boundary.
            let last = t.as_bytes()[t.len() - 1];
            let nx = *self.s.get(self.i + t.len()).unwrap_or(&b' ');
            if (last.is_ascii_alphanumeric() || last == b'_')
                && (nx.is_ascii_alphanumeric() || nx == b'_' || nx == b'.') { return false }
            self.i += t.len();
            return true;
        }
        false
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) { Ok(()) } else {
            Err(format!("expected {:?} at {:?}", t,
                String::from_utf8_lossy(&self.s[self.i..(self.i + 60).min(self.s.len())])))
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' { self.i += 1 } else { break }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let i = { self.ws(); self.i };
        let w = self.word();
        self.i = i;
        w
    }
    /// Name after a sigil: plain or quoted.
    fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else { self.word() }
    }
    fn int(&mut self) -> R<i128> {
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("integer expected, got {w:?}"))
    }
    fn balanced(&mut self) {
        // At '(': skip to after the matching ')'.
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } }
                _ => (),
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            c if c.is_ascii_alphabetic() => matches!(self.peek_word().as_str(),
                "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80"
                | "metadata" | "label" | "token" | "opaque"),
            _ => false,
        }
    }
    fn attrs(&mut self) {
        // Parameter or return attributes, up to something that is a type, a
        // value or punctuation.
        loop {
            self.ws();
            if self.at_type() { return }
            let c = self.peek();
            if c == b'#' { self.i += 1; self.word(); continue }
            if c == b'"' {
                self.name();
                if self.peek() == b'=' { self.i += 1; self.name(); }
                continue
            }
            if !c.is_ascii_alphabetic() { return }
            let sv = self.i;
            let w = self.word();
            match w.as_str() {
                "align" | "cc" => {
                    if self.peek() == b'(' { self.balanced() } else { self.word(); }
                }
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat"
                | "getelementptr" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "c" | "asm" | "trunc" | "add" | "sub"
                | "xor" | "bitcast" => { self.i = sv; return }
                _ => if self.peek() == b'(' { self.balanced() },
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}')?;
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}')?;
                    self.need(">")?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.int()? as u64;
                    self.need("x")?;
                    let t = self.ty()?;
                    self.need(">")?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.int()? as u64;
                self.need("x")?;
                let t = self.ty()?;
                self.need("]")?;
                Ty::Array(n, Box::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.names.types.get(&n).cloned().ok_or_else(|| format!("type %{n}"))?
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => { if self.eat("addrspace") { self.balanced() } Ty::Ptr }
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" | "bfloat" => Ty::Float(16),
                    "fp128" | "x86_fp80" => Ty::Float(128),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                    _ => return Err(format!("type {w:?}")),
                }
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.peek() == end { self.i += 1; return Ok(f) }
        loop {
            f.push(self.ty()?);
            match self.peek() {
                b',' => self.i += 1,
                c if c == end => { self.i += 1; return Ok(f) }
                _ => return Err("type list".into()),
            }
        }
    }
    fn zero(t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Self::zero).collect())),
            Ty::Array(n, t) | Ty::Vector(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            _ => V::C(0),
        }
    }
    fn splat(t: &Ty, v: &V) -> V {
        match t {
            Ty::Vector(n, _) => V::A(Rc::new(vec![v.clone(); *n as usize])),
            _ => v.clone(),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
    fn tv(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.value(&t)?;
        Ok((t, v))
    }
    fn konst(&mut self, t: &Ty) -> R<V> {
        match self.value(t)? {
            Opnd::K(v) => Ok(v),
            Opnd::Reg(_) => Err("constant expected".into()),
        }
    }
    fn value(&mut self, t: &Ty) -> R<Opnd> {
        let c = self.peek();
        match c {
            b'%' => { self.i += 1; let n = self.name(); return Ok(Opnd::Reg(self.reg(&n))) }
            b'@' => {
                self.i += 1;
                let n = self.name();
                let a = *self.names.globals.get(&n).ok_or_else(|| format!("global @{n}"))?;
                return Ok(Opnd::K(V::C(u128::from(a))));
            }
            b'!' => {
                // metadata operand: skip
                while self.i < self.s.len() && self.s[self.i] != b',' && self.s[self.i] != b')' {
                    if self.s[self.i] == b'(' { self.balanced() } else { self.i += 1 }
                }
                return Ok(Opnd::K(V::C(0)));
            }
            b'-' | b'0'..=b'9' => {
                let w = self.word();
                if let Ty::Float(_) = t { return Ok(Opnd::K(V::C(0))) }
                let v = if let Some(u) = w.strip_prefix('-') {
                    (u.parse::<u128>().map_err(|_| format!("int {w}"))?).wrapping_neg()
                } else { w.parse::<u128>().map_err(|_| format!("int {w}"))? };
                return Ok(Opnd::K(V::C(v & crate::expr::mask(t.bits().max(1)))));
            }
            b'[' | b'{' | b'<' => {
                let mut end = match c { b'[' => b']', b'{' => b'}', _ => b'>' };
                self.i += 1;
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' { self.i += 1; end = b'}'; packed = true }
                let mut vs = vec![];
                if self.peek() == end { self.i += 1 } else {
                    loop {
                        let t = self.ty()?;
                        vs.push(self.konst(&t)?);
                        match self.peek() {
                            b',' => self.i += 1,
                            x if x == end => { self.i += 1; break }
                            _ => return Err("aggregate constant".into()),
                        }
                    }
                }
                if packed { self.need(">")? }
                return Ok(Opnd::K(V::A(Rc::new(vs))));
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut vs = vec![];
                loop {
                    let b = self.s[self.i];
                    if b == b'"' { self.i += 1; break }
                    if b == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        if self.s[self.i + 1] == b'\\' { vs.push(V::C(92)); self.i += 2 }
                        else { vs.push(V::C(u128::from_str_radix(h, 16).map_err(|_| "hex")?)); self.i += 3 }
                    } else { vs.push(V::C(u128::from(b))); self.i += 1 }
                }
                return Ok(Opnd::K(V::A(Rc::new(vs))));
            }
            _ => (),
        }
        let w = self.word();
        let k = |v| Ok(Opnd::K(v));
        match w.as_str() {
            "true" => k(V::C(1)),
            "false" | "null" | "none" => k(Self::zero(t)),
            "zeroinitializer" | "undef" | "poison" => k(Self::zero(t)),
            "splat" => {
                self.need("(")?;
                let (_, v) = self.tv()?;
                self.need(")")?;
                match v { Opnd::K(v) => k(Self::splat(t, &v)), _ => Err("splat".into()) }
            }
            "getelementptr" => {
                while matches!(self.peek_word().as_str(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    let w = self.word();
                    if w == "inrange" && self.peek() == b'(' { self.balanced() }
                }
                self.need("(")?;
                let et = self.ty()?;
                self.need(",")?;
                let (_, b) = self.tv()?;
                let Opnd::K(V::C(mut a)) = b else { return Err("const gep".into()) };
                let mut cur = et;
                let mut first = true;
                while self.eat(",") {
                    let (it, iv) = self.tv()?;
                    let Opnd::K(V::C(i)) = iv else { return Err("const gep index".into()) };
                    let i = crate::expr::sext(i, it.bits());
                    if first { a = a.wrapping_add((i * cur.size() as i128) as u128); first = false }
                    else { let (o, ft) = cur.field(i as usize); a = a.wrapping_add(u128::from(o)); cur = ft }
                }
                self.need(")")?;
                k(V::C(a & crate::expr::mask(64)))
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.need("(")?;
                let (_, v) = self.tv()?;
                self.need("to")?;
                let tt = self.ty()?;
                self.need(")")?;
                match v {
                    Opnd::K(V::C(c)) => k(V::C(c & crate::expr::mask(tt.bits()))),
                    v => Ok(v),
                }
            }
            "add" | "sub" | "xor" => {
                while matches!(self.peek_word().as_str(), "nuw" | "nsw") { self.word(); }
                self.need("(")?;
                let (ta, a) = self.tv()?;
                self.need(",")?;
                let (_, b) = self.tv()?;
                self.need(")")?;
                match (a, b) {
                    (Opnd::K(V::C(a)), Opnd::K(V::C(b))) => {
                        let r = match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b };
                        k(V::C(r & crate::expr::mask(ta.bits())))
                    }
                    _ => Err("constant expression".into()),
                }
            }
            _ => Err(format!("value {w:?}")),
        }
    }

    fn label(&mut self) -> R<u32> {
        self.need("label")?;
        self.need("%")?;
        let n = self.name();
        Ok(self.block(&n))
    }

    fn inst(&mut self, text: &str) -> R<(Option<Phi>, Inst)> {
        let mut dst = None;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            self.need("=")?;
            dst = Some(self.reg(&n));
        }
        let mut op = self.word();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") { op = self.word() }
        let d = dst.unwrap_or(u32::MAX);
        let ok = |i| Ok((None, i));
        let binop = |o: &str| Some(match o {
            "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or,
            "xor" => BinOp::Xor, _ => return None });
        if let Some(b) = binop(&op) {
            while matches!(self.peek_word().as_str(), "nuw" | "nsw" | "exact" | "disjoint") { self.word(); }
            let ty = self.ty()?;
            let a = self.value(&ty)?;
            self.need(",")?;
            let bb = self.value(&ty)?;
            return ok(Inst::Bin { d, op: b, ty, a, b: bb });
        }
        match op.as_str() {
            "alloca" => {
                let ty = self.ty()?;
                let mut n = Opnd::K(V::C(1));
                if self.eat(",") && self.at_type() { n = self.tv()?.1 }
                ok(Inst::Alloca { d, size: ty.size(), n })
            }
            "load" => {
                while matches!(self.peek_word().as_str(), "atomic" | "volatile") { self.word(); }
                let ty = self.ty()?;
                self.need(",")?;
                let (_, p) = self.tv()?;
                ok(Inst::Load { d, ty, p })
            }
            "store" => {
                while matches!(self.peek_word().as_str(), "atomic" | "volatile") { self.word(); }
                let (ty, v) = self.tv()?;
                self.need(",")?;
                let (_, p) = self.tv()?;
                ok(Inst::Store { ty, v, p })
            }
            "getelementptr" => {
                while matches!(self.peek_word().as_str(), "inbounds" | "nuw" | "nusw") { self.word(); }
                let et = self.ty()?;
                self.need(",")?;
                let (bt, base) = self.tv()?;
                if bt != Ty::Ptr { return Err("vector gep".into()) }
                let mut off: u64 = 0;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while self.eat(",") {
                    if self.peek() == b'!' { break }
                    let (it, iv) = self.tv()?;
                    match iv {
                        Opnd::K(V::C(i)) => {
                            let i = crate::expr::sext(i, it.bits());
                            if first { off = off.wrapping_add((i as i64 as u64).wrapping_mul(cur.size())) }
                            else { let (o, ft) = cur.field(i as usize); off = off.wrapping_add(o); cur = ft }
                        }
                        iv => {
                            if !first {
                                cur = match cur { Ty::Array(_, t) | Ty::Vector(_, t) => *t, _ => return Err("gep".into()) };
                            }
                            idx.push((iv, it.bits(), cur.size()));
                        }
                    }
                    first = false;
                }
                ok(Inst::Gep { d, base, off, idx })
            }
            "icmp" => {
                self.eat("samesign");
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, x => return Err(format!("icmp {x}")) };
                let ty = self.ty()?;
                let a = self.value(&ty)?;
                self.need(",")?;
                let b = self.value(&ty)?;
                ok(Inst::Icmp { d, p, ty, a, b })
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" => {
                while matches!(self.peek_word().as_str(), "nuw" | "nsw" | "nneg") { self.word(); }
                let (from, a) = self.tv()?;
                self.need("to")?;
                let to = self.ty()?;
                if op == "bitcast" { return ok(Inst::Bitcast { d, from, to, a }) }
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt,
                    _ => if from.bits() == to.bits() { Cast::Same } else if from.bits() > to.bits() { Cast::Trunc } else { Cast::ZExt } };
                ok(Inst::Cast { d, k, from, to, a })
            }
            "freeze" => { let (_, a) = self.tv()?; ok(Inst::Move { d, a }) }
            "select" => {
                let (cty, c) = self.tv()?;
                self.need(",")?;
                let (ty, a) = self.tv()?;
                self.need(",")?;
                let (_, b) = self.tv()?;
                ok(Inst::Select { d, cty, ty, c, a, b })
            }
            "phi" => {
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.need("[")?;
                    let v = self.value(&ty)?;
                    self.need(",")?;
                    self.need("%")?;
                    let n = self.name();
                    self.need("]")?;
                    inc.push((self.block(&n), v));
                    if !(self.eat(",") && self.peek() == b'[') { break }
                }
                Ok((Some(Phi { d, inc }), Inst::Nop))
            }
            "extractvalue" => {
                let (_, a) = self.tv()?;
                let mut path = vec![];
                while self.eat(",") { if self.peek() == b'!' { break } path.push(self.int()? as usize) }
                ok(Inst::ExtractValue { d, a, path })
            }
            "insertvalue" => {
                let (ty, a) = self.tv()?;
                self.need(",")?;
                let (_, v) = self.tv()?;
                let mut path = vec![];
                while self.eat(",") { if self.peek() == b'!' { break } path.push(self.int()? as usize) }
                ok(Inst::InsertValue { d, ty, a, v, path })
            }
            "extractelement" => {
                let (t, a) = self.tv()?;
                self.need(",")?;
                let (_, i) = self.tv()?;
                ok(Inst::ExtractElem { d, n: t.fields() as u64, a, i })
            }
            "insertelement" => {
                let (t, a) = self.tv()?;
                self.need(",")?;
                let (_, v) = self.tv()?;
                self.need(",")?;
                let (_, i) = self.tv()?;
                ok(Inst::InsertElem { d, n: t.fields() as u64, a, v, i })
            }
            "shufflevector" => {
                let (t, a) = self.tv()?;
                self.need(",")?;
                let (_, b) = self.tv()?;
                self.need(",")?;
                let (_, m) = self.tv()?;
                ok(Inst::Shuffle { d, n: t.fields() as u64, a, b, m })
            }
            "br" => {
                if self.peek_word() == "label" {
                    let l = self.label()?;
                    ok(Inst::Br(l))
                } else {
                    let (_, c) = self.tv()?;
                    self.need(",")?;
                    let t = self.label()?;
                    self.need(",")?;
                    let f = self.label()?;
                    ok(Inst::CondBr(c, t, f))
                }
            }
            "switch" => {
                let (ty, v) = self.tv()?;
                self.need(",")?;
                let def = self.label()?;
                self.need("[")?;
                let mut cases = vec![];
                while self.peek() != b']' {
                    let (_, k) = self.tv()?;
                    self.need(",")?;
                    let l = self.label()?;
                    match k { Opnd::K(V::C(c)) => cases.push((c, l)), _ => return Err("switch case".into()) }
                }
                ok(Inst::Switch { ty, v, def, cases })
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void { return ok(Inst::Ret(None)) }
                let v = self.value(&t)?;
                ok(Inst::Ret(Some(v)))
            }
            "unreachable" => ok(Inst::Unreachable),
            "fence" => ok(Inst::Nop),
            "resume" | "landingpad" => ok(Inst::Unsupported(text.chars().take(80).collect())),
            "atomicrmw" => {
                self.eat("volatile");
                let o = self.word();
                let (_, p) = self.tv()?;
                self.need(",")?;
                let (ty, v) = self.tv()?;
                ok(Inst::AtomicRmw { d, op: o, ty, p, v })
            }
            "cmpxchg" => {
                while matches!(self.peek_word().as_str(), "weak" | "volatile") { self.word(); }
                let (_, p) = self.tv()?;
                self.need(",")?;
                let (ty, c) = self.tv()?;
                self.need(",")?;
                let (_, n) = self.tv()?;
                ok(Inst::CmpXchg { d, ty, p, c, n })
            }
            "call" | "invoke" => {
                self.attrs();
                let ret = self.ty()?;
                if self.peek() == b'(' { self.balanced() }
                self.ws();
                let f = match self.peek() {
                    b'@' => {
                        self.i += 1;
                        let n = self.name();
                        let a = *self.names.globals.get(&n).ok_or_else(|| format!("function @{n}"))?;
                        if a >> 56 == REGION_FN { Callee::Fn((a >> OFF_BITS) as u32) } else { Callee::Ind(Opnd::K(V::C(u128::from(a)))) }
                    }
                    b'%' => Callee::Ind(self.value(&Ty::Ptr)?),
                    _ => {
                        if self.peek_word() == "asm" {
                            self.word();
                            while matches!(self.peek_word().as_str(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { self.word(); }
                            let body = self.name_q();
                            self.need(",")?;
                            self.name_q();
                            if !body.trim().is_empty() { return Err("inline asm".into()) }
                            Callee::AsmNop
                        } else {
                            match self.value(&Ty::Ptr)? {
                                Opnd::K(V::C(a)) if (a as u64) >> 56 == REGION_FN => Callee::Fn(((a as u64) >> OFF_BITS) as u32),
                                o => Callee::Ind(o),
                            }
                        }
                    }
                };
                self.need("(")?;
                let mut args = vec![];
                if self.peek() == b')' { self.i += 1 } else {
                    loop {
                        let t = self.ty()?;
                        self.attrs();
                        let v = self.value(&t)?;
                        args.push((t, v));
                        match self.peek() {
                            b',' => self.i += 1,
                            b')' => { self.i += 1; break }
                            _ => return Err("call args".into()),
                        }
                    }
                }
                let mut next = None;
                if op == "invoke" {
                    let p = text.find(" to label ").ok_or("invoke")?;
                    self.i = p;
                    self.need("to")?;
                    next = Some(self.label()?);
                }
                ok(Inst::Call { d: dst, f, args, ret, next })
            }
            _ => Err(format!("instruction {op}")),
        }
    }
    fn name_q(&mut self) -> String { self.ws(); self.name() }
}

fn put(data: &mut [u8], off: u64, t: &Ty, v: &V) {
    match t {
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
            let V::C(c) = v else { panic!("symbolic initializer") };
            for k in 0..t.store_size() { data[(off + k) as usize] = (c >> (8 * k)) as u8 }
        }
        Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
            let V::A(vs) = v else { panic!("initializer shape") };
            for (i, x) in vs.iter().enumerate() {
                let (o, ft) = t.field(i);
                put(data, off + o, &ft, x);
            }
        }
        _ => (),
    }
}

/// Name that follows the first '@' of a definition line.
fn at_name(l: &str) -> Option<String> {
    let i = l.find('@')?;
    let r = &l[i + 1..];
    if let Some(q) = r.strip_prefix('"') { return Some(q[..q.find('"')?].to_string()) }
    let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
    Some(r[..e].to_string())
}

pub fn load(src: &str) -> Result<Module, String> {
    let mut names = Names { globals: HashMap::new(), types: HashMap::new() };
    let mut fn_ids = HashMap::new();
    let mut nglob = 0u64;
    let mut fnames: Vec<String> = vec![];
    for l in src.lines() {
        if l.starts_with('@') {
            if let Some(n) = at_name(l) {
                names.globals.insert(n, addr(REGION_GLOBAL, nglob));
                nglob += 1;
            }
        } else if l.starts_with("define") || l.starts_with("declare") {
            let n = at_name(l).ok_or("function name")?;
            let id = fnames.len() as u32;
            names.globals.insert(n.clone(), addr(REGION_FN, u64::from(id)));
            fn_ids.insert(n.clone(), id);
            fnames.push(n);
        } else if l.starts_with('%') && l.contains(" = type ") {
            let mut regs = HashMap::new();
            let mut blocks = HashMap::new();
            let empty = Names { globals: HashMap::new(), types: names.types.clone() };
            let p = l.find(" = type ").unwrap();
            let n = l[1..p].trim_matches('"').to_string();
            let mut ps = P { s: l.as_bytes(), i: p + 8, names: &empty, regs: &mut regs, blocks: &mut blocks };
            let t = ps.ty().unwrap_or(Ty::Other);
            names.types.insert(n, t);
        }
    }
    let mut funcs: Vec<Rc<Func>> = vec![];
    let mut globals = vec![];
    let mut lines = src.lines();
    while let Some(l) = lines.next() {
        if l.starts_with('@') {
            globals.push(global(l, &names)?);
        } else if l.starts_with("declare") {
            funcs.push(Rc::new(Func { name: at_name(l).unwrap(), params: vec![], nregs: 0, blocks: vec![], decl: true }));
        } else if l.starts_with("define") {
            funcs.push(Rc::new(function(l, &mut lines, &names)?));
        }
    }
    Ok(Module { funcs, fn_ids, globals, types: names.types })
}

fn global(l: &str, names: &Names) -> R<Global> {
    let name = at_name(l).unwrap();
    let mut regs = HashMap::new();
    let mut blocks = HashMap::new();
    let eq = l.find(" = ").ok_or("global")?;
    let mut p = P { s: l.as_bytes(), i: eq + 3, names, regs: &mut regs, blocks: &mut blocks };
    let mut external = false;
    let constant;
    loop {
        let w = p.word();
        match w.as_str() {
            "global" => { constant = false; break }
            "constant" => { constant = true; break }
            "alias" | "ifunc" => return Ok(Global { name, size: 0, data: vec![], constant: true }),
            "external" | "extern_weak" => external = true,
            "" => return Err(format!("global: {}", &l[..l.len().min(100)])),
            _ => if p.peek() == b'(' { p.balanced() },
        }
    }
    let t = p.ty()?;
    let size = t.size();
    let mut data = vec![0u8; size as usize];
    if !external {
        let v = p.konst(&t).map_err(|e| format!("{e} in {}", &l[..l.len().min(200)]))?;
        put(&mut data, 0, &t, &v);
    }
    Ok(Global { name, size, data, constant })
}

fn function<'a>(head: &str, lines: &mut std::str::Lines<'a>, names: &Names) -> R<Func> {
    let name = at_name(head).unwrap();
    let mut regs: HashMap<String, u32> = HashMap::new();
    let mut blocks: HashMap<String, u32> = HashMap::new();
    // Parameters.
    let at = head.find('@').unwrap();
    let mut params = vec![];
    {
        let mut p = P { s: head.as_bytes(), i: at + 1, names, regs: &mut regs, blocks: &mut blocks };
        p.name();
        p.need("(")?;
        let mut n = 0;
        if p.peek() == b')' { p.i += 1 } else {
            loop {
                if p.eat("...") { break }
                let _ = p.ty()?;
                p.attrs();
                if p.peek() == b'%' {
                    p.i += 1;
                    let nm = p.name();
                    let r = p.reg(&nm);
                    params.push(r);
                } else {
                    let r = p.reg(&n.to_string());
                    params.push(r);
                }
                n += 1;
                match p.peek() { b',' => p.i += 1, _ => break }
            }
        }
    }
    let mut bl: Vec<Block> = vec![];
    let mut order: Vec<u32> = vec![];
    let mut cur: Option<u32> = None;
    let mut pending: Option<String> = None;
    let mut put_block = |id: u32, bl: &mut Vec<Block>| {
        while bl.len() <= id as usize { bl.push(Block::default()) }
        order.push(id);
    };
    for l in lines.by_ref() {
        if l == "}" { break }
        if let Some(p) = &mut pending {
            p.push(' ');
            p.push_str(l.trim());
            let done = if p.contains("invoke ") { p.contains(" to label ") } else if p.contains("switch ") { l.trim_start().starts_with(']') } else { true };
            if !done { continue }
        } else {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') { continue }
            if !l.starts_with(' ') {
                // label
                let n = if let Some(q) = l.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() }
                        else { l[..l.find(':').ok_or("label")?].to_string() };
                let k = blocks.len() as u32;
                let id = *blocks.entry(n).or_insert(k);
                put_block(id, &mut bl);
                cur = Some(id);
                continue;
            }
            let st = t.to_string();
            if cur.is_none() {
                // Implicit entry label: the next unnamed number.
                let n = params.len().to_string();
                let k = blocks.len() as u32;
                let id = *blocks.entry(n).or_insert(k);
                put_block(id, &mut bl);
                cur = Some(id);
            }
            let kw = { let r = st.split(" = ").nth(1).unwrap_or(&st); let r = if st.starts_with('%') { r } else { &st }; r.split(' ').next().unwrap_or("").to_string() };
            if (kw == "invoke" && !st.contains(" to label ")) || (kw == "switch" && !st.trim_end().ends_with(']')) {
                pending = Some(st);
                continue;
            }
            if matches!(kw.as_str(), "cleanup" | "catch" | "filter") { continue }
            pending = Some(st);
        }
        let text = pending.take().unwrap();
        let mut p = P { s: text.as_bytes(), i: 0, names, regs: &mut regs, blocks: &mut blocks };
        let b = cur.unwrap() as usize;
        match p.inst(&text) {
            Ok((Some(phi), _)) => bl[b].phis.push(phi),
            Ok((None, Inst::Nop)) => (),
            Ok((None, i)) => {
                let o = text.split_once("= ").filter(|(l, _)| l.trim_start().starts_with('%')).map_or(&*text, |x| x.1).trim_start();
                if ["load atomic", "store atomic", "atomicrmw", "cmpxchg"].iter().any(|a| o.starts_with(a)) { bl[b].insts.push(Inst::Race) }
                bl[b].insts.push(i)
            }
            Err(e) => bl[b].insts.push(Inst::Unsupported(format!("{e}: {}", text.chars().take(120).collect::<String>()))),
        }
    }
    while bl.len() < blocks.len() { bl.push(Block::default()) }
    // The entry block must be number 0.
    let entry = *order.first().ok_or("empty function")?;
    if entry != 0 { return Err(format!("entry block of {name}")) }
    Ok(Func { name, params, nregs: regs.len() as u32, blocks: bl, decl: false })
}
